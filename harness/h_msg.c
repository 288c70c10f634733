/* Harness for the message codec: parse vectors, API construction histories, block values. */
#include "common.h"
#include "coap_msg.h"
#include "coap_mem.h"

static unsigned occ(const char *a, size_t n) { unsigned c = 0; for (size_t i = 0; i < n; i++) c += __builtin_popcount((unsigned char)a[i]); return c; }
/* free buffers counted through the public allocator interface only */
static long used_small(void)
{
    static void *p[4096]; long n = 0, tot = coap_mem_small_get_num();
    while (n < 4096 && (p[n] = coap_mem_small_alloc(1)) != NULL) n++;
    for (long i = 0; i < n; i++) coap_mem_small_free(p[i]);
    (void)occ; return tot - n;
}
static long used_medium(void)
{
    static void *p[4096]; long n = 0, tot = coap_mem_medium_get_num();
    while (n < 4096 && (p[n] = coap_mem_medium_alloc(1)) != NULL) n++;
    for (long i = 0; i < n; i++) coap_mem_medium_free(p[i]);
    return tot - n;
}

static void dump(const char *pfx, coap_msg_t *m)
{
    char k[16];
    coap_msg_op_t *op;
    snprintf(k, sizeof k, "%sver", pfx); jint(k, coap_msg_get_ver(m));
    snprintf(k, sizeof k, "%stype", pfx); jint(k, coap_msg_get_type(m));
    snprintf(k, sizeof k, "%scls", pfx); jint(k, coap_msg_get_code_class(m));
    snprintf(k, sizeof k, "%sdet", pfx); jint(k, coap_msg_get_code_detail(m));
    snprintf(k, sizeof k, "%smid", pfx); jint(k, coap_msg_get_msg_id(m));
    snprintf(k, sizeof k, "%stok", pfx); jbytes(k, coap_msg_get_token(m), coap_msg_get_token_len(m));
    fprintf(TR, ",\"%sops\":[", pfx);
    int first = 1;
    for (op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op))
    {
        fprintf(TR, "%s{\"n\":%u", first ? "" : ",", coap_msg_op_get_num(op));
        jbytes("v", coap_msg_op_get_val(op), coap_msg_op_get_len(op));
        fputc('}', TR); first = 0;
    }
    fputc(']', TR);
    snprintf(k, sizeof k, "%spl", pfx);
    jbytes(k, coap_msg_get_payload(m), coap_msg_get_payload(m) ? coap_msg_get_payload_len(m) : 0);
}
/* format into an exactly sized heap buffer, so that one byte too many is caught */
static void fmt(const char *key, coap_msg_t *m, size_t cap)
{
    char *b = malloc(cap ? cap : 1); char *q = b;
    if (cap == 0) { free(b); q = b = malloc(0); }
    char kk[24];
    ssize_t r = coap_msg_format(m, q, cap);
    snprintf(kk, sizeof kk, "%scap", key); jint(kk, cap);
    snprintf(kk, sizeof kk, "%sok", key); jint(kk, r >= 0);
    jbytes(key, b, r > 0 ? (size_t)r : 0);
    free(b);
}
static void paths(coap_msg_t *m, const size_t *caps, int n)
{
    fprintf(TR, ",\"paths\":[");
    for (int i = 0; i < n; i++)
    {
        char *b = malloc(caps[i]);
        memset(b, 'Z', caps[i]);
        size_t r = coap_msg_uri_path_to_str(m, b, caps[i]);
        fprintf(TR, "%s{\"cap\":%zu,\"ret\":%zu", i ? "," : "", caps[i], r);
        jbytes("b", b, caps[i]);
        fputc('}', TR);
        free(b);
    }
    fputc(']', TR);
}
static void blk(const char *key, coap_msg_t *m, int type)
{
    unsigned num = 77, more = 77, size = 77;
    int r = coap_msg_parse_block_op(&num, &more, &size, m, type);
    fprintf(TR, ",\"%s\":{\"ret\":%d,\"num\":%u,\"more\":%u,\"size\":%u}", key, r < 0 ? -1 : r, r == 0 ? num : 0, r == 0 ? more : 0, r == 0 ? size : 0);
}
static void after(coap_msg_t *m)
{
    static const size_t caps[] = {1, 2, 3, 5, 9, 32, 256};
    coap_msg_t c = {0};
    jint("crit", coap_msg_check_critical_ops(m));
    jint("unsafe", coap_msg_check_unsafe_ops(m));
    blk("b1", m, COAP_MSG_BLOCK1);
    blk("b2", m, COAP_MSG_BLOCK2);
    paths(m, caps, 7);
    coap_msg_create(&c);
    int r = coap_msg_copy(&c, m);
    jint("cpok", r == 0);
    if (r == 0) { dump("c", &c); }
    coap_msg_destroy(&c);
}
void run_scenario(char **lines, int n)
{
    static char *tok[MAXTOK];
    size_t medlen = 1024;
    int small = 128, medium = 128;
    coap_msg_t m;
    coap_msg_create(&m);
    for (int i = 0; i < n; i++)
    {
        int t = split(lines[i], tok, MAXTOK);
        if (t == 0) continue;
        if (!strcmp(tok[0], "pools"))      /* pools small medium medlen */
        {
            small = atoi(tok[1]); medium = atoi(tok[2]); medlen = atoi(tok[3]);
            coap_mem_all_create(small, 64, medium, medlen, 8, 64);
            jopen("pools"); jint("small", small); jint("medium", medium); jclose();
        }
        else if (!strcmp(tok[0], "parse"))
        {
            size_t len; char *b = (char *)unhexdup(tok[1], &len);
            coap_msg_t p; coap_msg_create(&p);
            jopen("parse"); jbytes("d", b, len);
            jint("lim", medlen);
            ssize_t r = coap_msg_parse(&p, b, len);
            jint("ok", r >= 0);
            unsigned ty = 9, id = 9; int r2 = coap_msg_parse_type_msg_id(b, len, &ty, &id);
            jint("hok", r2 == 0); jint("hty", r2 == 0 ? (long)ty : 0); jint("hid", r2 == 0 ? (long)id : 0);
            free(b);
            if (r >= 0)
            {
                dump("", &p);
                fmt("f", &p, len + 8);
                after(&p);
            }
            coap_msg_destroy(&p);
            jint("us", used_small()); jint("um", used_medium());
            jclose();
        }
        else if (!strcmp(tok[0], "new")) { coap_msg_reset(&m); jopen("new"); jclose(); }
        else if (!strcmp(tok[0], "type")) { int r = coap_msg_set_type(&m, strtoul(tok[1], 0, 10)); jopen("type"); jint("a", atol(tok[1])); jint("ok", r == 0); jclose(); }
        else if (!strcmp(tok[0], "code")) { int r = coap_msg_set_code(&m, atoi(tok[1]), atoi(tok[2])); jopen("code"); jint("a", atol(tok[1])); jint("b", atol(tok[2])); jint("ok", r == 0); jclose(); }
        else if (!strcmp(tok[0], "mid")) { int r = coap_msg_set_msg_id(&m, atoi(tok[1])); jopen("mid"); jint("a", atol(tok[1])); jint("ok", r == 0); jclose(); }
        else if (!strcmp(tok[0], "token")) { size_t l; char *b = (char *)unhexdup(tok[1], &l); int r = coap_msg_set_token(&m, b, l); jopen("token"); jbytes("v", b, l); jint("ok", r == 0); jclose(); free(b); }
        else if (!strcmp(tok[0], "op")) { size_t l; char *b = (char *)unhexdup(tok[2], &l); int r = coap_msg_add_op(&m, atoi(tok[1]), l, b); jopen("op"); jint("lim", medlen); jint("a", atol(tok[1])); jbytes("v", b, l); jint("ok", r == 0); jclose(); free(b); }
        else if (!strcmp(tok[0], "pay")) { size_t l; char *b = (char *)unhexdup(tok[1], &l); int r = coap_msg_set_payload(&m, b, l); jopen("pay"); jint("lim", medlen); jbytes("v", b, l); jint("ok", r == 0); jclose(); free(b); }
        else if (!strcmp(tok[0], "clrpay")) { coap_msg_clear_payload(&m); jopen("clrpay"); jclose(); }
        else if (!strcmp(tok[0], "fmt"))
        {
            jopen("fmt"); dump("", &m); fmt("f", &m, atoi(tok[1])); after(&m); jclose();
        }
        else if (!strcmp(tok[0], "drop"))
        {
            coap_msg_destroy(&m); coap_msg_create(&m);
            jopen("drop"); jint("us", used_small()); jint("um", used_medium()); jclose();
        }
        else if (!strcmp(tok[0], "bfmt"))   /* bfmt len num more size */
        {
            unsigned L = atoi(tok[1]);
            char *v = malloc(L ? L : 1);
            memset(v, 0xEE, L ? L : 1);
            int r = coap_msg_op_format_block_val(v, L, strtoul(tok[2], 0, 10), atoi(tok[3]), atoi(tok[4]));
            jopen("bfmt"); jint("len", L); jint("num", atol(tok[2])); jint("more", atol(tok[3])); jint("size", atol(tok[4]));
            jint("ret", r < 0 ? -1 : r); jbytes("v", v, r > 0 ? (size_t)r : 0); jclose(); free(v);
        }
        else if (!strcmp(tok[0], "bparse"))
        {
            size_t l; char *b = (char *)unhexdup(tok[1], &l);
            unsigned num = 7, more = 7, size = 7;
            int r = coap_msg_op_parse_block_val(&num, &more, &size, b, l);
            jopen("bparse"); jbytes("v", b, l); jint("ret", r < 0 ? -1 : r); jint("num", r < 0 ? 0 : (long)num); jint("more", r < 0 ? 0 : (long)more); jint("size", r < 0 ? 0 : (long)size); jclose(); free(b);
        }
        else if (!strcmp(tok[0], "szx"))
        {
            int r = coap_msg_op_calc_block_szx(atoi(tok[1])); jopen("szx"); jint("a", atol(tok[1])); jint("ret", r < 0 ? -1 : r); jclose();
        }
        else if (!strcmp(tok[0], "recog"))
        {
            jopen("recog"); jint("a", atol(tok[1])); jint("ret", coap_msg_op_num_is_recognized(strtoul(tok[1], 0, 10))); jclose();
        }
        else { fprintf(stderr, "bad command %s\n", tok[0]); abort(); }
    }
    coap_msg_destroy(&m);
}
