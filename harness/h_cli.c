/* Harness for the CoAP client: the real coap_client_exchange / _exchange_blockwise against a
 * scripted peer on a virtual network and clock.
 *
 *   mem <small> <medium>
 *   x <gap> <type> <cls> <det> <opts> <payload>                             one exchange
 *   bw <gap> <type> <det> <opts> <block1> <block2> <cap> <body>              blockwise exchange
 *   on <j> <n> <delay> <ref> <type> <cls> <det> <mid> <tok> <opts> <pl>    peer: when the client sends
 *        request j (1, 2, ... by message id) for the n-th time (0: every time), after <delay> send a datagram
 *        whose id/token are taken from request j-ref
 *   raw <j> <n> <delay> <hex>
 *   records                                                                 (DTLS) datagrams are records, alerts, ...
 *   failtx <k>                                                              the k-th send fails
 */
#include "common.h"
#include "vnet.h"
#include "jmsg.h"
#include "coap_client.h"
#include "coap_log.h"
#include "addr.h"
#ifdef COAP_DTLS_EN
#include "fgnutls.h"
long fg_now(void) { return vn_now / 1000; }
#endif

typedef struct { int j, n; long delay; int raw; char *tok[12]; int nt; } rule_t;
static rule_t RU[2000]; static int NRU;
typedef struct { long t; unsigned char *d; size_t n; int seq; } pend_t;
static pend_t Q[4000]; static int NQ, seqno;
typedef struct { int mid; unsigned char tok[16]; int ntok; int sent; } req_t;
static req_t RQ[4000]; static int NRQ;
static int failtx[64], nfail, txcount;
static coap_client_t client;
static char **L; static int NL;
static addr_t peer;

static size_t put_op(unsigned char *o, int prev, int num, const unsigned char *v, size_t n)
{
    size_t k = 1; int d = num - prev, dn = d < 13 ? d : d < 269 ? 13 : 14, ln = n < 13 ? (int)n : n < 269 ? 13 : 14;
    o[0] = dn << 4 | ln;
    if (dn == 13) o[k++] = d - 13; else if (dn == 14) { o[k++] = (d - 269) >> 8; o[k++] = (d - 269) & 255; }
    if (ln == 13) o[k++] = n - 13; else if (ln == 14) { o[k++] = (n - 269) >> 8; o[k++] = (n - 269) & 255; }
    memcpy(o + k, v, n); return k + n;
}
static void enqueue(long t, const unsigned char *d, size_t n, int rec)
{
    pend_t *q = &Q[NQ++]; q->t = t; q->n = n + rec; q->d = malloc(n + 1); q->d[0] = 23; memcpy(q->d + rec, d, n); q->seq = seqno++;
}
#ifdef COAP_DTLS_EN
#define RECORDS fg_mode
#else
#define RECORDS 0
#endif
static void answer(rule_t *r, int j)
{
    unsigned char b[4096], *v; size_t n = 4, m; char *s, *sv; int prev = 0;
    if (r->raw) { v = unhexdup(r->tok[0], &m); enqueue(vn_now + r->delay, v, m, 0); free(v); return; }
    int ref = j - atoi(r->tok[0]); if (ref < 0) ref = 0;
    req_t *q = &RQ[ref];
    int type = atoi(r->tok[1]), cls = atoi(r->tok[2]), det = atoi(r->tok[3]); char *ms = r->tok[4], *ts = r->tok[5];
    unsigned mid = ms[0] == '=' ? q->mid : ms[0] == '+' ? q->mid + atoi(ms + 1) : atoi(ms);
    unsigned char tok[32]; int nt = q->ntok; memcpy(tok, q->tok, nt);
    if (ts[0] == 'x' && nt) tok[nt - 1] ^= 1;
    else if (ts[0] == 'f' && nt) tok[0] ^= 0x80;
    else if (ts[0] == 's' && nt) nt--;
    else if (ts[0] == 'l') tok[nt++] = 0;
    else if (ts[0] == '-') nt = 0;
    b[0] = 0x40 | type << 4 | nt; b[1] = cls << 5 | det; b[2] = mid >> 8; b[3] = mid; memcpy(b + 4, tok, nt); n += nt;
    if (r->tok[6][0] != '-')
    {
        char *o = strdup(r->tok[6]);
        for (s = strtok_r(o, ",", &sv); s; s = strtok_r(NULL, ",", &sv))
        {
            int num = atoi(s); char *c = strchr(s, ':'); v = unhexdup(c[1] ? c + 1 : "-", &m);
            n += put_op(b + n, prev, num, v, m); prev = num; free(v);
        }
        free(o);
    }
    if (r->tok[7][0] != '-') { b[n++] = 0xff; v = unhexdup(r->tok[7], &m); memcpy(b + n, v, m); n += m; free(v); }
    enqueue(vn_now + r->delay, b, n, RECORDS);
}
void vn_on_wait(int a) { (void)a; jopen("wait"); jint("t", vn_now); jclose(); }
static int is_request(const unsigned char *p, size_t n) { return n >= 4 && (p[0] >> 4 & 2) == 0 && p[1] != 0 && p[1] >> 5 == 0; }
void vn_on_send(int fd, const struct sockaddr *dst, const void *b, size_t n, int failed)
{
    const unsigned char *p = b; (void)fd;
    int good = addr_port(dst) == addr_port((void *)&peer);
    txcount++;
    vn_sendfail = 0;
    for (int i = 0; i < nfail; i++) if (failtx[i] == txcount + 1) vn_sendfail = 1;
    if (RECORDS)
    {
        if (n == 2 && p[0] == 21) { jopen("bye"); jint("peer", good); jclose(); return; }
        if (n > 1 && p[0] == 23) { p++; n--; b = p; } else good = 0;    /* nothing but records */
    }
    jopen("tx"); jint("t", vn_now); jint("peer", good); jint("fail", failed); jbytes("d", b, n); jclose();
    if (!is_request(p, n)) return;
    int mid = p[2] << 8 | p[3], nt = p[0] & 15;
    if (nt > 8 || n < 4 + (size_t)nt) return;
    if (NRQ == 0 || RQ[NRQ - 1].mid != mid || RQ[NRQ - 1].ntok != nt || memcmp(RQ[NRQ - 1].tok, p + 4, nt))
    { RQ[NRQ].mid = mid; RQ[NRQ].ntok = nt; memcpy(RQ[NRQ].tok, p + 4, nt); RQ[NRQ].sent = 0; NRQ++; }
    req_t *q = &RQ[NRQ - 1]; q->sent++;
    if (failed) return;
    for (int i = 0; i < NRU; i++) if (RU[i].j == NRQ && (RU[i].n == 0 || RU[i].n == q->sent)) answer(&RU[i], NRQ - 1);
}
void vn_on_recv(int fd, const struct sockaddr *src, const void *b, size_t n)
{
    const unsigned char *p = b; const char *k = "rx"; (void)fd; (void)src;
    if (RECORDS) { if (p[0] == 23 && n > 1) { b = p + 1; n--; } else k = p[0] == 21 && n == 2 ? "alert" : p[0] == 20 ? "recerr" : "junk"; }
    jopen(k); jint("t", vn_now); jbytes("d", b, n); jclose();
}
void vn_on_stuck(int a, const char *w) { (void)a; (void)w; }
static int soonest(void)
{
    int best = -1;
    for (int i = 0; i < NQ; i++) if (best < 0 || Q[i].t < Q[best].t || (Q[i].t == Q[best].t && Q[i].seq < Q[best].seq)) best = i;
    return best;
}
long vn_script_next(void) { int i = soonest(); return i < 0 ? -1 : Q[i].t; }
void vn_script_fire(void)
{
    int i = soonest(); int fd = vn_sock_by_port(40000);
    vn_inject(fd, (void *)&peer, Q[i].d, Q[i].n); free(Q[i].d); Q[i] = Q[--NQ];
}
static void add_ops(coap_msg_t *m, char *spec)
{
    char *o = strdup(spec), *s, *sv; size_t k;
    if (o[0] != '-')
        for (s = strtok_r(o, ",", &sv); s; s = strtok_r(NULL, ",", &sv))
        { char *c = strchr(s, ':'); unsigned char *v = unhexdup(c[1] ? c + 1 : "-", &k); coap_msg_add_op(m, atoi(s), k, (char *)v); free(v); }
    free(o);
}
static void vsleep(long ms)
{
    struct timeval tv = { ms / 1000, ms % 1000 * 1000 };
    if (ms > 0) select(0, NULL, NULL, NULL, &tv);
}
static void *agent(void *arg)
{
    (void)arg;
    for (int i = 0; i < NL; i++)
    {
        static char *tok[64]; char *l = strdup(L[i]); int k = split(l, tok, 64); size_t n; unsigned char *p;
        if (k == 0) continue;
        if (strcmp(tok[0], "x") == 0)
        {
            coap_msg_t req, resp;
            vsleep(atol(tok[1]));
            coap_msg_create(&req); coap_msg_create(&resp);
            coap_msg_set_type(&req, atoi(tok[2])); coap_msg_set_code(&req, atoi(tok[3]), atoi(tok[4])); add_ops(&req, tok[5]);
            p = unhexdup(tok[6], &n); if (n) coap_msg_set_payload(&req, (char *)p, n); free(p);
            jopen("call"); jint("t", vn_now); jint("bw", 0); jmsg("req", &req); jclose();
            int ret = coap_client_exchange(&client, &req, &resp);
            jopen("ret"); jint("t", vn_now); jint("halted", vn_halted()); jint("ret", ret); jmsg("resp", &resp); jbytes("body", NULL, 0); jclose();
            coap_msg_destroy(&req); coap_msg_destroy(&resp);
        }
        else if (strcmp(tok[0], "bw") == 0)
        {
            coap_msg_t req, resp;
            vsleep(atol(tok[1]));
            coap_msg_create(&req); coap_msg_create(&resp);
            coap_msg_set_type(&req, atoi(tok[2])); coap_msg_set_code(&req, 0, atoi(tok[3])); add_ops(&req, tok[4]);
            unsigned b1 = atoi(tok[5]), b2 = atoi(tok[6]); size_t cap = atoi(tok[7]);
            p = unhexdup(tok[8], &n);
            /* an exactly sized buffer: the body to send, or the space for the body to receive */
            size_t len = atoi(tok[3]) == 1 ? cap : n;
            char *body = malloc(len); memset(body, 0xEE, len); memcpy(body, p, n < len ? n : len); free(p);
            jopen("call"); jint("t", vn_now); jint("bw", 1); jmsg("req", &req); jint("b1", b1); jint("b2", b2); jbytes("body", body, len); jclose();
            ssize_t ret = coap_client_exchange_blockwise(&client, &req, &resp, b1, b2, body, len, 0);
            jopen("ret"); jint("t", vn_now); jint("halted", vn_halted()); jint("ret", ret); jmsg("resp", &resp); jbytes("body", body, len); jclose();
            free(body); coap_msg_destroy(&req); coap_msg_destroy(&resp);
        }
        free(l);
    }
    return NULL;
}
void run_scenario(char **lines, int n)
{
    int small = 256, medium = 256, records = 0; (void)records;
    L = lines; NL = n;
    for (int i = 0; i < n; i++)
    {
        static char *tok[64]; char *l = strdup(lines[i]); int k = split(l, tok, 64);
        if (k == 0) continue;
        if (strcmp(tok[0], "mem") == 0) { small = atoi(tok[1]); medium = atoi(tok[2]); }
        else if (strcmp(tok[0], "records") == 0) records = 1;
        else if (strcmp(tok[0], "seed") == 0) vn_rand_state = atoi(tok[1]);
        else if (strcmp(tok[0], "failtx") == 0) { failtx[nfail++] = atoi(tok[1]); if (failtx[nfail - 1] == 1) vn_sendfail = 1; }
        else if (strcmp(tok[0], "on") == 0 || strcmp(tok[0], "raw") == 0)
        {
            rule_t *r = &RU[NRU++]; r->raw = tok[0][0] == 'r'; r->j = atoi(tok[1]); r->n = atoi(tok[2]); r->delay = atol(tok[3]);
            for (int j = 4; j < k && j < 16; j++) r->tok[r->nt++] = strdup(tok[j]);
        }
        free(l);
    }
    addr_lo(&peer, 5683);
    coap_log_set_level(getenv("VLOG") ? 7 : 0);
    if (coap_mem_all_create(small, 64, medium, 1280, 8, 8) < 0) abort();
#ifdef COAP_DTLS_EN
    fg_hs = NULL; fg_mode = 0;
    if (coap_client_create(&client, "127.0.0.1", "5683", "key", "cert", "trust", "crl", "peer") < 0) abort();
    fg_mode = records;
#else
    if (coap_client_create(&client, "127.0.0.1", "5683") < 0) abort();
#endif
    vn_spawn(agent, NULL);
    vn_loop();
    coap_client_destroy(&client);
    jopen("fin"); jint("small", used_small()); jint("medium", used_medium()); 
#ifdef COAP_DTLS_EN
    jint("fds", vn_open_fds() + fg_misuse + fg_live[FG_GLOB] + fg_live[FG_CRED] + fg_live[FG_PRIO] + fg_live[FG_SESS] + fg_live[FG_CRT] + (fg_byes != 1));
#else
    jint("fds", vn_open_fds());
#endif
    jclose();
    coap_mem_all_destroy();
}
