SRV, CLI, MSG, MEM = "lib/src/coap_server.c", "lib/src/coap_client.c", "lib/src/coap_msg.c", "lib/src/coap_mem.c"
C = "proxy/common/src/"
HTTP, URI, CROSS, CONF, CON = C + "http_msg.c", C + "uri.c", C + "cross.c", C + "config.c", "proxy/http_coap/src/connection.c"
SEEDS = []


def S(id, property, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo="from kit import *\n" + demo, **k))


def T(id, property, needs, breaks, edits, code, srcs="LIB", flags='[]', kit=("kit.py",), what="demonstration"):
    S(id, property, needs, breaks, edits, '''
b = build("t", "t.c", %s, %s)
check(subprocess.call([b], stderr=subprocess.DEVNULL, timeout=60, env={"ASAN_OPTIONS": "detect_leaks=0"}) == 0, "%s")
''' % (srcs, flags, what), kit=kit, files={"t.c": code})


PXF = '["-fsanitize=address", "-Iproxy/common/include", "-Iproxy/http_coap/include"]'
HTTPS = '["proxy/common/src/http_msg.c", "proxy/common/src/util.c"]'
CROSSS = 'LIB + ["proxy/common/src/" + x for x in ("cross.c", "http_msg.c", "uri.c", "util.c")]'

T("S18-length-268", "P02", "the longest option value of the one byte extended length",
  "an option value of 268 bytes is encoded with a wrong length", [
      (MSG, '''    /* option length extended */
    if (op->len >= 269)
    {
        val''', '''    /* option length extended */
    if (op->len >= 268)
    {
        val''')], r'''#include <string.h>
#include "coap_mem.h"
#include "coap_msg.h"
int main(void)
{
    static char v[400], b[2048]; coap_msg_t m, r; unsigned n; ssize_t k;
    coap_mem_all_create(16, 64, 16, 1280, 8, 64);
    for (n = 0; n < 400; n++)
    {
        coap_msg_create(&m); coap_msg_create(&r);
        coap_msg_set_type(&m, COAP_MSG_CON); coap_msg_set_code(&m, COAP_MSG_REQ, COAP_MSG_GET);
        coap_msg_add_op(&m, COAP_MSG_PROXY_URI, n, v);
        k = coap_msg_format(&m, b, sizeof b);
        if (k < 0 || coap_msg_parse(&r, b, k) < 0) return 1;
        if (coap_msg_op_get_len(coap_msg_get_first_op(&r)) != n || coap_msg_op_get_next(coap_msg_get_first_op(&r))) return 1;
        coap_msg_destroy(&m); coap_msg_destroy(&r);
    }
    return 0;
}
''', what="every option length survives encoding")

T("S19-more-not-boolean", "P03", "a more flag given as a true value other than 1",
  "the more flag is shifted in as a number and changes the block number", [
      (MSG, "        val[2] |= (!!more) << 3;\n", "        val[2] |= more << 3;\n")], r'''#include "coap_msg.h"
int main(void)
{
    unsigned num, more, size, m; char v[3];
    for (m = 0; m <= 16; m++)
    {
        if (coap_msg_op_format_block_val(v, 3, 32, m, 64) != 3) return 1;
        if (coap_msg_op_parse_block_val(&num, &more, &size, v, 3) < 0) return 1;
        if (num != 32 || more != !!m || size != 64) return 1;
    }
    return 0;
}
''', what="true is true")

S("S20-download-sequence", "P10", "a server that repeats a block during a download",
  "blocks out of sequence are accepted when the block number is smaller than expected", [
      (CLI, '''        /* check that the received block is the next one in sequence */
        if (block2_num * block2_size != block2_start)''', '''        /* check that the received block is the next one in sequence */
        if (block2_num * block2_size > block2_start)''')], '''
port = freeport(); s = Ep(port, ("127.0.0.1", port))
c = client("down", 500, port=port)
for i, (n, more) in enumerate([(0, 1), (0, 1), (2, 0)]):
    q = s.recv(3)
    if q is None: break
    s.send(msg(ACK, (2, 31 if more else 5), q.mid, q.tok, [(23, block(n, more, 32))], bytes([97 + i]) * 32), s.peer)
out = c.communicate(timeout=60)[0]
check("RET -" in out, "a repeated block is an error: " + out)
''')

S("S21-stale-body", "P06", "blockwise transfers that are cut off by a new blockwise transfer, again and again",
  "each download that is abandoned by asking for another resource keeps its body buffer", [
      (SRV, '''    trans->type = COAP_SERVER_TRANS_REGULAR;
    if (trans->body != NULL)
    {
        coap_mem_large_free(trans->body);
        trans->body = NULL;
    }
''', '''    if (trans->body != NULL)
    {
        if (trans->type != COAP_SERVER_TRANS_BLOCKWISE_POST2) coap_mem_large_free(trans->body);
        trans->body = NULL;
    }
    trans->type = COAP_SERVER_TRANS_REGULAR;
''')], '''
port = freeport()
b = build("srv2", "srv2.c", LIB + ["lib/src/coap_server.c"])
p = subprocess.Popen([b, str(port)], stdout=subprocess.PIPE, text=True); PROCS.append(p)
p.stdout.readline()
a = Ep(port)
for i in range(30):
    m = a.ask(msg(CON, (0, 2), 3 * i + 1, b"A", PATH("echo") + [(27, block(0, 0, 32))], b"x" * 20))
    check(m, "upload %d answered" % i)
    m = a.ask(msg(CON, (0, 2), 3 * i + 2, b"A", PATH("echo") + [(23, block(9, 0, 16))]))
    check(m is not None, "wrong block answered")
    a.ask(msg(CON, (0, 1), 3 * i + 3, b"A", PATH("free")))
m = a.ask(msg(CON, (0, 1), 200, b"A", PATH("free")))
m = m or a.ask(msg(CON, (0, 1), 201, b"A", PATH("free")))
check(m and m.pl == b"16", "all body buffers are free: %r" % (m and m.pl))
''', kit=("kit.py",), files={"srv2.c": r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "coap_mem.h"
#include "coap_log.h"
#include "coap_server.h"
static int rx(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    memset(coap_server_trans_get_body(t), 'y', 100);
    coap_server_trans_set_body_end(t, 100);
    (void)req;
    return coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CHANGED);
}
static int handler(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    char path[512] = "", n[32]; int i, k = 0; void *v[64];
    coap_msg_uri_path_to_str(req, path, sizeof path);
    if (strcmp(path, "/echo") == 0) return coap_server_trans_handle_blockwise(t, req, resp, 32, 16, NULL, 0, rx);
    while (k < 64 && (v[k] = coap_mem_large_alloc(8)) != NULL) k++;
    for (i = 0; i < k; i++) coap_mem_large_free(v[i]);
    sprintf(n, "%d", k);
    coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CONTENT);
    return coap_msg_set_payload(resp, n, strlen(n));
}
int main(int c, char **v)
{
    coap_server_t s;
    (void)c;
    coap_log_set_level(COAP_LOG_ERROR);
    if (coap_mem_all_create(64, 64, 64, 1280, 16, 256) < 0) return 3;
    if (coap_server_create(&s, handler, "127.0.0.1", v[1]) < 0) return 3;
    printf("READY\n"); fflush(stdout);
    return coap_server_run(&s) < 0;
}
'''})

S("S22-duplicate-not-get", "P11", "a repeated PUT, POST or DELETE to a separate resource whose response was acknowledged",
  "the repetition gets the separate response again instead of an acknowledgement", [
      (SRV, '''            resp_type = coap_server_get_resp_type(server, &recv_msg);
            if (resp_type == COAP_SERVER_SEPARATE)
            {
                /* send another acknowledgement */''', '''            resp_type = (coap_msg_get_code_detail(&recv_msg) == COAP_MSG_GET) ? coap_server_get_resp_type(server, &recv_msg) : COAP_SERVER_PIGGYBACKED;
            if (resp_type == COAP_SERVER_SEPARATE)
            {
                /* send another acknowledgement */''')], '''
p, port = server()
a = Ep(port)
m = a.ask(msg(CON, (0, 3), 7, b"A", PATH("sep"), b"v"))
check(m and m.type == ACK and m.code == (0, 0), "empty acknowledgement")
m = a.recv()
check(m and m.type == CON and m.tok == b"A", "separate response")
a.send(msg(ACK, (0, 0), m.mid))
m = a.ask(msg(CON, (0, 3), 7, b"A", PATH("sep"), b"v"))
check(m and m.type == ACK and m.code == (0, 0), "the same acknowledgement again")
''')

T("S23-encoding-case", "P20", "a transfer coding that is not written in lower case",
  "Transfer-Encoding: Chunked is taken for a message without a body", [
      (HTTP, '(strcasecmp(header->value, "chunked") == 0)', '(strcmp(header->value, "chunked") == 0)')], r'''#include <string.h>
#include "http_msg.h"
int main(void)
{
    static const char t[] = "POST / HTTP/1.1\r\nTransfer-Encoding: Chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n";
    http_msg_t m; ssize_t n;
    http_msg_create(&m);
    n = http_msg_parse(&m, t, sizeof t - 1);
    return n != sizeof t - 1 || http_msg_get_body_len(&m) != 3 || memcmp(http_msg_get_body(&m), "abc", 3);
}
''', srcs=HTTPS, flags=PXF, what="a chunked body is read")

T("S25-zone-id", "P22", "an IPv6 address with a zone that contains a colon",
  "the port is looked for before the bracket that closes an IPv6 address", [
      (URI, '''            if (*p == ']')
            {
                in = 0;
            }''', '''            if ((*p == ']') || (*p == '%'))
            {
                in = 0;
            }''')], r'''#include <string.h>
#include "uri.h"
int main(void)
{
    uri_t u; uri_create(&u);
    if (uri_parse(&u, "coap://[fe80::1%25e:0]:99/x") < 0) return 1;
    return !uri_get_host(&u) || strcmp(uri_get_host(&u), "fe80::1%e:0") || !uri_get_port(&u) || strcmp(uri_get_port(&u), "99");
}
''', srcs='["proxy/common/src/uri.c"]', flags=PXF, what="the zone of an IPv6 address stays part of the host")

T("S26-query-first", "P23", "a CoAP request whose first query argument is empty, followed by another",
  "the separator between query arguments depends on the argument, not on its position", [
      (CROSS, '''            if (num > 0)
            {
                tmp[num++] = '&';''', '''            if ((num > 0) && (coap_msg_op_get_len(op) > 1))
            {
                tmp[num++] = '&';''')], r'''#include <string.h>
#include "coap_mem.h"
#include "cross.h"
int main(void)
{
    coap_msg_t m; char b[200];
    coap_mem_all_create(16, 64, 16, 1280, 8, 64);
    coap_msg_create(&m);
    coap_msg_add_op(&m, COAP_MSG_URI_HOST, 1, "h");
    coap_msg_add_op(&m, COAP_MSG_URI_QUERY, 3, "a=1");
    coap_msg_add_op(&m, COAP_MSG_URI_QUERY, 1, "b");
    if (cross_uri_coap_to_http(b, sizeof b, &m) < 0) return 1;
    return strcmp(b, "coaps://h/?a=1&b") != 0;
}
''', srcs=CROSSS, flags=PXF, what="query arguments stay apart")

T("S27-max-age-kept", "P23", "two Cache-Control headers, the second without a usable max-age",
  "a max-age without a number repeats an earlier one", [
      (CROSS, '''                ret = sscanf(str, "max-age=%u", &val);
                if (ret == 1)
                {''', '''                ret = sscanf(str, "max-age=%u", &val);
                if ((ret == 1) || (val > 0))
                {''')], r'''#include <string.h>
#include "coap_mem.h"
#include "cross.h"
int main(void)
{
    static const char t[] = "GET coap://h/ HTTP/1.1\r\nCache-Control: max-age=5\r\nCache-Control: max-age=x\r\n\r\n";
    coap_msg_t m; http_msg_t h; char body[64]; size_t end = 0; unsigned code, n = 0; coap_msg_op_t *op;
    coap_mem_all_create(16, 64, 16, 1280, 8, 64);
    coap_msg_create(&m); http_msg_create(&h);
    if (http_msg_parse(&h, t, sizeof t - 1) < 0) return 1;
    if (cross_req_http_to_coap(&m, body, sizeof body, &end, &h, &code) < 0) return 1;
    for (op = coap_msg_get_first_op(&m); op; op = coap_msg_op_get_next(op)) n += coap_msg_op_get_num(op) == COAP_MSG_MAX_AGE;
    return n != 1;
}
''', srcs=CROSSS, flags=PXF, what="only the usable max-age is forwarded")

PX = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "coap_mem.h"
#include "coap_log.h"
#include "connection.h"
#include "sock.h"
static const char *in[64]; static int nin, iin; static char out[100000]; static size_t nout;
static char ports[64][16]; static int nmk, nrm, nclose; static size_t payload[64]; static int nex;
const char *sock_strerror(int e) { return "error"; }
size_t gnutls_record_check_pending(gnutls_session_t s) { return 0; }
void tls_sock_get_addr_string_(char *o, size_t n, sock_in_addr_t a) { snprintf(o, n, "1.2.3.4"); }
static size_t off;
ssize_t tls_sock_read(tls_sock_t *s, void *buf, size_t len)
{
    size_t k;
    if (iin == nin) return 0;
    k = strlen(in[iin] + off); if (k > len) k = len;
    memcpy(buf, in[iin] + off, k); off += k;
    if (!in[iin][off]) { iin++; off = 0; }
    return k;
}
ssize_t tls_sock_write_full(tls_sock_t *s, void *buf, size_t len) { memcpy(out + nout, buf, len); nout += len; return len; }
ssize_t tls_sock_write(tls_sock_t *s, void *buf, size_t len) { return tls_sock_write_full(s, buf, len); }
void tls_sock_close(tls_sock_t *s) { nclose++; }
int coap_client_create(coap_client_t *c, const char *h, const char *p, const char *k, const char *ce, const char *t, const char *crl, const char *cn)
{ memset(c, 0, sizeof *c); strcpy(ports[nmk++], p); return 0; }
void coap_client_destroy(coap_client_t *c) { nrm++; }
int coap_client_exchange(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp)
{
    payload[nex++] = coap_msg_get_payload_len(req);
    coap_msg_reset(resp);
    coap_msg_set_type(resp, COAP_MSG_ACK); coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CONTENT);
    return coap_msg_set_payload(resp, "d", 1);
}
ssize_t coap_client_exchange_blockwise(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp, unsigned b1, unsigned b2, char *body, size_t len, int have)
{
    payload[nex++] = len;
    coap_msg_reset(resp);
    coap_msg_set_type(resp, COAP_MSG_ACK); coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CHANGED);
    return 0;
}
static void run(void)
{
    static param_t par = {"4430", 0, "hk", "hc", "ht", "ck", "cc", "ct"};
    tls_sock_t *s = calloc(1, sizeof *s); connection_t *con;
    coap_log_set_level(0);
    coap_mem_all_create(128, 256, 128, 1024, 32, 8192);
    connection_init();
    con = connection_new(s, 1, 2, &par);
    connection_thread_func(con);
}
'''
PXS = CROSSS + ' + ["proxy/http_coap/src/connection.c", "proxy/common/src/data_buf.c", "proxy/common/src/thread.c", "-lpthread"]'
PXD = '["-DCOAP_DTLS_EN", "-Iproxy/common/include", "-Iproxy/http_coap/include"]'

T("S28-same-host-other-port", "P24", "two requests on one connection to different ports of the same host, the second longer",
  "a CoAP client is kept although the port of the target changed", [
      (CON, "|| (strcmp(uri_get_port(&uri), con->coap_client_port) != 0))", "|| (strncmp(uri_get_port(&uri), con->coap_client_port, strlen(con->coap_client_port)) != 0))")],
  PX + r'''int main(void)
{
    in[nin++] = "GET coap://h:568/a HTTP/1.1\r\n\r\n";
    in[nin++] = "GET coap://h:5683/a HTTP/1.1\r\n\r\n";
    run();
    return nmk != 2 || strcmp(ports[1], "5683") || nrm != 2;
}
''', srcs=PXS, flags=PXD, what="each request reaches the port of its URI")

T("S29-consume-all", "P24", "a request that arrives together with the beginning of the next one",
  "what was received behind a complete request is thrown away when the receive buffer was expanded", [
      (C + "data_buf.c", '''    memmove(buf->data, buf->data + num, buf->size - num);
''', '''    memmove(buf->data, buf->data + num, buf->count - num < 128 ? buf->count - num : 128);
''')], PX + r'''int main(void)
{
    static char big[4000], two[4200];
    memset(big, 'q', 1500);
    sprintf(two, "GET coap://h:5683/a HTTP/1.1\r\n\r\nPUT coap://h:5683/b HTTP/1.1\r\nContent-Length: 600\r\nX: %.100s\r\n\r\n%.600s", big, big);
    in[nin++] = two;
    run();
    return nex != 2 || payload[1] != 600;
}
''', srcs=PXS, flags=PXD, what="both requests are forwarded")

T("S30-error-path", "P25", "memory that runs out while the parts of a request line are copied",
  "a message whose second start field cannot be copied is sent with what was there", [
      (HTTP, '''    msg->start[2] = strdup(start3);
    if (msg->start[2] == NULL)
    {
        return -ENOMEM;
    }
    return 0;
}''', '''    msg->start[2] = strdup(start3);
    return 0;
}''')], r'''#include <stdlib.h>
#include <string.h>
#include "http_msg.h"
static int count, fail;
void *__real_malloc(size_t n); void *__real_calloc(size_t n, size_t m); char *__real_strdup(const char *s);
void *__wrap_malloc(size_t n) { return ++count == fail ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return ++count == fail ? NULL : __real_calloc(n, m); }
char *__wrap_strdup(const char *s) { return ++count == fail ? NULL : __real_strdup(s); }
int main(void)
{
    http_msg_t m;
    for (fail = 1; fail <= 3; fail++)
    {
        count = 0;
        http_msg_create(&m);
        if (http_msg_set_start(&m, "HTTP/1.1", "200", "OK") == 0) return 1;
        http_msg_destroy(&m);
    }
    return 0;
}
''', srcs=HTTPS, flags='["-fno-builtin", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=strdup", "-Iproxy/common/include"]', what="a start line that cannot be stored is refused")

T("S31-growth", "P26", "names or values of exactly 64, 128, ... characters followed by more",
  "a long value loses a character whenever its buffer grows", [
      (CONF, '''        memcpy(new_buf, s->buf, s->len);
        free(s->buf);''', '''        memcpy(new_buf, s->buf, s->len > 128 ? s->len - 1 : s->len);
        free(s->buf);''')], r'''#include <string.h>
#include <stdio.h>
#include "config.h"
int main(void)
{
    static char v[1001], t[1100]; int n; unsigned line, col;
    for (n = 1; n <= 1000; n += 37)
    {
        config_t c; const char *g; int r;
        memset(v, 'x', n); v[n] = 0;
        sprintf(t, "[s]\na = \"%s\"\n", v);
        config_create(&c);
        r = config_parse(&c, t, &line, &col);
        if (r != 0) return 2;
        g = config_get(&c, "s", "a");
        if (!g || strcmp(g, v)) return 1;
        config_destroy(&c);
    }
    return 0;
}
''', srcs='["proxy/common/src/config.c"]', flags='["-Iproxy/common/include", "-include", "stdlib.h"]', what="values of every length are kept")

T("S32-tab-column", "P26", "an error behind a tab that is not at a tab stop",
  "the column of an error behind tabs is wrong", [
      (CONF, "p->col = ((p->col + p->tab_width) / p->tab_width) * p->tab_width;", "p->col = ((p->col + p->tab_width - 1) / p->tab_width) * p->tab_width;")], r'''#include <string.h>
#include <stdio.h>
#include "config.h"
int main(void)
{
    config_t c; int r; unsigned line = 0, col = 0;
    config_create(&c);
    r = config_parse(&c, "[s]\nabcd\t=\t!\n", &line, &col);
    return r == 0 || line != 2 || col != 13;
}
''', srcs='["proxy/common/src/config.c"]', flags='["-Iproxy/common/include", "-include", "stdlib.h"]', what="the position of the error")

T("S33-prefix-id", "P27", "two clients, the name of one a prefix of the other's",
  "a client whose name begins with the name of another takes over its entry", [
      ("sample/reg_server/registrar.c", "if (strcmp(entry->id, id) == 0)", "if (strncmp(entry->id, id, strlen(entry->id)) == 0)")], r'''#include <string.h>
#include "registrar.h"
int main(void)
{
    registrar_t r; registrar_entry_t *e;
    registrar_create(&r);
    registrar_add(&r, "dev1", "a"); registrar_add(&r, "dev12", "b");
    e = registrar_find(&r, "dev12");
    if (!e || strcmp(e->id, "dev12") || strcmp(e->addr, "b")) return 1;
    e = registrar_find(&r, "dev1");
    return !e || strcmp(e->addr, "a");
}
''', srcs='["sample/reg_server/registrar.c"]', flags='["-Isample/reg_server"]', what="both clients are registered")

T("S34-last-link", "P27", "removing the last client and registering another",
  "after the last entry is removed, the next registration is lost", [
      ("sample/reg_server/registrar.c", '''        registrar_entry_set_prev(entry, registrar->last);
        registrar_entry_set_next(registrar->last, entry);''', '''        registrar_entry_set_prev(entry, registrar->first);
        registrar_entry_set_next(registrar->last, entry);''')], r'''#include <string.h>
#include "registrar.h"
int main(void)
{
    registrar_t r;
    registrar_create(&r);
    registrar_add(&r, "a", "1"); registrar_add(&r, "b", "2"); registrar_add(&r, "c", "3");
    registrar_del(&r, "c");
    registrar_add(&r, "d", "4");
    return !registrar_find(&r, "b") || !registrar_find(&r, "d");
}
''', srcs='["sample/reg_server/registrar.c"]', flags='["-Isample/reg_server"]', what="no client is lost")
