/* Harness for a connection of the HTTP/CoAP proxy: the real connection, conversion and message
 * code between a scripted TLS socket and a scripted CoAP client.
 *   rec <hex>                a TLS record arrives from the HTTP client
 *   close | timeout | error  end of input
 *   mk <ret>                 result of the next attempt to create a CoAP client (default 0)
 *   ex <ret> <datagram>      result of the next exchange (default 0, 2.05 "d")
 *   bw <ret> <datagram> <body>   result of the next blockwise exchange (default 0, 2.04)
 *   wr <ret>                 result of the next write: 1 all, 0 closed, -1 error
 *   nomem <from> <to>        these heap allocations fail
 */
#include "common.h"
#include "heap.h"
#include "jmsg.h"
#include "connection.h"
#include "sock.h"
#include <sys/select.h>
typedef struct { int kind; char *a[4]; } item_t;
static item_t in[512], mk[64], ex[256], bw[256], wr[256];
static int nin, iin, nmk, imk, nex, iex, nbw, ibw, nwr, iwr;
static unsigned char *pend; static size_t pend_n, pend_o;
static item_t *next(item_t *q, int n, int *i) { return *i < n ? &q[(*i)++] : NULL; }
#define QUIET int on_ = heap_on; heap_on = 0
#define LOUD heap_on = on_
int __wrap_pthread_sigmask(int how, const void *a, void *b) { return 0; }
const char *sock_strerror(int e) { return "error"; }
size_t gnutls_record_check_pending(gnutls_session_t s) { return pend_n - pend_o; }
void tls_sock_get_addr_string_(char *out, size_t n, sock_in_addr_t a) { if (n) snprintf(out, n, "1.2.3.4"); }
int __wrap_select(int nf, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    if (iin < nin && in[iin].kind == 't') { iin++; QUIET; jopen("rto"); jint("pend", pend_n - pend_o); jclose(); LOUD; return 0; }
    if (iin == nin && pend_n > pend_o) { QUIET; jopen("rto"); jint("pend", pend_n - pend_o); jclose(); LOUD; return 0; }
    return 1;
}
ssize_t tls_sock_read(tls_sock_t *s, void *buf, size_t len)
{
    if (pend_o == pend_n)
    {
        item_t *it = next(in, nin, &iin);
        QUIET;
        if (!it || it->kind == 'c') { jopen("eof"); jclose(); LOUD; return 0; }
        if (it->kind == 't') { jopen("rto"); jint("pend", 0); jclose(); LOUD; return SOCK_TIMEOUT; }
        if (it->kind == 'e') { jopen("rerr"); jclose(); LOUD; return SOCK_READ_ERROR; }
        pend = unhexdup(it->a[0], &pend_n); heap_live--; pend_o = 0;
        LOUD;
    }
    size_t k = pend_n - pend_o < len ? pend_n - pend_o : len;
    memcpy(buf, pend + pend_o, k);
    QUIET; jopen("rx"); jbytes("d", pend + pend_o, k); jclose(); LOUD;
    pend_o += k;
    return k;
}
ssize_t tls_sock_write_full(tls_sock_t *s, void *buf, size_t len)
{
    item_t *it = next(wr, nwr, &iwr); int r = it ? atoi(it->a[0]) : 1;
    QUIET; jopen("tx"); jbytes("d", buf, len); jint("ret", r); jclose(); LOUD;
    return r == 1 ? (ssize_t)len : r == 0 ? 0 : SOCK_WRITE_ERROR;
}
ssize_t tls_sock_write(tls_sock_t *s, void *buf, size_t len) { return tls_sock_write_full(s, buf, len); }
void tls_sock_close(tls_sock_t *s) { QUIET; jopen("close"); jint("peer", s->sd); jclose(); LOUD; }
int coap_client_create(coap_client_t *c, const char *h, const char *p, const char *k, const char *ce, const char *t, const char *crl, const char *cn)
{
    item_t *it = next(mk, nmk, &imk); int r = it ? atoi(it->a[0]) : 0;
    QUIET; jopen("mk"); jstr("host", h); jstr("port", p); jstr("key", k); jstr("cert", ce); jstr("trust", t); jint("ret", r); jclose(); LOUD;
    memset(c, 0, sizeof(*c));
    if (r == 0) snprintf(c->server_host, sizeof(c->server_host), "%s", h);
    return r;
}
void coap_client_destroy(coap_client_t *c) { QUIET; jopen("rm"); jclose(); LOUD; memset(c, 0, sizeof(*c)); }
static void reply(coap_msg_t *resp, const char *hex)
{
    size_t n; unsigned char *d = unhexdup(hex, &n);
    coap_msg_reset(resp);
    if (coap_msg_parse(resp, (char *)d, n) < 0) abort();
    free(d);
}
int coap_client_exchange(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp)
{
    item_t *it = next(ex, nex, &iex); int r = it ? atoi(it->a[0]) : 0;
    QUIET;
    jopen("ex"); jmsg("m", req); jint("ret", r);
    if (r == 0) reply(resp, it ? it->a[1] : "60450001ff64");
    jmsg("r", resp); jclose(); LOUD;
    return r;
}
ssize_t coap_client_exchange_blockwise(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp, unsigned b1, unsigned b2, char *body, size_t len, int have)
{
    item_t *it = next(bw, nbw, &ibw); int r = it ? atoi(it->a[0]) : 0; size_t n = 0;
    QUIET;
    jopen("bw"); jmsg("m", req); jint("b1", b1); jint("b2", b2); jint("cap", len); jint("have", have != 0); jmsg("first", resp);
    jbytes("body", body, have ? 0 : len);
    if (r == 0)
    {
        unsigned char *d = unhexdup(it ? it->a[2] : "-", &n);
        reply(resp, it ? it->a[1] : "60440001");
        if (n > len) n = len;
        memcpy(body, d, n); free(d); r = n;
    }
    jint("ret", r); jmsg("r", resp); jbytes("out", body, n); jclose(); LOUD;
    return r;
}
void run_scenario(char **lines, int n)
{
    for (int i = 0; i < n; i++)
    {
        char *tok[8] = {0}; int k = split(lines[i], tok, 8);
        if (k == 0) continue;
        item_t it = {0, {tok[1], tok[2], tok[3], tok[4]}};
        if (!strcmp(tok[0], "rec")) { it.kind = 'r'; in[nin++] = it; }
        else if (!strcmp(tok[0], "close")) { it.kind = 'c'; in[nin++] = it; }
        else if (!strcmp(tok[0], "timeout")) { it.kind = 't'; in[nin++] = it; }
        else if (!strcmp(tok[0], "error")) { it.kind = 'e'; in[nin++] = it; }
        else if (!strcmp(tok[0], "mk")) mk[nmk++] = it;
        else if (!strcmp(tok[0], "ex")) ex[nex++] = it;
        else if (!strcmp(tok[0], "bw")) bw[nbw++] = it;
        else if (!strcmp(tok[0], "wr")) wr[nwr++] = it;
        else if (!strcmp(tok[0], "nomem")) { heap_fail_from = atol(tok[1]); heap_fail_to = atol(tok[2]); }
        else abort();
    }
    coap_log_set_level(0);
    coap_mem_all_create(128, 256, 128, 1024, 32, 8192);
    static param_t par = {"4430", 0, "hk", "hc", "ht", "ck", "cc", "ct"};
    long live = heap_live;
    tls_sock_t *s = calloc(1, sizeof(*s)); s->sd = 77;
    connection_init();
    heap_on = 1;
    connection_t *con = connection_new(s, 1, 2, &par);
    if (con) { connection_thread_func(con); heap_on = 0; jopen("fin"); jint("new", 1); }
    else { heap_on = 0; free(s); jopen("fin"); jint("new", 0); }
    jint("count", heap_count); jint("leak", heap_live > live); jint("pool", used_small() + used_medium() + used_large()); jclose();
    coap_mem_all_destroy();
}
