/* The proxy's listener over a scripted server socket and scripted threads. One command:
 *   run <index> <open ret> <attr fails> <listener thread fails> <nomem from> <nomem to> <stop after accepts> acc=<letters> new=<letters> thr=<letters>
 * acc: O accepted, T timeout, I interrupted, E error, H handshake failed;  new, thr: 1 works, 0 fails */
#include "common.h"
#include "heap.h"
#include "listener.h"
#include "connection.h"
#include "sock.h"
int go = 1;
static param_t prm = {"8443"};
static const char *acc = "", *nw = "", *thr = "";
static int stop, nacc, started, lfail, openret, attrfail, nattr;
typedef struct { tls_sock_t *s; connection_t *c; int id, handed; } ent;
static ent en[256]; static int nen;
static ent *bysock(const tls_sock_t *s) { for (int i = nen - 1; i >= 0; i--) if (en[i].s == s) return &en[i]; return NULL; }
static ent *bycon(const connection_t *c) { for (int i = nen - 1; i >= 0; i--) if (c && en[i].c == c) return &en[i]; return NULL; }
static int letter(const char **p, int d) { return **p ? *(*p)++ : d; }
static int quiet(void) { int o = heap_on; heap_on = 0; return o; }
#define Q int on_ = quiet()
#define U heap_on = on_
const char *sock_strerror(int e) { return "error"; }
int tls_ssock_open(tls_ssock_t *ss, tls_server_t *server, const char *port, int timeout, int backlog)
{ Q; memset(ss, 0, sizeof *ss); jopen("lopen"); jint("port", atoi(port)); jint("timeout", timeout); jint("ok", openret == 0); jclose(); U; return openret; }
void tls_ssock_close(tls_ssock_t *ss) { Q; if (go) { jopen("early"); jclose(); } jopen("lclose"); jclose(); U; }
int tls_ssock_accept(tls_ssock_t *ss, tls_sock_t *s)
{
    static const int codes[] = {['T'] = SOCK_TIMEOUT, ['I'] = SOCK_INTR, ['E'] = SOCK_ACCEPT_ERROR, ['H'] = SOCK_TLS_HANDSHAKE_ERROR};
    int c = letter(&acc, 'T'); Q;
    memset(s, 0, sizeof *s);
    if (c == 'O') { en[nen].s = s; en[nen].c = NULL; en[nen].handed = 0; en[nen].id = nen; nen++; }
    jopen("acc"); fprintf(TR, ",\"r\":\"%c\"", c); jint("s", c == 'O' ? nen - 1 : -1); jint("go", go); jclose();
    if (++nacc > 300) { jopen("spin"); jclose(); fflush(TR); _exit(0); }
    if (nacc >= stop) go = 0;
    U;
    return c == 'O' ? SOCK_OK : codes[c];
}
void tls_sock_close(tls_sock_t *s) { Q; ent *e = bysock(s); jopen("drop"); jint("s", e ? e->id : -1); jclose(); if (e) e->s = NULL; U; }
connection_t *connection_new(tls_sock_t *s, unsigned li, unsigned ci, param_t *param)
{
    int ok = letter(&nw, '1') == '1'; ent *e = bysock(s); connection_t *c = NULL;
    if (ok) { c = calloc(1, sizeof *c); ok = c != NULL; }
    Q; if (c) c->sock = s;
    if (e && c) e->c = c;
    jopen("new"); jint("s", e ? e->id : -1); jint("li", li); jint("ci", ci); jint("ok", ok); jint("param", param == &prm); jclose(); U;
    return c;
}
void connection_delete(connection_t *c) { ent *e = bycon(c); { Q; jopen("del"); jint("s", e ? e->id : -1); jclose(); U; } if (e) { tls_sock_t *s = e->s; e->c = NULL; e->s = NULL; free(s); free(c); } }
void *connection_thread_func(void *data) { return NULL; }
int __wrap_pthread_attr_init(pthread_attr_t *a) { if (attrfail == 1) return ENOMEM; nattr++; return 0; }
int __wrap_pthread_attr_setdetachstate(pthread_attr_t *a, int s) { return s == PTHREAD_CREATE_DETACHED ? 0 : 1; }
int __wrap_pthread_attr_destroy(pthread_attr_t *a) { nattr--; return 0; }
int __wrap_pthread_sigmask(int h, const void *a, void *b) { return 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *d)
{
    memset(t, 0, sizeof *t);
    if (!started) { started = 1; Q; jopen("lrun"); jint("ok", !lfail); jclose(); U; if (lfail) return EAGAIN; f(d); return 0; }
    int ok = letter(&thr, '1') == '1'; ent *e = bycon(d); Q;
    jopen("thr"); jint("s", e ? e->id : -1); jint("ok", ok); jint("fn", f == connection_thread_func); jclose();
    if (e && ok) e->handed = 1;
    U; return ok ? 0 : EAGAIN;
}
void run_scenario(char **L, int n)
{
    char *t[32]; int k = split(L[0], t, 32), ret = -1; listener_t *l;
    coap_log_set_level(0);
    openret = atoi(t[2]); attrfail = atoi(t[3]); lfail = atoi(t[4]); heap_fail_from = atoi(t[5]); heap_fail_to = atoi(t[6]); stop = atoi(t[7]);
    for (int i = 8; i < k; i++) { if (!strncmp(t[i], "acc=", 4)) acc = t[i] + 4; if (!strncmp(t[i], "new=", 4)) nw = t[i] + 4; if (!strncmp(t[i], "thr=", 4)) thr = t[i] + 4; }
    if (stop == 0) go = 0;
    heap_live = 0; heap_on = 1; heap_count = 0;
    jopen("begin"); jint("index", atoi(t[1])); jint("stop", stop); jint("nomem", heap_fail_from < heap_fail_to); jint("fault", openret != 0 || attrfail != 0); jclose();
    l = listener_new(atoi(t[1]), NULL, &prm, 7, 5);
    heap_on = 0; jopen("made"); jint("ok", l != NULL); jclose(); heap_on = 1;
    if (l) { ret = listener_run(l); if (ret < 0) listener_delete(l); }
    heap_on = 0;
    for (int i = 0; i < nen; i++) if (en[i].handed && en[i].c) { free(en[i].s); free(en[i].c); }
    jopen("fin"); jint("ret", ret); jint("live", heap_live); jint("attr", nattr); jclose();
}
