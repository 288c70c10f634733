/* Harness for the whole system: real clients and the real server in one process, connected by a
 * virtual network that loses, duplicates and delays datagrams as the scenario says.
 *
 *   seed <n> / mem <small> <medium> <large> <largelen> / sep <path> / res ...      as for h_srv
 *   tame <0|1>                    whether the network respects the limits of the end-to-end guarantees
 *   net <d> <d> ...               fate of the datagrams, in the order they are sent: '-' lost, '40' delivered
 *                                 after 40 ms, '40+500' delivered after 40 and again after 500 ms
 *   ledger                        record every allocation, release, opened and closed descriptor
 *   memfail <k> ...               the k-th pool allocations fail (counted from 1)
 *   sysfail <k>                   the k-th system call that sets up sockets and timers fails
 *   <client> x ... / <client> bw ...                                               as for h_cli
 */
#include "common.h"
#include "vnet.h"
#include "jmsg.h"
#include "coap_client.h"
#include "coap_server.h"
#include "coap_log.h"
#include "addr.h"
#include <sys/select.h>

static int app_ep;
#define APP_EXTRA() do { jint("w", 0); jint("ep", app_ep); } while (0)
#include "app.h"

#define NC 4
static coap_server_t server;
static coap_client_t cl[NC + 1];
static int port[NC + 1], used[NC + 1];
static char **L; static int NL;
static char *fate[20000]; static int nf, fi;
typedef struct { long t; int seq, to; int from; unsigned char *d; size_t n; } pend_t;
static pend_t Q[20000]; static int NQ, seqno;

static int who(void) { return vn_agent() - 1; }

/* the ledger: pools and descriptors */
static __thread int building;      /* the harness itself is building a message */
static int ledger, memfail[32], nmf, allocs;
static int led_alloc(int pool, void *p, char *base, size_t len)
{
    if (!ledger) return 0;
    jopen("al"); jint("w", who()); jint("pool", pool); jint("id", p ? ((char *)p - base) / (long)len : -1); jclose();
    return 0;
}
static int memfault(int pool)
{
    if (building) return 0;
    allocs++;
    for (int i = 0; i < nmf; i++)
        if (memfail[i] == allocs) { jopen("fault"); jint("w", who()); jint("pool", pool); jclose(); return 1; }
    return 0;
}
static void led_free(int pool, void *p, char *base, size_t len)
{
    if (!ledger) return;
    jopen("fr"); jint("w", who()); jint("pool", pool); jint("id", p ? ((char *)p - base) / (long)len : -1); jclose();
}
#define POOL(name, n) \
void *__real_coap_mem_##name##_alloc(size_t len); void __real_coap_mem_##name##_free(void *p); \
void *__wrap_coap_mem_##name##_alloc(size_t len) \
{ if (memfault(n)) return NULL; void *p = __real_coap_mem_##name##_alloc(len); led_alloc(n, p, coap_mem_##name##_get_buf(), coap_mem_##name##_get_len()); return p; } \
void __wrap_coap_mem_##name##_free(void *p) \
{ led_free(n, p, coap_mem_##name##_get_buf(), coap_mem_##name##_get_len()); __real_coap_mem_##name##_free(p); }
POOL(small, 0)
POOL(medium, 1)
POOL(large, 2)
void vn_on_fd(int what, int fd)
{
    if (what == 2) { jopen("fault"); jint("w", who()); jint("pool", -1); jclose(); }
    else if (ledger) { jopen(what ? "open" : "close"); jint("w", who()); jint("fd", fd); jclose(); }
}
static int client_of(int p) { for (int i = 1; i <= NC; i++) if (used[i] && port[i] == p) return i; return 0; }
static void addr(int p, addr_t *s) { addr_lo(s, p); }
static void enqueue(long t, int from, int to, const void *b, size_t n)
{
    pend_t *q = &Q[NQ++]; q->t = t; q->seq = seqno++; q->from = from; q->to = to; q->n = n; q->d = malloc(n + 1); memcpy(q->d, b, n);
}
void vn_on_wait(int a) { jopen("wait"); jint("w", a - 1); jint("t", vn_now); jclose(); }
void vn_on_send(int fd, const struct sockaddr *dst, const void *b, size_t n, int failed)
{
    int w = who(), to = addr_port(dst), from = w == 0 ? 5683 : vn_port(fd);
    if (w > 0) port[w] = from;
    int ep = w == 0 ? client_of(to) : w;
    jopen("tx"); jint("w", w); jint("t", vn_now); jint("ep", ep); jint("peer", to == 5683); jint("fail", failed); jbytes("d", b, n); jclose();
    char *f = fi < nf ? fate[fi++] : "10";
    if (f[0] == '-') { jopen("drop"); jint("w", -1); jint("ep", ep); jint("t", vn_now); jclose(); return; }
    enqueue(vn_now + atol(f), from, to, b, n);
    char *p = strchr(f, '+'); if (p) enqueue(vn_now + atol(p + 1), from, to, b, n);
}
void vn_on_recv(int fd, const struct sockaddr *src, const void *b, size_t n)
{
    int w = who(), ep = w == 0 ? client_of(addr_port(src)) : w; (void)fd;
    if (w == 0) app_ep = ep;
    jopen("rx"); jint("w", w); jint("t", vn_now); jint("ep", ep); jbytes("d", b, n); jclose();
}
void vn_on_stuck(int a, const char *w) { (void)a; (void)w; }
static int soonest(void)
{
    int best = -1;
    for (int i = 0; i < NQ; i++) if (best < 0 || Q[i].t < Q[best].t || (Q[i].t == Q[best].t && Q[i].seq < Q[best].seq)) best = i;
    return best;
}
long vn_script_next(void) { int i = soonest(); return i < 0 ? -1 : Q[i].t; }
void vn_script_fire(void)
{
    int i = soonest(), fd = vn_sock_by_port(Q[i].to); addr_t s;
    addr(Q[i].from, &s); if (fd >= 0) vn_inject(fd, (void *)&s, Q[i].d, Q[i].n);
    free(Q[i].d); Q[i] = Q[--NQ];
}
static void add_ops(coap_msg_t *m, char *spec)
{
    char *o = strdup(spec), *s, *sv; size_t k;
    if (o[0] != '-')
        for (s = strtok_r(o, ",", &sv); s; s = strtok_r(NULL, ",", &sv))
        { char *c = strchr(s, ':'); unsigned char *v = unhexdup(c[1] ? c + 1 : "-", &k); coap_msg_add_op(m, atoi(s), k, (char *)v); free(v); }
    free(o);
}
static void vsleep(long ms) { struct timeval tv = { ms / 1000, ms % 1000 * 1000 }; if (ms > 0) select(0, NULL, NULL, NULL, &tv); }
static void *srv_agent(void *p)
{
    (void)p; int r = coap_server_run(&server);
    jopen("ret"); jint("w", 0); jint("t", vn_now); jint("halted", vn_halted()); jint("ret", r); jclose();
    return NULL;
}
static void *cli_agent(void *arg)
{
    int me = (int)(long)arg;
    for (int i = 0; i < NL; i++)
    {
        char *tok[64]; char *l = strdup(L[i]); int k = split(l, tok, 64); size_t n; unsigned char *p;
        if (k < 2 || atoi(tok[0]) != me || (strcmp(tok[1], "x") && strcmp(tok[1], "bw"))) { free(l); continue; }
        coap_msg_t req, resp; char **t = tok + 1;
        vsleep(atol(t[1]));
        building = 1;
        coap_msg_create(&req); coap_msg_create(&resp);
        coap_msg_set_type(&req, atoi(t[2]));
        if (strcmp(t[0], "x") == 0)
        {
            coap_msg_set_code(&req, atoi(t[3]), atoi(t[4])); add_ops(&req, t[5]);
            p = unhexdup(t[6], &n); if (n) coap_msg_set_payload(&req, (char *)p, n); free(p);
            jopen("call"); jint("w", me); jint("t", vn_now); jint("bw", 0); jmsg("req", &req); jint("b1", 0); jint("b2", 0); jbytes("body", NULL, 0); jclose();
            building = 0;
            int ret = coap_client_exchange(&cl[me], &req, &resp);
            jopen("ret"); jint("w", me); jint("t", vn_now); jint("halted", vn_halted()); jint("ret", ret); jmsg("resp", &resp); jbytes("body", NULL, 0); jclose();
        }
        else
        {
            coap_msg_set_code(&req, 0, atoi(t[3])); add_ops(&req, t[4]);
            unsigned b1 = atoi(t[5]), b2 = atoi(t[6]); size_t cap = atoi(t[7]);
            p = unhexdup(t[8], &n);
            size_t len = atoi(t[3]) == 1 ? cap : n;
            char *body = malloc(len); memset(body, 0xEE, len); memcpy(body, p, n < len ? n : len); free(p);
            jopen("call"); jint("w", me); jint("t", vn_now); jint("bw", 1); jmsg("req", &req); jint("b1", b1); jint("b2", b2); jbytes("body", body, len); jclose();
            building = 0;
            ssize_t ret = coap_client_exchange_blockwise(&cl[me], &req, &resp, b1, b2, body, len, 0);
            jopen("ret"); jint("w", me); jint("t", vn_now); jint("halted", vn_halted()); jint("ret", ret); jmsg("resp", &resp); jbytes("body", body, len); jclose();
            free(body);
        }
        coap_msg_destroy(&req); coap_msg_destroy(&resp);
        jopen("idle"); jint("w", me); jclose();
        free(l);
    }
    return NULL;
}
void run_scenario(char **lines, int n)
{
    int small = 512, medium = 512, large = 16, largelen = 256, tame = 1, ns = 0; static char *seps[16];
    L = lines; NL = n;
    for (int i = 0; i < n; i++)
    {
        static char *tok[MAXTOK]; char *l = strdup(lines[i]); int k = split(l, tok, MAXTOK);
        if (k == 0) continue;
        if (strcmp(tok[0], "mem") == 0) { small = atoi(tok[1]); medium = atoi(tok[2]); large = atoi(tok[3]); largelen = atoi(tok[4]); }
        else if (strcmp(tok[0], "seed") == 0) vn_rand_state = atoi(tok[1]);
        else if (strcmp(tok[0], "tame") == 0) tame = atoi(tok[1]);
        else if (strcmp(tok[0], "sep") == 0) seps[ns++] = strdup(tok[1]);
        else if (strcmp(tok[0], "ledger") == 0) ledger = 1;
        else if (strcmp(tok[0], "memfail") == 0) { for (int j = 1; j < k; j++) memfail[nmf++] = atoi(tok[j]); }
        else if (strcmp(tok[0], "sysfail") == 0) vn_sysfail = atoi(tok[1]);
        else if (strcmp(tok[0], "net") == 0) { for (int j = 1; j < k; j++) fate[nf++] = strdup(tok[j]); }
        else if (strcmp(tok[0], "res") == 0) app_res(tok, k);
        else if (tok[0][0] >= '1' && tok[0][0] <= '0' + NC) used[atoi(tok[0])] = 1;
        else abort();
        free(l);
    }
    coap_log_set_level(getenv("VLOG") ? 7 : 0);
    if (coap_mem_all_create(small, 64, medium, 1280, large, largelen) < 0) abort();
    int srv = coap_server_create(&server, handler, "0.0.0.0", "5683") == 0, up = srv;
    if (!srv) { jopen("nocreate"); jint("w", 0); jclose(); }
    fprintf(TR, "{\"scn\":%d,\"k\":\"cfg\",\"w\":0,\"tame\":%d,\"large\":%d,\"largelen\":%d,\"t\":%ld,\"seps\":[", SCN, tame, large, largelen, vn_now);
    for (int i = 0; i < ns; i++)
    {
        fputs(i ? ",[" : "[", TR);
        for (size_t j = 0; j < strlen(seps[i]); j++) fprintf(TR, j ? ",%u" : "%u", (unsigned char)seps[i][j]);
        fputc(']', TR);
    }
    fputs("]", TR); jclose();
    for (int i = 0; up && i < ns; i++)
        if (coap_server_add_sep_resp_uri_path(&server, seps[i]) < 0) { jopen("nocreate"); jint("w", 0); jclose(); up = 0; }
    int nc = 0;
    for (int i = 1; up && i <= NC; i++)
    {
        if (i == 1) used[1] = 1;
        if (!used[i]) break;
        if (coap_client_create(&cl[i], "127.0.0.1", "5683") < 0) { jopen("nocreate"); jint("w", i); jclose(); up = 0; } else nc = i;
    }
    if (up)
    {
        vn_spawn(srv_agent, NULL);
        for (int i = 1; i <= nc; i++) vn_spawn(cli_agent, (void *)(long)i);
        vn_loop();
    }
    if (srv) coap_server_destroy(&server);
    for (int i = 1; i <= nc; i++) coap_client_destroy(&cl[i]);
    ledger = 0; nmf = 0;
    jopen("fin"); jint("w", -1); jint("small", used_small()); jint("medium", used_medium()); jint("large", used_large()); jint("fds", vn_open_fds()); jclose();
    coap_mem_all_destroy();
}
