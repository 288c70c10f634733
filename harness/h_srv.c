/* Harness for the CoAP server: the real coap_server_run on a virtual network and clock. */
#include "common.h"
#include "vnet.h"
#include "jmsg.h"
#include "coap_server.h"
#include "coap_log.h"
#include "addr.h"
#include "app.h"
#ifdef COAP_DTLS_EN
#include "fgnutls.h"
long fg_now(void) { return vn_now / 1000; }
#define RECORDS fg_mode
#define FLIGHTS fg_flights
#ifdef COAP_CLIENT_AUTH
#define AUTH 1
#else
#define AUTH 0
#endif
#else
#define RECORDS 0
#define FLIGHTS 0
#define AUTH 0
#endif

#define NEP 64
static char **L; static int NL, at; static long nextt;
static coap_server_t server;
static int last_mid[NEP];
static int large_num = 16, large_len = 256, small_num = 512, medium_num = 512;

static void ep_addr(int ep, addr_t *s) { addr_mk(s, ep / 4, 5000 + ep % 4); }
static int addr_ep(const struct sockaddr *a)
{
    addr_t s; int i;
    for (i = 0; i < NEP; i++) { ep_addr(i, &s); if (memcmp(&s, a, sizeof s) == 0) return i; }
    return -1;
}
static int news;
void vn_on_wait(int a)
{
    (void)a;
#ifdef COAP_DTLS_EN
    static long last = -1;
    if (RECORDS && (news || fg_live[FG_SESS] != last)) { news = 0; last = fg_live[FG_SESS]; jopen("live"); jint("t", vn_now); jint("n", last); jint("misuse", fg_misuse); jclose(); }
#endif
    jopen("wait"); jint("t", vn_now); jclose();
}
void vn_on_send(int fd, const struct sockaddr *dst, const void *b, size_t n, int failed)
{
    const unsigned char *p = b; int ep = addr_ep(dst); const char *k = "tx"; (void)fd;
    if (RECORDS)
    {
        if (n > 1 && p[0] == 23) { p++; n--; b = p; } else k = n == 2 && p[0] == 21 ? "bye" : n == 2 && p[0] == 22 ? "hsr" : "odd";
    }
    if (k[0] == 't' && n >= 4 && ep >= 0 && ((p[0] >> 4 & 3) == 0 || (p[0] >> 4 & 3) == 1)) last_mid[ep] = p[2] << 8 | p[3];
    jopen(k); jint("t", vn_now); jint("ep", ep); jint("fail", failed); jbytes("d", b, n); jclose();
}
void vn_on_recv(int fd, const struct sockaddr *src, const void *b, size_t n)
{
    const unsigned char *p = b; const char *k = "rx"; (void)fd;
    news = 1;
    if (RECORDS)
    {
        if (p[0] == 23 && n > 1) { b = p + 1; n--; }
        else k = p[0] == 21 && n == 2 ? "alert" : p[0] == 20 ? "recerr" : p[0] == 22 && n == 3 ? "flight" : "junk";
    }
    jopen(k); jint("t", vn_now); jint("ep", addr_ep(src)); jbytes("d", b, n);
#ifdef COAP_DTLS_EN
    if (k[0] == 'f') fg_jcert(p[2] % FG_NCERTS);
#endif
    jclose();
}
void vn_on_stuck(int a, const char *w) { (void)a; (void)w; }

/* ---- script */
static void prep(void)
{
    /* absolute time of the next command: its first argument is the delay after the previous one */
    if (at < NL) { char tmp[64]; long dt; if (sscanf(L[at], "%63s %ld", tmp, &dt) == 2) nextt += dt; }
}
long vn_script_next(void) { return at < NL ? nextt : -1; }
void vn_script_fire(void)
{
    static char *tok[MAXTOK]; unsigned char *d; size_t n; addr_t s;
    char *line = strdup(L[at]);
    int k = split(line, tok, MAXTOK);
    int fd = vn_sock_by_port(5683);
    if (strcmp(tok[0], "rx") == 0 || strcmp(tok[0], "dg") == 0)
    {
        ep_addr(atoi(tok[2]), &s); d = unhexdup(tok[3], &n); 
        if (RECORDS && strcmp(tok[0], "rx") == 0) { unsigned char *w = malloc(n + 1); w[0] = 23; memcpy(w + 1, d, n); free(d); d = w; n++; }
        vn_inject(fd, (void *)&s, d, n); free(d);
    }
#ifdef COAP_DTLS_EN
    else if (strcmp(tok[0], "fgfail") == 0) fg_fail(atoi(tok[2]));
#endif
    else if (strcmp(tok[0], "ack") == 0)
    {
        int ep = atoi(tok[2]), type = atoi(tok[3]), off = k > 4 ? atoi(tok[4]) : 0; unsigned mid = (last_mid[ep] + off) & 0xffff;
        unsigned char m[4] = { 0x40 | type << 4, 0, mid >> 8, mid & 255 };
        unsigned char r[5] = { 23, m[0], m[1], m[2], m[3] };
        ep_addr(ep, &s); vn_inject(fd, (void *)&s, RECORDS ? r : m, 4 + RECORDS);
    }
    else if (strcmp(tok[0], "sendfail") == 0) vn_sendfail = atoi(tok[2]);
    else if (strcmp(tok[0], "recvfail") == 0) vn_recvfail = atoi(tok[2]);
    else if (strcmp(tok[0], "adv") == 0) ;
    else abort();
    free(line);
    at++; prep();
}
static int runret;
static void *agent(void *p)
{
    (void)p;
    runret = coap_server_run(&server);
    jopen("ret"); jint("t", vn_now); jint("halted", vn_halted()); jint("ret", runret); jclose();
    return NULL;
}
void run_scenario(char **lines, int n)
{
    int i = 0; static char *seps[16]; int ns = 0;
    for (; i < n; i++)
    {
        static char *tok[64]; char *l = strdup(lines[i]); int k = split(l, tok, 64); size_t len;
        if (k == 0) continue;
        if (strcmp(tok[0], "mem") == 0) { small_num = atoi(tok[1]); medium_num = atoi(tok[2]); large_num = atoi(tok[3]); large_len = atoi(tok[4]); }
        else if (strcmp(tok[0], "sep") == 0) seps[ns++] = strdup(tok[1]);
        else if (strcmp(tok[0], "rand") == 0) { for (int j = 1; j < k; j++) vn_rand_push(atoi(tok[j])); }
#ifdef COAP_DTLS_EN
        else if (strcmp(tok[0], "records") == 0) { fg_mode = 1; fg_flights = atoi(tok[1]); }
#endif
        else if (strcmp(tok[0], "seed") == 0) vn_rand_state = atoi(tok[1]);
        else if (strcmp(tok[0], "res") == 0)
        {
            app_res(tok, k);
        }
        else break;
        free(l); (void)len;
    }
    L = lines; NL = n; at = i; nextt = vn_now; prep();
    coap_log_set_level(getenv("VLOG") ? 7 : 0);
    if (coap_mem_all_create(small_num, 64, medium_num, 1280, large_num, large_len) < 0) abort();
#ifdef COAP_DTLS_EN
    if (coap_server_create(&server, handler, "0.0.0.0", "5683", "key", "cert", "trust", "crl") < 0) abort();
#else
    if (coap_server_create(&server, handler, "0.0.0.0", "5683") < 0) abort();
#endif
    fprintf(TR, "{\"scn\":%d,\"k\":\"cfg\",\"large\":%d,\"largelen\":%d,\"t\":%ld,\"auth\":%d,\"flights\":%d,\"seps\":[", SCN, large_num, large_len, vn_now, AUTH, FLIGHTS);
    for (i = 0; i < ns; i++)
    {
        if (coap_server_add_sep_resp_uri_path(&server, seps[i]) < 0) abort();
        fputs(i ? ",[" : "[", TR);
        for (size_t j = 0; j < strlen(seps[i]); j++) fprintf(TR, j ? ",%u" : "%u", (unsigned char)seps[i][j]);
        fputc(']', TR);
    }
    fputs("]", TR); jclose();
    vn_spawn(agent, NULL);
    vn_loop();
    coap_server_destroy(&server);
    jopen("fin"); jint("small", used_small()); jint("medium", used_medium()); jint("large", used_large()); 
#ifdef COAP_DTLS_EN
    jint("fds", vn_open_fds() + fg_misuse + fg_live[FG_GLOB] + fg_live[FG_CRED] + fg_live[FG_PRIO] + fg_live[FG_DH] + fg_live[FG_SESS] + fg_live[FG_CRT]);
#else
    jint("fds", vn_open_fds());
#endif
    jclose();
    coap_mem_all_destroy();
}
