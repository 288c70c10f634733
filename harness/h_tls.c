/* The proxy's TLS sockets over a scripted peer, network and clock.
 *   tlsinit <fail> | client <fail> <trust> <cert> <key> | server <fail> <trust> <cert> <key>       create and destroy
 *   up                                                     initialise, with one client and one server
 *   listen <timeout> <sysfail> | unlisten
 *   open <slot> <host> <naddr> <name> <timeout> <cert> <fail> <sysfail> <kid> [script ...]
 *   accept <slot> <cert> <fail> <sysfail> <kid> [script ...]
 *   read|readf|write|writef <slot> <n> [script ...]      rehs <slot> <alert> <fail> [script ...]      close <slot> <data size> <tag> [script ...]
 *   cset <addr> <size> <tag> | cget <addr> | sset <key> <keylen> <size> <tag> | sget <key> <keylen> | sdel <key> <keylen> | race <n>
 * scripts: hs=<letters> rx=<letters> tx=<letters> bye=<letters> acc=<letters> sel=<letters> con=<letters> */
#include "common.h"
#include "fgnutls.h"
#include "tls_sock.h"
#include "coap_log.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <fcntl.h>
#include <stdarg.h>
#include <pthread.h>
#include <time.h>
#include <sys/select.h>
#include <poll.h>
enum { HS, RX, TX, BYE, ACC, SEL, CON, NS };
static const char *SN[NS] = {"hs=", "rx=", "tx=", "bye=", "acc=", "sel=", "con="};
static const char DEF[NS] = {'S', 'z', 'z', 'S', 'C', 'R', 'S'};
static const char *script[NS];
static char ev[1 << 20]; static size_t nev;
static long now_ms = 1000000;
static int misuse, sysn, sysfailat, waiting, naddr, kid = -1, dsize, dtag;
static unsigned long rp, nai;
static struct { int open, nb; } fdt[64];
static struct { const void *p; size_t n; } again;
long fg_now(void) { return now_ms / 1000; }
static void E(const char *o, const char *f, ...)
{
    va_list a; size_t n = nev;
    if (nev > sizeof ev - 20000) return;
    nev += sprintf(ev + nev, "%s{\"o\":\"%s\"", n ? "," : "", o);
    va_start(a, f); nev += vsprintf(ev + nev, f, a); va_end(a);
    nev += sprintf(ev + nev, "}");
}
static int letter(int k) { return script[k] && *script[k] ? *script[k]++ : DEF[k]; }
static int num(int k) { int n = 0; while (script[k] && *script[k] >= '0' && *script[k] <= '9') n = n * 10 + *script[k]++ - '0'; return n; }
void fg_on_fail(void) { E("fail", ""); }
static int sysno(int e) { if (++sysn != sysfailat) return 0; E("fail", ""); errno = e; return 1; }
/* ---- descriptors */
static int mkfd(void) { for (int i = 10; i < 64; i++) if (!fdt[i].open) { fdt[i].open = 1; fdt[i].nb = 0; return i; } errno = EMFILE; return -1; }
static int isfd(int fd) { if (fd >= 10 && fd < 64 && fdt[fd].open) return 1; misuse++; errno = EBADF; return 0; }
static int nfds(void) { int n = 0; for (int i = 0; i < 64; i++) n += fdt[i].open; return n; }
int __wrap_socket(int d, int t, int p) { if (sysno(EMFILE)) return -1; int fd = mkfd(); if (t & SOCK_NONBLOCK) fdt[fd].nb = 1; return fd; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { if (!isfd(fd)) return -1; return sysno(ENOPROTOOPT) ? -1 : 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n)
{
    if (!isfd(fd)) return -1;
    if (sysno(EADDRINUSE)) return -1;
    E("bind", ",\"port\":%d", ntohs(((const struct sockaddr_in *)a)->sin_port)); return 0;
}
int __wrap_listen(int fd, int n) { if (!isfd(fd)) return -1; return sysno(EADDRINUSE) ? -1 : 0; }
int __wrap_fcntl(int fd, int c, ...)
{
    va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a);
    if (!isfd(fd)) return -1;
    if (sysno(EIO)) return -1;
    if (c == F_SETFL) { fdt[fd].nb = !!(v & O_NONBLOCK); return 0; }
    return c == F_GETFL ? O_RDWR | (fdt[fd].nb ? O_NONBLOCK : 0) : 0;
}
int __wrap_close(int fd) { if (!isfd(fd)) return -1; fdt[fd].open = 0; return 0; }
int __wrap_shutdown(int fd, int h) { return isfd(fd) ? 0 : -1; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n)
{
    int c;
    if (!isfd(fd)) return -1;
    c = letter(CON);
    E("con", ",\"r\":\"%c\",\"a\":\"%s\"", c, inet_ntoa(((const struct sockaddr_in *)a)->sin_addr));
    if (c == 'S') return 0;
    errno = ECONNREFUSED; return -1;
}
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **out)
{
    struct addrinfo *first = NULL, **t = &first; struct in_addr base; inet_aton(h, &base);
    if (naddr == 0) { *out = NULL; return EAI_NONAME; }
    for (int i = 0; i < naddr; i++)
    {
        struct addrinfo *n = calloc(1, sizeof *n); struct sockaddr_in *a = calloc(1, sizeof *a);
        a->sin_family = AF_INET; a->sin_port = htons(atoi(s)); a->sin_addr.s_addr = htonl(ntohl(base.s_addr) + i);
        n->ai_family = AF_INET; n->ai_socktype = SOCK_STREAM; n->ai_addr = (void *)a; n->ai_addrlen = sizeof *a;
        *t = n; t = &n->ai_next; nai++;
    }
    *out = first; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *l) { while (l) { struct addrinfo *n = l->ai_next; free(l->ai_addr); free(l); nai--; l = n; } }
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n)
{
    int c, f; struct sockaddr_in p = {0};
    if (!isfd(fd)) return -1;
    if (!fdt[fd].nb) misuse++;
    c = letter(ACC); E("acc", ",\"r\":\"%c\"", c); waiting = 1;
    if (c == 'A') { errno = EAGAIN; return -1; }
    if (c == 'I') { errno = EINTR; return -1; }
    if (c != 'C') { errno = ENFILE; return -1; }
    f = mkfd(); p.sin_family = AF_INET; p.sin_port = htons(4000); inet_aton("10.9.8.7", &p.sin_addr);
    if (a && n) { if (*n < sizeof p) misuse++; else memcpy(a, &p, sizeof p); *n = sizeof p; }
    return f;
}
static int wait_(int rd, int wr, long ms)           /* ms < 0: for ever */
{
    int c = letter(SEL);
    if ((waiting & 1 && !(waiting & 2) && !rd) || (waiting & 2 && !(waiting & 1) && !wr) || !(rd || wr)) misuse++;
    if (c == 'R' && ms >= 0 && ms < 300) c = 'T';
    E("sel", ",\"r\":\"%c\",\"ms\":%ld", c, ms);
    switch (c)
    {
    case 'R': now_ms += 300; return 1;
    case 'T': now_ms += ms < 0 ? 100000000 : ms; return 0;
    case 'I': now_ms += ms >= 0 && ms < 100 ? ms : 100; errno = EINTR; return -1;
    default: errno = ENOMEM; return -1;
    }
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int rd = 0, wr = 0, ret; long ms = tv ? tv->tv_sec * 1000 + tv->tv_usec / 1000 : -1, t0 = now_ms;
    for (int i = 0; i < 64; i++)
    {
        int a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w), c = e && FD_ISSET(i, e);
        if ((a || b || c) && (i >= n || !isfd(i))) misuse++;
        else { rd |= a; wr |= b; }
    }
    ret = wait_(rd, wr, ms);
    if (tv && ret >= 0) { ms -= now_ms - t0; tv->tv_sec = ms / 1000; tv->tv_usec = ms % 1000 * 1000; }
    if (ret == 0) { if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); }
    if (ret > 0 && e) FD_ZERO(e);
    return ret;
}
int __wrap_poll(struct pollfd *f, nfds_t n, int ms)
{
    int rd = 0, wr = 0, ret;
    for (nfds_t i = 0; i < n; i++) { if (!isfd(f[i].fd)) continue; rd |= !!(f[i].events & POLLIN); wr |= !!(f[i].events & POLLOUT); }
    ret = wait_(rd, wr, ms);
    for (nfds_t i = 0; i < n; i++) f[i].revents = ret > 0 ? f[i].events : 0;
    return ret;
}
unsigned __wrap_sleep(unsigned s) { now_ms += s * 1000L; return 0; }
int __wrap_usleep(useconds_t u) { now_ms += u / 1000; return 0; }
time_t __wrap_time(time_t *t) { time_t x = now_ms / 1000; if (t) *t = x; return x; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = now_ms / 1000; t->tv_nsec = now_ms % 1000 * 1000000L; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { t->tv_sec = now_ms / 1000; t->tv_usec = now_ms % 1000 * 1000L; return 0; }
/* ---- the peer */
static int sess(void *ptr) { int fd = (int)(long)ptr; if (!isfd(fd)) return 0; if (!fdt[fd].nb) misuse++; return 1; }
int fg_stream_hs(void *ptr)
{
    int c; if (!sess(ptr)) return GNUTLS_E_PULL_ERROR;
    c = letter(HS); E("hs", ",\"r\":\"%c\"", c); waiting = 3;
    switch (c) { case 'S': return 0; case 'A': return GNUTLS_E_AGAIN; case 'W': return GNUTLS_E_WARNING_ALERT_RECEIVED; case 'I': return GNUTLS_E_INTERRUPTED;
    case 'F': return GNUTLS_E_FATAL_ALERT_RECEIVED; default: return GNUTLS_E_PREMATURE_TERMINATION; }
}
ssize_t fg_stream_recv(void *ptr, void *b, size_t n)
{
    int c; size_t k;
    if (!sess(ptr)) return GNUTLS_E_PULL_ERROR;
    c = letter(RX); waiting = 1;
    if (c == 'D' || c == 'z')
    {
        k = c == 'D' ? (size_t)num(RX) : n; if (k > n) k = n;
        for (size_t i = 0; i < k; i++) ((unsigned char *)b)[i] = (rp + i) % 251;
        rp += k; E("rx", ",\"r\":\"D\",\"n\":%zu", k); return k;
    }
    E("rx", ",\"r\":\"%c\",\"n\":0", c);
    switch (c) { case '0': return 0; case 'A': return GNUTLS_E_AGAIN; case 'H': return GNUTLS_E_REHANDSHAKE; case 'I': return GNUTLS_E_INTERRUPTED; default: return GNUTLS_E_DECRYPTION_FAILED; }
}
ssize_t fg_stream_send(void *ptr, const void *b, size_t n)
{
    int c; size_t k = 0;
    if (!sess(ptr)) return GNUTLS_E_PUSH_ERROR;
    if (again.p) { if (b == NULL && n == 0) { b = again.p; n = again.n; } else if (b != again.p || n != again.n) misuse++; }
    again.p = NULL;
    c = letter(TX); waiting = 2;
    if (c == 'D' || c == 'z') { k = c == 'D' ? (size_t)num(TX) : n; if (k > n) k = n; c = 'D'; }
    E("tx", ",\"r\":\"%c\",\"n\":%zu,\"b\":[", c, k); nev--;
    for (size_t i = 0; i < k; i++) nev += sprintf(ev + nev, "%s%d", i ? "," : "", ((const unsigned char *)b)[i]);
    nev += sprintf(ev + nev, "]}");
    switch (c)
    {
    case 'D': return k;
    case '0': return 0;
    case 'A': again.p = b; again.n = n; return GNUTLS_E_AGAIN;
    case 'I': again.p = b; again.n = n; return GNUTLS_E_INTERRUPTED;
    default: return GNUTLS_E_PUSH_ERROR;
    }
}
int fg_stream_bye(void *ptr)
{
    int c; if (!sess(ptr)) return GNUTLS_E_PUSH_ERROR;
    c = letter(BYE); E("bye", ",\"r\":\"%c\"", c); waiting = 3;
    switch (c) { case 'S': return 0; case 'A': return GNUTLS_E_AGAIN; case 'I': return GNUTLS_E_INTERRUPTED; default: return GNUTLS_E_PREMATURE_TERMINATION; }
}
static void fill(unsigned char *b, size_t n, int tag) { for (size_t i = 0; i < n; i++) b[i] = i == 0 ? tag & 255 : i == 1 ? tag >> 8 : (tag + i) & 255; }
static int tagof(const unsigned char *b, size_t n)
{
    unsigned char w[8192]; int t;
    if (!b || n < 2 || n > sizeof w) return -1;
    t = b[0] | b[1] << 8; fill(w, n, t);
    return memcmp(w, b, n) ? -1 : t;
}
int fg_stream_data(gnutls_datum_t *d)
{
    if (dsize < 0) return GNUTLS_E_INTERNAL_ERROR;
    d->size = dsize; d->data = gnutls_malloc(dsize); fill(d->data, dsize, dtag);
    return 0;
}
void fg_stream_resume(const void *b, size_t n) { E("res", ",\"n\":%zu,\"tag\":%d", n, tagof(b, n)); }
static unsigned char kb[64], db[8192];
static gnutls_datum_t mkkey(int k, int len) { gnutls_datum_t d = {kb, len}; for (int i = 0; i < len && i < 64; i++) kb[i] = i == 0 ? k & 255 : i == 1 ? k >> 8 : 7; return d; }
static gnutls_datum_t mkdata(int n, int tag) { gnutls_datum_t d = {db, n}; fill(db, n, tag); return d; }
int fg_stream_key(gnutls_datum_t *key, gnutls_datum_t *data) { if (kid < 0) return 0; *key = mkkey(kid, 32); *data = mkdata(100, kid + 1000); return 1; }
void fg_stream_db(int get, gnutls_datum_t *d, int ret) { E(get ? "retr" : "store", ",\"n\":%u,\"tag\":%d,\"ret\":%d", d->data ? d->size : 0, d->data ? tagof(d->data, d->size) : -1, ret); }
/* ---- */
static void counts(void)
{
    fprintf(TR, ",\"live\":[%ld,%ld,%ld,%ld],\"sess\":%ld,\"crts\":%ld,\"bufs\":%d,\"ai\":%lu,\"fds\":%d,\"misuse\":%d", fg_live[0], fg_live[1], fg_live[2], fg_live[3], fg_live[4], fg_live[5],
            fg_bufs(), nai, nfds(), misuse + fg_misuse);
}
static void scripts(char **t, int n)
{
    memset(script, 0, sizeof script);
    for (int i = 0; i < n; i++) for (int k = 0; k < NS; k++) if (!strncmp(t[i], SN[k], strlen(SN[k]))) script[k] = t[i] + strlen(SN[k]);
}
static void jev(void) { fprintf(TR, ",\"ev\":[%s]", ev); }
static char loaded[4096];
void fg_on_load(const char *kind, const char *f) { sprintf(loaded + strlen(loaded), "%s{\"k\":\"%s\",\"f\":\"%s\"}", loaded[0] ? "," : "", kind, f); }
static const char *arg(const char *s) { return *s == '-' ? NULL : s; }
static tls_client_t cl; static tls_server_t sv; static tls_sock_t so[4]; static tls_ssock_t ss; static int isup;
static volatile int torn, done;
static void *racer(void *p)
{
    long id = (long)p; unsigned char k[32], d[2048]; gnutls_datum_t key = {k, 32}, data = {d, 2048}, r;
    memset(k, 77, 32); memset(d, 1 + (int)id, 2048);
    for (int i = 0; i < done; i++)
    {
        tls_server_set(&sv, key, data);
        r = tls_server_get(&sv, key);
        if (r.data) { for (unsigned j = 1; j < r.size; j++) if (r.data[j] != r.data[0]) torn = 1; free(r.data); }
        else torn = 2;
    }
    return NULL;
}
static void *plain(size_t n) { return malloc(n ? n : 1); }
void run_scenario(char **L, int n)
{
    char *tok[32];
    coap_log_set_level(getenv("VLOG") ? 7 : 0);
    for (int i = 0; i < n; i++)
    {
        char *l = strdup(L[i]); int k = split(l, tok, 32); long t0 = now_ms; char *o = tok[0];
        nev = 0; ev[0] = 0; misuse = 0; fg_misuse = 0; sysfailat = 0; fg_failat = 0; fg_failed = 0; loaded[0] = 0; kid = -1; again.p = NULL; memset(script, 0, sizeof script);
#define FAIL(x) do { if (atoi(x)) fg_fail(atoi(x)); } while (0)
#define SYSF(x) do { sysfailat = atoi(x) ? sysn + atoi(x) : 0; } while (0)
        if (!strcmp(o, "up"))
        {
            if (tls_init() || tls_client_create(&cl, "t", "c", "k") || tls_server_create(&sv, "t", "c", "k")) abort();
            isup = 1;
            jopen("up");
#ifdef TLS_CLIENT_AUTH
            jint("auth", 1);
#else
            jint("auth", 0);
#endif
        }
        else if (!strcmp(o, "tlsinit"))
        {
            FAIL(tok[1]); int ret = tls_init(); fg_failat = 0;
            jopen("make"); jstr("what", "init"); jint("ret", ret); fputs(",\"want\":[]", TR); fprintf(TR, ",\"loaded\":[%s]", loaded); jev(); counts(); jclose();
            tls_deinit();
            jopen("gone");
        }
        else if (!strcmp(o, "client") || !strcmp(o, "server"))
        {
            int c = o[0] == 'c', ret; static tls_client_t x; static tls_server_t y; int auth = 0;
            if (tls_init()) abort();
            jopen("base"); counts(); jclose();
            FAIL(tok[1]);
            ret = c ? tls_client_create(&x, arg(tok[2]), arg(tok[3]), arg(tok[4])) : tls_server_create(&y, arg(tok[2]), arg(tok[3]), arg(tok[4]));
            fg_failat = 0;
#ifdef TLS_CLIENT_AUTH
            auth = 1;
#endif
            int t = c ? 1 : auth && arg(tok[2]), kk = c ? auth && arg(tok[3]) && arg(tok[4]) : 1;
            jopen("make"); jint("ret", ret); fputs(",\"want\":[", TR);
            if (t) fprintf(TR, "{\"k\":\"trust\",\"f\":\"%s\"}%s", tok[2], kk ? "," : "");
            if (kk) fprintf(TR, "{\"k\":\"cert\",\"f\":\"%s\"},{\"k\":\"key\",\"f\":\"%s\"}", tok[3], tok[4]);
            fprintf(TR, "],\"loaded\":[%s]", loaded); jev(); counts(); jclose();
            if (ret == 0) { if (c) tls_client_destroy(&x); else tls_server_destroy(&y); }
            jopen("gone"); counts(); jclose();
            tls_deinit();
            jopen("off");
        }
        else if (!strcmp(o, "listen")) { SYSF(tok[2]); int ret = tls_ssock_open(&ss, &sv, "8443", atoi(tok[1]), 5); jopen("listen"); jint("timeout", atoi(tok[1])); jint("ret", ret); jev(); }
        else if (!strcmp(o, "unlisten")) { tls_ssock_close(&ss); jopen("unlisten"); jev(); }
        else if (!strcmp(o, "open") || !strcmp(o, "accept"))
        {
            int a = o[0] == 'a', ret, q = atoi(tok[1]); const char *name = NULL; char **r;
            if (!a) { naddr = atoi(tok[3]); name = arg(tok[4]); r = tok + 6; } else r = tok + 2;
            fg_cert = atoi(r[0]); scripts(tok, k);
            FAIL(r[1]); SYSF(r[2]); kid = atoi(r[3]);
            ret = a ? tls_ssock_accept(&ss, &so[q]) : tls_sock_open(&so[q], &cl, tok[2], "443", name, atoi(tok[5]));
            fg_failat = 0; sysfailat = 0;
            jopen(o); jint("q", q); jint("ret", ret); jev(); fg_jcert(fg_cert); jint("kid", kid);
            if (!a) { fprintf(TR, ",\"host\":\"%s\"", tok[2]); jint("naddr", naddr); jint("timeout", atoi(tok[5])); }
            if (name) fprintf(TR, ",\"name\":[\"%s\"]", name); else fputs(",\"name\":[]", TR);
            if (ret == 0) { char s[64]; tls_sock_get_addr_string(&so[q], s, sizeof s); fprintf(TR, ",\"peer\":\"%s\"", s); }
            else fputs(",\"peer\":\"\"", TR);
        }
        else if (!strncmp(o, "read", 4) || !strncmp(o, "write", 5))
        {
            int rd = o[0] == 'r', full = !!strchr(o, 'f'), len = atoi(tok[2]); tls_sock_t *s = &so[atoi(tok[1])]; unsigned char *b = malloc(len ? len : 1); long ret;
            for (int j = 0; j < len; j++) b[j] = rd ? 255 : (j * 7 + i) & 255;
            scripts(tok, k);
            ret = rd ? full ? tls_sock_read_full(s, b, len) : tls_sock_read(s, b, len) : full ? tls_sock_write_full(s, b, len) : tls_sock_write(s, b, len);
            jopen(rd ? "read" : "write"); jint("q", atoi(tok[1])); jint("full", full); jint("len", len); jint("ret", ret); jbytes("data", b, rd ? ret > 0 && ret <= len ? ret : 0 : len); jev();
            free(b);
        }
        else if (!strcmp(o, "rehs")) { scripts(tok, k); fg_alert = atoi(tok[2]); FAIL(tok[3]); int ret = tls_sock_rehandshake(&so[atoi(tok[1])]); fg_failat = 0; jopen("rehs"); jint("q", atoi(tok[1])); jint("alert", fg_alert); jint("ret", ret); jev(); }
        else if (!strcmp(o, "close")) { scripts(tok, k); dsize = atoi(tok[2]); dtag = atoi(tok[3]); tls_sock_close(&so[atoi(tok[1])]); jopen("close"); jint("q", atoi(tok[1])); jint("n", dsize); jint("tag", dtag); jev(); }
        else if (!strcmp(o, "cset")) { int ret = tls_client_set(&cl, tok[1], mkdata(atoi(tok[2]), atoi(tok[3]))); jopen("cset"); fprintf(TR, ",\"a\":\"%s\"", tok[1]); jint("n", atoi(tok[2])); jint("tag", atoi(tok[3])); jint("ret", ret); }
        else if (!strcmp(o, "cget")) { gnutls_datum_t d = tls_client_get(&cl, tok[1]); jopen("cget"); fprintf(TR, ",\"a\":\"%s\"", tok[1]); jint("n", d.size); jint("tag", d.size ? tagof(d.data, d.size) : -1); }
        else if (!strcmp(o, "sset")) { int ret = tls_server_set(&sv, mkkey(atoi(tok[1]), atoi(tok[2])), mkdata(atoi(tok[3]), atoi(tok[4]))); jopen("sset"); fprintf(TR, ",\"a\":\"%s/%s\"", tok[1], tok[2]); jint("kl", atoi(tok[2])); jint("n", atoi(tok[3])); jint("tag", atoi(tok[4])); jint("ret", ret); }
        else if (!strcmp(o, "sget"))
        {
            gnutls_datum_t d = tls_server_get(&sv, mkkey(atoi(tok[1]), atoi(tok[2])));
            jopen("sget"); fprintf(TR, ",\"a\":\"%s/%s\"", tok[1], tok[2]); jint("n", d.data ? d.size : 0); jint("tag", d.data ? tagof(d.data, d.size) : -1);
            if (d.data) gnutls_free(d.data);
        }
        else if (!strcmp(o, "sdel")) { int ret = tls_server_delete(&sv, mkkey(atoi(tok[1]), atoi(tok[2]))); jopen("sdel"); fprintf(TR, ",\"a\":\"%s/%s\"", tok[1], tok[2]); jint("ret", ret); }
        else if (!strcmp(o, "race"))
        {
            pthread_t t[4]; gnutls_alloc_function keep = gnutls_malloc; gnutls_malloc = plain; done = atoi(tok[1]);
            for (long j = 0; j < 4; j++) pthread_create(&t[j], NULL, racer, (void *)j);
            for (int j = 0; j < 4; j++) pthread_join(t[j], NULL);
            gnutls_malloc = keep; jopen("race"); jint("torn", torn);
        }
        else abort();
        jint("dt", now_ms - t0); counts(); jclose();
        free(l);
    }
    if (isup) { tls_client_destroy(&cl); tls_server_destroy(&sv); tls_deinit(); jopen("down"); counts(); jclose(); }
}
