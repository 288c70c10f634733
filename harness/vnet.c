#include "common.h"
#include "vnet.h"
#include <pthread.h>
#include <stdarg.h>
#include <time.h>
#include <fcntl.h>
#include <poll.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/timerfd.h>

long vn_now = 1000007;
extern void vn_on_fd(int what, int fd) __attribute__((weak));   /* 1 opened, 0 closed, 2 refused */
int vn_sendfail, vn_recvfail, vn_sendfail_errno = ENOBUFS;
unsigned vn_rand_state = 12345;

#define FD0 64
#define NFD 256
enum { F_NONE, F_SOCK, F_TIMER };
typedef struct dg { struct dg *next; struct sockaddr_storage src; socklen_t sl; size_t n; unsigned char b[]; } dg_t;
static struct
{
    int kind, nonblock, bound_port, connected, dom;
    struct sockaddr_storage peer; socklen_t plen;
    struct sockaddr_storage local;
    dg_t *head, *tail;
    long expiry;            /* timer: -1 disarmed */
    long interval;
} F[NFD];
static int next_port = 40000;

#define MAXA 8
static struct { pthread_t th; int used, done, blocked; fd_set rd; long deadline; void *(*fn)(void *); void *arg; int halted; } A[MAXA + 1];
static int cur;             /* running agent, 0 = controller */
static int halted;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread int me;

int vn_agent(void) { return me; }
int vn_halted(void) { return halted; }

static void give(int to) { cur = to; pthread_cond_broadcast(&cv); }
static void *tramp(void *p)
{
    me = (int)(long)p;
    pthread_mutex_lock(&mu);
    while (cur != me) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
    A[me].fn(A[me].arg);
    pthread_mutex_lock(&mu);
    A[me].done = 1;
    give(0);
    pthread_mutex_unlock(&mu);
    return NULL;
}
int vn_spawn(void *(*fn)(void *), void *arg)
{
    int i = 1;
    while (A[i].used) i++;
    A[i].used = 1; A[i].fn = fn; A[i].arg = arg;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
    if (pthread_create(&A[i].th, &at, tramp, (void *)(long)i)) abort();
    return i;
}
static int idx(int fd) { return fd >= FD0 && fd < FD0 + NFD && F[fd - FD0].kind ? fd - FD0 : -1; }
static int readable(int fd)
{
    int i = idx(fd);
    if (i < 0) return 0;
    if (F[i].kind == F_SOCK) return F[i].head != NULL;
    return F[i].expiry >= 0 && F[i].expiry <= vn_now;
}
static int ready(int a)
{
    for (int fd = FD0; fd < FD0 + NFD; fd++) if (FD_ISSET(fd, &A[a].rd) && readable(fd)) return 1;
    return A[a].deadline >= 0 && A[a].deadline <= vn_now;
}
int vn_agents_blocked(void) { int n = 0; for (int a = 1; a <= MAXA; a++) n += A[a].used && !A[a].done && A[a].blocked; return n; }
/* block the calling agent until one of rd is readable, the deadline passes or the run is over;
 * returns -1 when the run is over */
static int vwait(fd_set *rd, long deadline)
{
    static long same_t = -1; static int same_n;
    if (me == 0) abort();
    if (vn_now != same_t) { same_t = vn_now; same_n = 0; }
    if (++same_n > 20000) _exit(81);        /* spinning without making progress */
    vn_on_wait(me);
    pthread_mutex_lock(&mu);
    A[me].rd = *rd; A[me].deadline = deadline; A[me].blocked = 1;
    give(0);
    while (cur != me) pthread_cond_wait(&cv, &mu);
    A[me].blocked = 0;
    pthread_mutex_unlock(&mu);
    if (halted)
    {
        if (++A[me].halted > 8)
        {
            pthread_mutex_lock(&mu); A[me].done = 1; give(0); pthread_mutex_unlock(&mu);
            pthread_exit(NULL);
        }
        return -1;
    }
    return 0;
}
static void run(int a)
{
    pthread_mutex_lock(&mu);
    give(a);
    while (cur != 0) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
}
void vn_loop(void)
{
    for (;;)
    {
        int any = 0, alive = 0;
        for (int a = 1; a <= MAXA; a++)
        {
            if (!A[a].used || A[a].done) continue;
            alive = 1;
            if (!A[a].blocked || ready(a) || halted) { run(a); any = 1; }
        }
        if (!alive) return;
        if (any) continue;
        /* everybody is blocked: what happens next? */
        long best = -1, s = vn_script_next();
        int script = 0;
        for (int i = 0; i < NFD; i++)
            if (F[i].kind == F_TIMER && F[i].expiry > vn_now && (best < 0 || F[i].expiry < best)) best = F[i].expiry;
        for (int a = 1; a <= MAXA; a++)
            if (A[a].used && !A[a].done && A[a].deadline > vn_now && (best < 0 || A[a].deadline < best)) best = A[a].deadline;
        if (s >= 0 && (best < 0 || s <= best)) { best = s; script = 1; }
        if (best < 0 || best > 100000000L)
        {
            halted = 1;
            for (int a = 1; a <= MAXA; a++) if (A[a].used && !A[a].done) vn_on_stuck(a, "blocked");
            continue;
        }
        if (best > vn_now) vn_now = best;
        if (script) vn_script_fire();
    }
}
void vn_inject(int fd, const struct sockaddr *src, const void *b, size_t n)
{
    int i = idx(fd);
    if (i < 0 || F[i].kind != F_SOCK) return;     /* lost: nobody listens */
    if (F[i].connected)
    {
        /* a connected datagram socket only receives from its peer */
        struct sockaddr_in *p = (void *)&F[i].peer, *q = (void *)src;
        if (p->sin_family == AF_INET && (p->sin_port != q->sin_port || p->sin_addr.s_addr != q->sin_addr.s_addr)) return;
        struct sockaddr_in6 *p6 = (void *)&F[i].peer, *q6 = (void *)src;
        if (p->sin_family == AF_INET6 && (p6->sin6_port != q6->sin6_port || memcmp(&p6->sin6_addr, &q6->sin6_addr, 16))) return;
    }
    dg_t *d = malloc(sizeof(dg_t) + n);
    memset(&d->src, 0, sizeof d->src);
    d->sl = src->sa_family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
    memcpy(&d->src, src, d->sl);
    d->n = n; d->next = NULL; memcpy(d->b, b, n);
    if (F[i].tail) F[i].tail->next = d; else F[i].head = d;
    F[i].tail = d;
}
int vn_sock_by_port(int port)
{
    for (int i = 0; i < NFD; i++) if (F[i].kind == F_SOCK && F[i].bound_port == port) return i + FD0;
    return -1;
}
int vn_port(int fd) { int i = idx(fd); return i < 0 ? -1 : F[i].bound_port; }
int vn_open_fds(void) { int n = 0; for (int i = 0; i < NFD; i++) n += F[i].kind != F_NONE; return n; }

/* fail the vn_sysfail-th (counted from 1) of the system calls that set up sockets and timers */
int vn_sysfail; static int syscalls;
void vn_sys_fail(int n) { vn_sysfail = syscalls + n; }
static int sysfault(void) { if (++syscalls != vn_sysfail) return 0; if (vn_on_fd) vn_on_fd(2, 0); errno = EMFILE; return 1; }
static int newfd(int kind)
{
    if (sysfault()) return -1;
    for (int i = 0; i < NFD; i++)
        if (F[i].kind == F_NONE) { memset(&F[i], 0, sizeof F[i]); F[i].kind = kind; F[i].expiry = -1; if (vn_on_fd) vn_on_fd(1, i + FD0); return i + FD0; }
    errno = EMFILE; return -1;
}

/* ------------------------------------------------------------------ wrapped calls */
int __real_close(int fd);
int __wrap_socket(int dom, int type, int proto) { (void)proto; int fd = newfd(F_SOCK); if (fd >= 0) F[fd - FD0].dom = dom; if (fd >= 0 && (type & SOCK_NONBLOCK)) F[fd - FD0].nonblock = 1; return fd; }
/* an address must be complete and of the socket's family */
static int badaddr(int i, const struct sockaddr *a, socklen_t l)
{
    if (l < sizeof(a->sa_family) || l < (F[i].dom == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in))) { errno = EINVAL; return 1; }
    if (a->sa_family != F[i].dom) { errno = EAFNOSUPPORT; return 1; }
    return 0;
}
static int portof(const struct sockaddr *a) { return ntohs(a->sa_family == AF_INET6 ? ((struct sockaddr_in6 *)a)->sin6_port : ((struct sockaddr_in *)a)->sin_port); }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l)
{
    int i = idx(fd); if (i < 0) { errno = EBADF; return -1; }
    if (sysfault() || badaddr(i, a, l)) return -1;
    memcpy(&F[i].local, a, l); F[i].bound_port = portof(a); return 0;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
    int i = idx(fd); if (i < 0) { errno = EBADF; return -1; }
    if (sysfault() || badaddr(i, a, l)) return -1;
    memcpy(&F[i].peer, a, l); F[i].plen = l; F[i].connected = 1;
    if (!F[i].bound_port) F[i].bound_port = next_port++;
    return 0;
}
int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t l) { (void)lv; (void)o; (void)v; (void)l; if (idx(fd) < 0) { errno = EBADF; return -1; } return sysfault() ? -1 : 0; }
int __wrap_getsockopt(int fd, int lv, int o, void *v, socklen_t *l) { (void)lv; (void)o; if (idx(fd) < 0) { errno = EBADF; return -1; } if (l && *l >= sizeof(int)) *(int *)v = 0; return 0; }
int __real_fcntl(int fd, int cmd, ...);
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    int i = idx(fd); if (i < 0) return __real_fcntl(fd, cmd, a);
    if (sysfault()) return -1;
    if (cmd == F_GETFL) return O_RDWR | (F[i].nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { F[i].nonblock = !!(a & O_NONBLOCK); return 0; }
    return 0;
}
int __wrap_getaddrinfo(const char *host, const char *port, const struct addrinfo *h, struct addrinfo **res)
{
    if (sysfault()) return EAI_NONAME;
    struct addrinfo *r = calloc(1, sizeof *r + sizeof(struct sockaddr_in6));
    int fam = h ? h->ai_family : AF_INET;
    (void)host;
    r->ai_family = fam == AF_INET6 ? AF_INET6 : AF_INET; r->ai_socktype = h ? h->ai_socktype : SOCK_DGRAM;
    r->ai_addr = (struct sockaddr *)(r + 1);
    if (fam == AF_INET6)
    {
        struct sockaddr_in6 *s = (void *)r->ai_addr; s->sin6_family = AF_INET6; s->sin6_port = htons(atoi(port)); s->sin6_addr = in6addr_loopback; r->ai_addrlen = sizeof *s;
    }
    else
    {
        struct sockaddr_in *s = (void *)r->ai_addr; s->sin_family = AF_INET; s->sin_port = htons(atoi(port)); s->sin_addr.s_addr = htonl(INADDR_LOOPBACK); r->ai_addrlen = sizeof *s;
    }
    *res = r; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *r) { while (r) { struct addrinfo *n = r->ai_next; free(r); r = n; } }

int __wrap_select(int n, fd_set *rd, fd_set *wr, fd_set *ex, struct timeval *tv)
{
    fd_set want; FD_ZERO(&want);
    if (rd) for (int fd = 0; fd < n && fd < FD_SETSIZE; fd++) if (FD_ISSET(fd, rd)) FD_SET(fd, &want);
    if (wr || ex) { if (wr) { int c = 0; for (int fd = 0; fd < n; fd++) c += FD_ISSET(fd, wr); if (c) { if (rd) FD_ZERO(rd); return c; } } }
    for (int fd = FD0; fd < n && fd < FD0 + NFD; fd++) if (FD_ISSET(fd, &want) && idx(fd) < 0) { errno = EBADF; return -1; }
    long dl = tv ? vn_now + tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000 : -1;
    if (vwait(&want, dl) < 0) { errno = EBADF; return -1; }
    int c = 0;
    if (rd) { FD_ZERO(rd); for (int fd = FD0; fd < FD0 + NFD; fd++) if (FD_ISSET(fd, &want) && readable(fd)) { FD_SET(fd, rd); c++; } }
    if (tv) { long left = dl - vn_now; if (left < 0) left = 0; tv->tv_sec = left / 1000; tv->tv_usec = left % 1000 * 1000; }
    return c;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms)
{
    fd_set want; FD_ZERO(&want); int c = 0;
    for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd >= 0 && (p[i].events & (POLLIN | POLLPRI))) FD_SET(p[i].fd, &want); if (p[i].events & POLLOUT) { p[i].revents = POLLOUT; c++; } }
    if (c) return c;
    if (vwait(&want, ms >= 0 ? vn_now + ms : -1) < 0) { errno = EBADF; return -1; }
    for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && FD_ISSET(p[i].fd, &want) && readable(p[i].fd)) { p[i].revents = POLLIN; c++; }
    return c;
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *src, socklen_t *sl)
{
    int i = idx(fd);
    if (i < 0 || F[i].kind != F_SOCK) { errno = EBADF; return -1; }
    while (!F[i].head)
    {
        if (F[i].nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        fd_set w; FD_ZERO(&w); FD_SET(fd, &w);
        if (vwait(&w, -1) < 0) { errno = EBADF; return -1; }
    }
    dg_t *d = F[i].head;
    size_t m = d->n < n ? d->n : n;
    memcpy(b, d->b, m);
    if (src && sl) { socklen_t k = d->sl < *sl ? d->sl : *sl; memcpy(src, &d->src, k); *sl = d->sl; }
    size_t full = d->n;
    if (!(flags & MSG_PEEK))
    {
        F[i].head = d->next; if (!F[i].head) F[i].tail = NULL;
        if (vn_recvfail > 0) { vn_recvfail--; free(d); errno = ECONNREFUSED; return -1; }
        vn_on_recv(fd, (struct sockaddr *)&d->src, d->b, d->n);
        free(d);
    }
    return flags & MSG_TRUNC ? full : m;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int flags) { return __wrap_recvfrom(fd, b, n, flags, NULL, NULL); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *dst, socklen_t dl)
{
    int i = idx(fd); (void)flags;
    if (i < 0 || F[i].kind != F_SOCK) { errno = EBADF; return -1; }
    if (dst && badaddr(i, dst, dl)) return -1;
    if (!dst) { if (!F[i].connected) { errno = EDESTADDRREQ; return -1; } dst = (struct sockaddr *)&F[i].peer; }
    if (!F[i].bound_port) F[i].bound_port = next_port++;
    int fail = vn_sendfail > 0;
    if (fail) vn_sendfail--;
    vn_on_send(fd, dst, b, n, fail);
    if (fail) { errno = vn_sendfail_errno; return -1; }
    return n;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags) { return __wrap_sendto(fd, b, n, flags, NULL, 0); }
int __wrap_timerfd_create(int clk, int flags) { (void)clk; int fd = newfd(F_TIMER); if (fd >= 0 && (flags & TFD_NONBLOCK)) F[fd - FD0].nonblock = 1; return fd; }
int __wrap_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
    int i = idx(fd); if (i < 0 || F[i].kind != F_TIMER) { errno = EBADF; return -1; }
    if (o) { memset(o, 0, sizeof *o); if (F[i].expiry > vn_now) { o->it_value.tv_sec = (F[i].expiry - vn_now) / 1000; o->it_value.tv_nsec = (F[i].expiry - vn_now) % 1000 * 1000000; } }
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999) { errno = EINVAL; return -1; }
    if (n->it_value.tv_sec == 0 && n->it_value.tv_nsec == 0) { F[i].expiry = -1; return 0; }
    long v = n->it_value.tv_sec * 1000 + (n->it_value.tv_nsec + 999999) / 1000000;
    F[i].expiry = (flags & TFD_TIMER_ABSTIME) ? v : vn_now + v;
    F[i].interval = n->it_interval.tv_sec * 1000 + n->it_interval.tv_nsec / 1000000;
    return 0;
}
int __wrap_timerfd_gettime(int fd, struct itimerspec *o)
{
    int i = idx(fd); if (i < 0) { errno = EBADF; return -1; }
    memset(o, 0, sizeof *o); if (F[i].expiry > vn_now) { o->it_value.tv_sec = (F[i].expiry - vn_now) / 1000; o->it_value.tv_nsec = (F[i].expiry - vn_now) % 1000 * 1000000; }
    return 0;
}
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    int i = idx(fd); if (i < 0) return __real_read(fd, b, n);
    if (F[i].kind == F_SOCK) return __wrap_recvfrom(fd, b, n, 0, NULL, NULL);
    if (!readable(fd)) { errno = EAGAIN; return -1; }
    uint64_t one = 1; memcpy(b, &one, 8); F[i].expiry = F[i].interval ? F[i].expiry + F[i].interval : -1;
    return 8;
}
int __wrap_close(int fd)
{
    int i = idx(fd);
    if (i < 0) { if (fd >= FD0 && fd < FD0 + NFD) { if (vn_on_fd) vn_on_fd(0, fd); errno = EBADF; return -1; } return __real_close(fd); }
    while (F[i].head) { dg_t *d = F[i].head; F[i].head = d->next; free(d); }
    F[i].kind = F_NONE; if (vn_on_fd) vn_on_fd(0, fd); return 0;
}
time_t __wrap_time(time_t *t) { time_t v = vn_now / 1000; if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = vn_now / 1000; ts->tv_nsec = vn_now % 1000 * 1000000; return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec = vn_now / 1000; tv->tv_usec = vn_now % 1000 * 1000; return 0; }
void __wrap_srand(unsigned s) { (void)s; }
static int rq[64], rqn, rqi;
void vn_rand_push(int v) { if (rqn < 64) rq[rqn++] = v; }
/* values are 3 modulo 10, so that a retransmission never falls on the same millisecond as a
 * scripted event (those are 7 modulo 10) */
int __wrap_rand(void)
{
    if (rqi < rqn) return rq[rqi++];
    vn_rand_state = vn_rand_state * 1103515245u + 12345u;
    return ((vn_rand_state >> 8) & 0xfffff) * 10 + 3;
}
long __wrap_random(void) { return __wrap_rand(); }
void __wrap_srandom(unsigned s) { (void)s; }
