SRV, CLI = "lib/src/coap_server.c", "lib/src/coap_client.c"
LIS = "proxy/http_coap/src/listener.c"
SEEDS = []


def S(id, property, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo="from kit import *\n" + demo, **k))


RUN = '''
b = build("t", "t.c", %s, %s)
check(subprocess.call([b], stderr=subprocess.DEVNULL, timeout=60) == 0, "%s")
'''

S("S42-idle-leak", "P32", "a listener that is idle, so that its accepts time out",
  "the socket structure of an accept that timed out is never freed", [
      (LIS, '''            free(sock);
            if (ret != SOCK_TIMEOUT)
            {
''', '''            if (ret != SOCK_TIMEOUT)
            {
                free(sock);
''')], RUN % ('["proxy/http_coap/src/listener.c", "proxy/common/src/thread.c", "lib/src/coap_log.c"]',
              '["-Iproxy/common/include", "-Iproxy/http_coap/include", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=free", "-lpthread"]',
              "nothing is held after the listener has ended"),
  kit=("kit.py",), files={"t.c": r'''#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "listener.h"
#include "connection.h"
#include "sock.h"
#include "coap_log.h"
int go = 1;
static int live, count, on; static volatile int closed;
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void __real_free(void *p);
static void *mine[1000];
static void *in(void *p) { if (on && p) { int i; for (i = 0; mine[i]; i++) ; mine[i] = p; live++; } return p; }
void *__wrap_malloc(size_t n) { return in(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { return in(__real_calloc(a, b)); }
void __wrap_free(void *p) { int i; if (p) for (i = 0; i < 1000; i++) if (mine[i] == p) { mine[i] = NULL; live--; break; } __real_free(p); }
const char *sock_strerror(int e) { return "error"; }
int tls_ssock_open(tls_ssock_t *ss, tls_server_t *server, const char *port, int timeout, int backlog) { on = 1; return SOCK_OK; }
void tls_ssock_close(tls_ssock_t *ss) { closed = 1; }
int tls_ssock_accept(tls_ssock_t *ss, tls_sock_t *s) { if (++count == 20) go = 0; return count % 2 ? SOCK_TIMEOUT : SOCK_ACCEPT_ERROR; }
void tls_sock_close(tls_sock_t *s) {}
connection_t *connection_new(tls_sock_t *s, unsigned li, unsigned ci, param_t *param) { return NULL; }
void connection_delete(connection_t *c) {}
void *connection_thread_func(void *data) { return NULL; }
int main(void)
{
    static param_t p = {"8443"}; int i; listener_t *l;
    coap_log_set_level(0);
    l = listener_new(0, NULL, &p, 1, 1);
    on = 0;
    if (!l) return 2;
    on = 1;
    if (listener_run(l) < 0) return 2;
    for (i = 0; i < 100 && !closed; i++) usleep(50000);
    usleep(300000); on = 0;
    return closed && count == 20 && live <= 1 ? 0 : 1;   /* at most what the thread library keeps */
}
'''})

S("S43-half-an-address", "P33", "the IPv6 build and two hosts of one network that use the same source port",
  "only the first half of an IPv6 address tells endpoints apart, and one endpoint's datagram destroys the other's transaction; over IPv4 nothing changes", [
      (SRV, "(memcmp(&trans->client_sin, client_sin, client_sin_len) == 0)",
       "(memcmp(&trans->client_sin, client_sin, sizeof(struct sockaddr)) == 0)")],
  RUN % ('LIB + ["lib/src/coap_server.c"]', '["-DCOAP_IP6", "-Wl,--wrap=recvfrom", "-Wl,--wrap=sendto", "-lpthread"]', "two hosts of one network are two endpoints"),
  kit=("kit.py",), files={"t.c": r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include "coap_server.h"
#include "coap_mem.h"
#include "coap_log.h"
/* the second client's datagrams appear to come from another host with the first client's port */
static int pa, pb, sp, calls;
ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l)
{
    ssize_t r = __real_recvfrom(fd, b, n, f, a, l); struct sockaddr_in6 *s = (void *)a;
    if (r >= 0 && s && s->sin6_port == htons(pb)) { s->sin6_port = htons(pa); s->sin6_addr.s6_addr[15] = 2; }
    return r;
}
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l)
{
    struct sockaddr_in6 s;
    if (a) { memcpy(&s, a, sizeof s); if (s.sin6_addr.s6_addr[15] == 2) { s.sin6_addr.s6_addr[15] = 1; s.sin6_port = htons(pb); } a = (void *)&s; }
    return __real_sendto(fd, b, n, f, a, l);
}
static int handle(coap_server_trans_t *t, coap_msg_t *q, coap_msg_t *r)
{
    char c = '0' + ++calls;
    coap_msg_set_code(r, COAP_MSG_SUCCESS, COAP_MSG_CONTENT); return coap_msg_set_payload(r, &c, 1);
}
static void *run(void *s) { coap_server_run(s); return NULL; }
static int sock6(int *port, int to)
{
    struct sockaddr_in6 s = {0}; socklen_t l = sizeof s; int fd = socket(AF_INET6, SOCK_DGRAM, 0); struct timeval tv = {2, 0};
    s.sin6_family = AF_INET6; s.sin6_addr = in6addr_loopback;
    if (fd < 0 || bind(fd, (void *)&s, sizeof s) < 0) exit(2);
    getsockname(fd, (void *)&s, &l); *port = ntohs(s.sin6_port);
    if (to) { s.sin6_port = htons(to); if (connect(fd, (void *)&s, sizeof s) < 0) exit(2); }
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    return fd;
}
int main(void)
{
    static coap_server_t s; pthread_t t; char b[64], port[8]; int a, c, fd, n;
    coap_log_set_level(0); coap_mem_all_create(16, 64, 16, 1280, 8, 64);
    fd = sock6(&sp, 0); close(fd); sprintf(port, "%d", sp);
    if (coap_server_create(&s, handle, "::1", port) < 0) return 2;
    a = sock6(&pa, sp); c = sock6(&pb, sp);
    pthread_create(&t, NULL, run, &s);
    send(a, "\x41\x01\x00\x07" "A\xb1x", 7, 0); n = recv(a, b, sizeof b, 0);
    if (n != 7 || b[4] != 'A' || b[6] != '1') return 1;
    send(c, "\x41\x01\x00\x07" "B\xb1x", 7, 0); n = recv(c, b, sizeof b, 0);
    if (n != 7 || b[4] != 'B' || b[6] != '2') return 1;
    /* the first host's request is still remembered */
    send(a, "\x41\x01\x00\x07" "A\xb1x", 7, 0); n = recv(a, b, sizeof b, 0);
    if (n != 7 || b[4] != 'A' || b[6] != '1') return 1;
    return 0;
}
'''})

S("S44-older-block-confirmed", "P09", "a server that confirms an earlier block again instead of the one just sent",
  "the confirmation of an earlier block is taken for that of the current one and the upload reported as a success", [
      (CLI, "        if (block1_num * block1_size != block1_start)\n", "        if (block1_num * block1_size > block1_start)\n")], '''
port = freeport(); s = Ep(port, ("127.0.0.1", port))
c = client("up", "x" * 150, port=port)
for i in range(3):
    q = s.recv(5)
    if q is None: break
    n, more, size = blk(q, 27)
    s.send(msg(ACK, (2, 31 if more else 4), q.mid, q.tok, [(27, block(0, more, size))]), s.peer)
out = c.communicate(timeout=60)[0]
check("RET -" in out, "a block that was not confirmed is an error: " + out)
''')

S("S45-cut-without-end", "P21", "a message with a body that does not fit its buffer",
  "a body that is cut off overwrites the terminating null byte", [
      ("proxy/common/src/http_msg.c", "msg->body, (len - 1) - str_len);", "msg->body, len - str_len);")],
  RUN % ('["proxy/common/src/http_msg.c", "proxy/common/src/util.c"]', '["-Iproxy/common/include"]', "what is cut off ends in a null byte"),
  kit=("kit.py",), files={"t.c": r'''#include <string.h>
#include "http_msg.h"
int main(void)
{
    http_msg_t m; char b[200]; unsigned n;
    http_msg_create(&m); http_msg_set_start(&m, "HTTP/1.1", "200", "OK"); http_msg_set_header(&m, "Content-Length", "30");
    http_msg_set_body(&m, "abcdefghijklmnopqrstuvwxyz0123", 30);
    for (n = 1; n < 120; n++)
    {
        memset(b, '#', sizeof b);
        if (http_msg_generate(&m, b, n) != 17 + 20 + 2 + 30) return 1;
        if (b[n] != '#' || memchr(b, 0, n) == NULL) return 1;
    }
    return 0;
}
'''})
