/* Endpoint addresses of the address family the library is built for: host number h (0-15) and port. */
#ifndef ADDR_H
#define ADDR_H
#include <arpa/inet.h>
#include <netinet/in.h>
#include <string.h>
#ifdef COAP_IP6
typedef struct sockaddr_in6 addr_t;
/* hosts differ in an early byte of the address, in the interface or in the last byte */
static void addr_mk(addr_t *s, int h, int port)
{
    memset(s, 0, sizeof *s); s->sin6_family = AF_INET6; s->sin6_port = htons(port);
    s->sin6_addr.s6_addr[0] = 0xfe; s->sin6_addr.s6_addr[1] = 0x80; s->sin6_addr.s6_addr[5] = h & 1; s->sin6_addr.s6_addr[15] = 1 + h / 4; s->sin6_scope_id = 1 + (h >> 1 & 1);
}
static void addr_lo(addr_t *s, int port) { memset(s, 0, sizeof *s); s->sin6_family = AF_INET6; s->sin6_port = htons(port); s->sin6_addr = in6addr_loopback; }
static inline int addr_port(const struct sockaddr *a) { return a->sa_family == AF_INET6 ? ntohs(((const addr_t *)a)->sin6_port) : -1; }
#else
typedef struct sockaddr_in addr_t;
static void addr_mk(addr_t *s, int h, int port) { memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(0x0a000001 + h); }
static void addr_lo(addr_t *s, int port) { memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(INADDR_LOOPBACK); }
static inline int addr_port(const struct sockaddr *a) { return a->sa_family == AF_INET ? ntohs(((const addr_t *)a)->sin_port) : -1; }
#endif
static inline void addr_use_(void) { (void)addr_mk; (void)addr_lo; }
#endif
