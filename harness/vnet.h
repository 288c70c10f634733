/* A virtual network and clock behind the system calls the library makes.  The code under
 * test runs in agent threads of which exactly one runs at any time; when all are blocked the
 * controller fires the next scripted event or advances virtual time to the next deadline. */
#ifndef VNET_H
#define VNET_H
#include <netinet/in.h>
#include <stddef.h>


extern long vn_now;                       /* virtual time, msec */
extern int vn_sendfail;                   /* number of sends that will fail */
extern int vn_sendfail_errno;
extern int vn_recvfail;                   /* number of consuming receives that will fail */
extern unsigned vn_rand_state;
extern int vn_sysfail;                    /* number of the set-up system call that will fail */
void vn_sys_fail(int n);                  /* the n-th of them from now on */

typedef struct vn_sock vn_sock_t;

/* provided by the harness */
void vn_on_wait(int agent);                                               /* an agent is about to block */
void vn_on_send(int fd, const struct sockaddr *dst, const void *b, size_t n, int failed);
void vn_on_recv(int fd, const struct sockaddr *src, const void *b, size_t n);  /* datagram consumed */
void vn_on_stuck(int agent, const char *why);
long vn_script_next(void);                /* absolute time of the next scripted event, -1 none */
void vn_script_fire(void);                /* perform it */

int vn_spawn(void *(*fn)(void *), void *arg);   /* returns agent number (1..) */
void vn_loop(void);                             /* run until all agents have finished or nothing can happen */
int vn_agent(void);                             /* current agent */
void vn_inject(int fd, const struct sockaddr *src, const void *b, size_t n);
int vn_sock_by_port(int port);                  /* fd of the socket bound to a port */
int vn_port(int fd);                            /* port a socket is bound to */
int vn_open_fds(void);                          /* fds the code under test has not closed */
int vn_halted(void);
void vn_rand_push(int v);                       /* value for a coming rand() */
int vn_agents_blocked(void);
#endif
