/* A stand-in for GnuTLS: sessions, credentials and certificates are objects whose life is counted, and what
 * the peer and its certificate are like is decided by the scenario.
 *   fg_mode 0: a handshake succeeds at once and a record is a datagram as it is;
 *   fg_mode 1: the first byte of a datagram is its kind: 22 handshake flight <n> [<certificate>], 23 record, 21 alert
 *              <0 close, 1 warning, 2 fatal>, 20 a record that cannot be read, anything else is dropped. */
#ifndef FGNUTLS_H
#define FGNUTLS_H
#include <gnutls/gnutls.h>
#include <gnutls/dtls.h>
#include <gnutls/x509.h>
typedef struct { int verify; unsigned status; int type, peers, import; long exp, act; const char *cn; } fg_cert_t;
enum { FG_GLOB, FG_CRED, FG_PRIO, FG_DH, FG_SESS, FG_CRT, FG_NK };
extern int fg_mode, fg_flights, fg_cert, fg_failat, fg_failzero, fg_failed, fg_misuse, fg_byes, fg_alert;
extern long fg_live[FG_NK];
extern const char *fg_hs;               /* scripted results of gnutls_handshake: A again, S success, T timed out, F/W alerts, E error, I I/O error */
extern fg_cert_t fg_certs[];
#define FG_NCERTS 19
long fg_now(void);                      /* seconds; provided by the harness */
void fg_on_load(const char *kind, const char *file) __attribute__((weak));
void fg_on_hs(int letter) __attribute__((weak));
void fg_fail(int n);                    /* the n-th fallible call from now on fails */
void fg_jcert(int i);                   /* the facts about a certificate as a JSON field "cert" */
/* stream sessions (no push and pull functions) are played by the harness */
ssize_t fg_stream_recv(void *ptr, void *b, size_t n) __attribute__((weak));
ssize_t fg_stream_send(void *ptr, const void *b, size_t n) __attribute__((weak));
int fg_stream_bye(void *ptr) __attribute__((weak));
int fg_stream_hs(void *ptr) __attribute__((weak));
int fg_stream_data(gnutls_datum_t *d) __attribute__((weak));                            /* the client's session data */
void fg_stream_resume(const void *b, size_t n) __attribute__((weak));                   /* session data offered */
int fg_stream_key(gnutls_datum_t *key, gnutls_datum_t *data) __attribute__((weak));     /* the server's session */
void fg_stream_db(int get, gnutls_datum_t *d, int ret) __attribute__((weak));
void fg_on_fail(void) __attribute__((weak));
int fg_bufs(void);
#endif
