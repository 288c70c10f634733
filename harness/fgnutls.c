#include "common.h"
#include "fgnutls.h"
int fg_mode, fg_flights = 1, fg_cert, fg_failat, fg_failzero, fg_failed, fg_misuse, fg_byes, fg_alert;
long fg_live[FG_NK];
const char *fg_hs;
static int fallible;
#define MG 0x5e55
typedef struct { int magic, kind, has; } obj_t;
struct gnutls_session_int { obj_t o; unsigned flags; void *ptr; gnutls_push_func push; gnutls_pull_func pull; gnutls_pull_timeout_func pullto;
    obj_t *cred, *prio; int request, open, flight, cert, alert; void *db; gnutls_db_store_func store; gnutls_db_retr_func retr; gnutls_db_remove_func del; };
struct x { obj_t o; int cert; };
fg_cert_t fg_certs[FG_NCERTS] = {
    {0, 0, GNUTLS_CRT_X509, 1, 0, 1000, -1000, "peer"},                                 /* good */
    {GNUTLS_E_NO_CERTIFICATE_FOUND, 0, GNUTLS_CRT_X509, 0, 0, 1000, -1000, "peer"},     /* none shown */
    {0, GNUTLS_CERT_INVALID, GNUTLS_CRT_X509, 1, 0, 1000, -1000, "peer"},
    {0, GNUTLS_CERT_SIGNER_NOT_FOUND, GNUTLS_CRT_X509, 1, 0, 1000, -1000, "peer"},
    {0, GNUTLS_CERT_SIGNER_NOT_CA, GNUTLS_CRT_X509, 1, 0, 1000, -1000, "peer"},
    {0, GNUTLS_CERT_REVOKED, GNUTLS_CRT_X509, 1, 0, 1000, -1000, "peer"},
    {0, 0, GNUTLS_CRT_OPENPGP, 1, 0, 1000, -1000, "peer"},
    {0, 0, GNUTLS_CRT_X509, 1, GNUTLS_E_ASN1_DER_ERROR, 1000, -1000, "peer"},
    {0, 0, GNUTLS_CRT_X509, 1, 0, -1, -1000, "peer"},                                   /* expired a second ago */
    {0, 0, GNUTLS_CRT_X509, 1, 0, 1000, 1, "peer"},                                     /* valid in a second */
    {0, 0, GNUTLS_CRT_X509, 1, 0, 9999999, -1000, "peer"},                              /* expiration time unknown */
    {0, 0, GNUTLS_CRT_X509, 1, 0, 1000, 9999999, "peer"},                               /* activation time unknown */
    {0, 0, GNUTLS_CRT_X509, 1, 0, 1000, -1000, "other"},
    {GNUTLS_E_INTERNAL_ERROR, 0, GNUTLS_CRT_X509, 1, 0, 1000, -1000, "peer"},
    {0, 0, GNUTLS_CRT_X509, 0, 0, 1000, -1000, "peer"},
    {0, 0, GNUTLS_CRT_X509, 1, 0, 0, -1000, "peer"},                                    /* expires this very second */
    {0, 0, GNUTLS_CRT_X509, 1, 0, 1000, 0, "peer"},                                     /* valid from this very second */
    {0, GNUTLS_CERT_INVALID | GNUTLS_CERT_REVOKED, GNUTLS_CRT_X509, 1, 0, 1000, -1000, "peer"},
    {0, GNUTLS_CERT_INVALID | GNUTLS_CERT_SIGNER_NOT_FOUND, GNUTLS_CRT_X509, 1, 0, -1, -1000, "other"},
};
void fg_jcert(int i)
{
    fg_cert_t *c = &fg_certs[i];
    fprintf(TR, ",\"cert\":{\"verified\":%d,\"invalid\":%d,\"nosigner\":%d,\"notca\":%d,\"revoked\":%d,\"x509\":%d,\"shown\":%d,\"parses\":%d,\"expires\":%ld,\"active\":%ld,\"unknown\":%d,\"cn\":\"%s\"}",
            c->verify == 0, !!(c->status & GNUTLS_CERT_INVALID), !!(c->status & GNUTLS_CERT_SIGNER_NOT_FOUND), !!(c->status & GNUTLS_CERT_SIGNER_NOT_CA), !!(c->status & GNUTLS_CERT_REVOKED),
            c->type == GNUTLS_CRT_X509, c->peers, c->import == 0, c->exp, c->act, c->exp == 9999999 || c->act == 9999999, c->cn);
}
static int no(void) { if (++fallible != fg_failat) return 0; fg_failed = 1; if (fg_on_fail) fg_on_fail(); return 1; }
void fg_fail(int n) { fg_failat = fallible + n; }
static void *mk(int kind, size_t n) { obj_t *o = calloc(1, n); o->magic = MG; o->kind = kind; fg_live[kind]++; return o; }
static int ok(const void *p, int kind) { const obj_t *o = p; if (o && o->magic == MG && o->kind == kind) return 1; fg_misuse++; return 0; }
static void rm(void *p, int kind) { obj_t *o = p; if (!ok(o, kind)) return; fg_live[kind]--; o->magic = 0; /* kept, to recognise later use */ }
int gnutls_global_init(void) { if (no()) return GNUTLS_E_MEMORY_ERROR; fg_live[FG_GLOB]++; return 0; }
void gnutls_global_deinit(void) { if (--fg_live[FG_GLOB] < 0) fg_misuse++; }
const char *gnutls_check_version(const char *v) { return "0"; }
const char *gnutls_strerror_name(int e) { return "E"; }
const char *gnutls_strerror(int e) { return "E"; }
int gnutls_certificate_allocate_credentials(gnutls_certificate_credentials_t *c) { if (no()) return GNUTLS_E_MEMORY_ERROR; *c = mk(FG_CRED, sizeof(obj_t)); return 0; }
void gnutls_certificate_free_credentials(gnutls_certificate_credentials_t c) { rm(c, FG_CRED); }
static int load(gnutls_certificate_credentials_t c, const char *kind, const char *f)
{
    if (!ok(c, FG_CRED)) return GNUTLS_E_INVALID_REQUEST;
    if (no()) return fg_failzero ? 0 : GNUTLS_E_FILE_ERROR;
    if (fg_on_load) fg_on_load(kind, f);
    return 1;
}
int gnutls_certificate_set_x509_trust_file(gnutls_certificate_credentials_t c, const char *f, gnutls_x509_crt_fmt_t t) { return load(c, "trust", f); }
int gnutls_certificate_set_x509_crl_file(gnutls_certificate_credentials_t c, const char *f, gnutls_x509_crt_fmt_t t) { return load(c, "crl", f); }
int gnutls_certificate_set_x509_key_file(gnutls_certificate_credentials_t c, const char *ce, const char *k, gnutls_x509_crt_fmt_t t)
{
    if (!ok(c, FG_CRED)) return GNUTLS_E_INVALID_REQUEST;
    if (no()) return GNUTLS_E_FILE_ERROR;
    if (fg_on_load) { fg_on_load("cert", ce); fg_on_load("key", k); }
    ((obj_t *)c)->has = 1;
    return 0;
}
int gnutls_dh_params_init(gnutls_dh_params_t *d) { if (no()) return GNUTLS_E_MEMORY_ERROR; *d = mk(FG_DH, sizeof(obj_t)); return 0; }
int gnutls_dh_params_generate2(gnutls_dh_params_t d, unsigned bits) { if (!ok(d, FG_DH)) return -1; return no() ? GNUTLS_E_MEMORY_ERROR : 0; }
void gnutls_dh_params_deinit(gnutls_dh_params_t d) { rm(d, FG_DH); }
void gnutls_certificate_set_dh_params(gnutls_certificate_credentials_t c, gnutls_dh_params_t d) { ok(c, FG_CRED); ok(d, FG_DH); }
int gnutls_priority_init(gnutls_priority_t *p, const char *s, const char **e) { if (no()) return GNUTLS_E_MEMORY_ERROR; *p = mk(FG_PRIO, sizeof(obj_t)); return 0; }
void gnutls_priority_deinit(gnutls_priority_t p) { rm(p, FG_PRIO); }
int gnutls_init(gnutls_session_t *s, unsigned flags)
{
    if (no()) return GNUTLS_E_MEMORY_ERROR;
    *s = mk(FG_SESS, sizeof(struct gnutls_session_int)); (*s)->flags = flags; (*s)->flight = 1; (*s)->cert = fg_cert;
    return 0;
}
void gnutls_deinit(gnutls_session_t s) { rm(s, FG_SESS); }
int gnutls_credentials_set(gnutls_session_t s, gnutls_credentials_type_t t, void *c) { if (!ok(s, FG_SESS) || !ok(c, FG_CRED)) return -1; if (no()) return GNUTLS_E_MEMORY_ERROR; s->cred = c; return 0; }
int gnutls_priority_set(gnutls_session_t s, gnutls_priority_t p) { if (!ok(s, FG_SESS) || !ok(p, FG_PRIO)) return -1; if (no()) return GNUTLS_E_MEMORY_ERROR; s->prio = (void *)p; return 0; }
void gnutls_transport_set_ptr(gnutls_session_t s, gnutls_transport_ptr_t p) { if (ok(s, FG_SESS)) s->ptr = p; }
void gnutls_transport_set_pull_function(gnutls_session_t s, gnutls_pull_func f) { if (ok(s, FG_SESS)) s->pull = f; }
void gnutls_transport_set_push_function(gnutls_session_t s, gnutls_push_func f) { if (ok(s, FG_SESS)) s->push = f; }
void gnutls_transport_set_pull_timeout_function(gnutls_session_t s, gnutls_pull_timeout_func f) { if (ok(s, FG_SESS)) s->pullto = f; }
void gnutls_transport_set_errno(gnutls_session_t s, int e) { errno = e; }
void gnutls_dtls_set_mtu(gnutls_session_t s, unsigned m) { ok(s, FG_SESS); }
void gnutls_dtls_set_timeouts(gnutls_session_t s, unsigned a, unsigned b) { ok(s, FG_SESS); }
unsigned gnutls_dtls_get_timeout(gnutls_session_t s) { ok(s, FG_SESS); return 1000; }
void gnutls_certificate_server_set_request(gnutls_session_t s, gnutls_certificate_request_t r) { if (ok(s, FG_SESS)) s->request = r == GNUTLS_CERT_REQUIRE; }
static int established(gnutls_session_t s) { s->open = 1; if ((s->flags & GNUTLS_SERVER) && !s->request) s->cert = 1; return GNUTLS_E_SUCCESS; }
static int resume(gnutls_session_t s);
int gnutls_handshake(gnutls_session_t s)
{
    unsigned char b[2048]; ssize_t n;
    if (!ok(s, FG_SESS)) return GNUTLS_E_INVALID_REQUEST;
    if (!s->cred || !s->prio || s->cred->magic != MG || s->prio->magic != MG) { fg_misuse++; return GNUTLS_E_INSUFFICIENT_CREDENTIALS; }
    if (fg_stream_hs) { int r = fg_stream_hs(s->ptr); if (r == 0) { resume(s); return established(s); } if (r == GNUTLS_E_WARNING_ALERT_RECEIVED) s->alert = fg_alert; return r; }
    if (!s->push || !s->pull || !s->ptr) { fg_misuse++; return GNUTLS_E_INVALID_REQUEST; }
    if (fg_hs)
    {
        int c = *fg_hs ? *fg_hs++ : 'A';
        if (fg_on_hs) fg_on_hs(c);
        switch (c)
        {
        case 'S': return established(s);
        case 'T': return GNUTLS_E_TIMEDOUT;
        case 'F': s->alert = 40; return GNUTLS_E_FATAL_ALERT_RECEIVED;
        case 'W': s->alert = 41; return GNUTLS_E_WARNING_ALERT_RECEIVED;
        case 'E': return GNUTLS_E_DECRYPTION_FAILED;
        case 'I': errno = ECONNREFUSED; return GNUTLS_E_PULL_ERROR;
        default: errno = EAGAIN; return GNUTLS_E_AGAIN;
        }
    }
    if (fg_mode == 0) return established(s);
    for (;;)
    {
        n = s->pull(s->ptr, b, sizeof b);
        if (n < 0) return errno == EAGAIN ? GNUTLS_E_AGAIN : GNUTLS_E_PULL_ERROR;
        if (n == 2 && b[0] == 21) { s->alert = b[1]; return b[1] == 1 ? GNUTLS_E_WARNING_ALERT_RECEIVED : GNUTLS_E_FATAL_ALERT_RECEIVED; }
        if (n == 3 && b[0] == 22 && b[1] == s->flight)
        {
            unsigned char r[2] = {22, b[1]};
            if (s->push(s->ptr, r, 2) < 0) return GNUTLS_E_PUSH_ERROR;
            s->cert = b[2] % FG_NCERTS;
            if (s->flight++ == fg_flights) return established(s);
            continue;
        }
        return GNUTLS_E_AGAIN;                  /* dropped */
    }
}
int gnutls_rehandshake(gnutls_session_t s) { return ok(s, FG_SESS) && (s->flags & GNUTLS_SERVER) && !no() ? 0 : GNUTLS_E_INVALID_REQUEST; }
gnutls_kx_algorithm_t gnutls_kx_get(gnutls_session_t s) { return 1; }
gnutls_cipher_algorithm_t gnutls_cipher_get(gnutls_session_t s) { return 1; }
gnutls_mac_algorithm_t gnutls_mac_get(gnutls_session_t s) { return 1; }
const char *gnutls_cipher_suite_get_name(gnutls_kx_algorithm_t k, gnutls_cipher_algorithm_t c, gnutls_mac_algorithm_t m) { return NULL; }
gnutls_alert_description_t gnutls_alert_get(gnutls_session_t s) { ok(s, FG_SESS); return s->alert; }
const char *gnutls_alert_get_name(gnutls_alert_description_t a) { return "alert"; }
int gnutls_alert_send(gnutls_session_t s, gnutls_alert_level_t l, gnutls_alert_description_t d) { return ok(s, FG_SESS) ? 0 : -1; }
ssize_t gnutls_record_send(gnutls_session_t s, const void *b, size_t n)
{
    unsigned char w[4096]; ssize_t r;
    if (!ok(s, FG_SESS)) return GNUTLS_E_INVALID_REQUEST;
    if (!s->open) { fg_misuse++; return GNUTLS_E_INVALID_SESSION; }
    if (fg_stream_send) return fg_stream_send(s->ptr, b, n);
    if (fg_mode == 0) { r = s->push(s->ptr, b, n); return r < 0 ? GNUTLS_E_PUSH_ERROR : r; }
    if (n > sizeof w - 1) return GNUTLS_E_LARGE_PACKET;
    w[0] = 23; memcpy(w + 1, b, n);
    r = s->push(s->ptr, w, n + 1);
    return r < 0 ? GNUTLS_E_PUSH_ERROR : (ssize_t)n;
}
ssize_t gnutls_record_recv(gnutls_session_t s, void *b, size_t n)
{
    unsigned char w[4096]; ssize_t r;
    if (!ok(s, FG_SESS)) return GNUTLS_E_INVALID_REQUEST;
    if (!s->open) { fg_misuse++; return GNUTLS_E_INVALID_SESSION; }
    if (fg_stream_recv) return fg_stream_recv(s->ptr, b, n);
    for (;;)
    {
        r = s->pull(s->ptr, w, sizeof w);
        if (r < 0) return errno == EAGAIN ? GNUTLS_E_AGAIN : GNUTLS_E_PULL_ERROR;
        if (r == 0) continue;
        if (fg_mode == 0) { if (r > (ssize_t)n) r = n; memcpy(b, w, r); return r; }
        if (w[0] == 23 && r > 1) { r--; if (r > (ssize_t)n) r = n; memcpy(b, w + 1, r); return r; }
        if (w[0] == 21 && r == 2) { s->alert = w[1]; return w[1] == 0 ? 0 : w[1] == 1 ? GNUTLS_E_WARNING_ALERT_RECEIVED : GNUTLS_E_FATAL_ALERT_RECEIVED; }
        if (w[0] == 20) return GNUTLS_E_DECRYPTION_FAILED;
        return GNUTLS_E_AGAIN;                  /* dropped */
    }
}
size_t __attribute__((weak)) gnutls_record_check_pending(gnutls_session_t s) { return 0; }
int gnutls_bye(gnutls_session_t s, gnutls_close_request_t how)
{
    if (!ok(s, FG_SESS)) return GNUTLS_E_INVALID_REQUEST;
    if (fg_stream_bye) return fg_stream_bye(s->ptr);
    fg_byes++;
    if (fg_mode == 1) { unsigned char a[2] = {21, 0}; s->push(s->ptr, a, 2); }
    return 0;
}
/* certificates */
static fg_cert_t *fact(gnutls_session_t s) { return &fg_certs[s->cert]; }
int gnutls_certificate_verify_peers2(gnutls_session_t s, unsigned *st) { if (!ok(s, FG_SESS)) return -1; *st = fact(s)->status; if (!s->open) { fg_misuse++; return -1; } return fact(s)->verify; }
int gnutls_certificate_verify_peers3(gnutls_session_t s, const char *h, unsigned *st) { int r = gnutls_certificate_verify_peers2(s, st); if (h && strcmp(h, fact(s)->cn)) *st |= GNUTLS_CERT_UNEXPECTED_OWNER | GNUTLS_CERT_INVALID; return r; }
gnutls_certificate_type_t gnutls_certificate_type_get(gnutls_session_t s) { return ok(s, FG_SESS) ? fact(s)->type : 0; }
const gnutls_datum_t *gnutls_certificate_get_peers(gnutls_session_t s, unsigned *n)
{
    static gnutls_datum_t d[2]; static unsigned char b[2];
    if (!ok(s, FG_SESS) || !fact(s)->peers) { *n = 0; return NULL; }
    b[0] = s->cert; b[1] = 0; d[0].data = b; d[0].size = 1; d[1].data = b + 1; d[1].size = 1; *n = 2;     /* the leaf, and its issuer */
    return d;
}
int gnutls_x509_crt_init(gnutls_x509_crt_t *c) { if (fg_mode == 0 && no()) return GNUTLS_E_MEMORY_ERROR; *c = mk(FG_CRT, sizeof(struct x)); ((struct x *)*c)->cert = -1; return 0; }
void gnutls_x509_crt_deinit(gnutls_x509_crt_t c) { rm(c, FG_CRT); }
int gnutls_x509_crt_import(gnutls_x509_crt_t c, const gnutls_datum_t *d, gnutls_x509_crt_fmt_t f)
{
    if (!ok(c, FG_CRT)) return -1;
    if (fg_certs[d->data[0]].import) return fg_certs[d->data[0]].import;
    ((struct x *)c)->cert = d->data[0]; return 0;
}
static fg_cert_t *xf(gnutls_x509_crt_t c) { if (!ok(c, FG_CRT) || ((struct x *)c)->cert < 0) { fg_misuse++; return &fg_certs[7]; } return &fg_certs[((struct x *)c)->cert]; }
time_t gnutls_x509_crt_get_expiration_time(gnutls_x509_crt_t c) { long e = xf(c)->exp; return e == 9999999 ? -1 : fg_now() + e; }
time_t gnutls_x509_crt_get_activation_time(gnutls_x509_crt_t c) { long e = xf(c)->act; return e == 9999999 ? -1 : fg_now() + e; }
unsigned gnutls_x509_crt_check_hostname(gnutls_x509_crt_t c, const char *h) { return strcmp(xf(c)->cn, h) == 0; }
/* session data, for resumption */
void gnutls_db_set_ptr(gnutls_session_t s, void *p) { if (ok(s, FG_SESS)) s->db = p; }
void gnutls_db_set_store_function(gnutls_session_t s, gnutls_db_store_func f) { if (ok(s, FG_SESS)) s->store = f; }
void gnutls_db_set_retrieve_function(gnutls_session_t s, gnutls_db_retr_func f) { if (ok(s, FG_SESS)) s->retr = f; }
void gnutls_db_set_remove_function(gnutls_session_t s, gnutls_db_remove_func f) { if (ok(s, FG_SESS)) s->del = f; }
static void *bufs[4096]; static int nbufs;
static void *balloc(size_t n) { void *p = malloc(n ? n : 1); if (nbufs == 4096) abort(); bufs[nbufs++] = p; return p; }
static void bfree(void *p) { if (!p) return; for (int i = 0; i < nbufs; i++) if (bufs[i] == p) { bufs[i] = bufs[--nbufs]; free(p); return; } fg_misuse++; }
int fg_bufs(void) { return nbufs; }
gnutls_alloc_function gnutls_malloc = balloc;
gnutls_free_function gnutls_free = bfree;
int gnutls_session_get_data2(gnutls_session_t s, gnutls_datum_t *d)
{
    d->data = NULL; d->size = 0;
    if (!ok(s, FG_SESS)) return -1;
    return fg_stream_data ? fg_stream_data(d) : GNUTLS_E_INTERNAL_ERROR;
}
int gnutls_session_set_data(gnutls_session_t s, const void *b, size_t n)
{
    if (!ok(s, FG_SESS)) return -1;
    if (no()) return GNUTLS_E_DB_ERROR;
    if (fg_stream_resume) fg_stream_resume(b, n);
    return 0;
}
int gnutls_session_is_resumed(gnutls_session_t s) { return 0; }
/* what a server does with its store of sessions during a handshake */
static int resume(gnutls_session_t s)
{
    gnutls_datum_t key, data, r;
    if (!(s->flags & GNUTLS_SERVER)) return 0;
    if (!s->db || !s->store || !s->retr || !s->del) { fg_misuse++; return 0; }
    if (!fg_stream_key || !fg_stream_key(&key, &data)) return 0;
    r = s->retr(s->db, key);
    fg_stream_db(1, &r, 0);
    if (r.data) { bfree(r.data); return 0; }
    fg_stream_db(0, &data, s->store(s->db, key, data));
    return 0;
}
