import os
H = os.path.join(os.path.dirname(os.path.abspath(__file__ if "__file__" in globals() else ".")), "..", "..", "harness")
SRV, CLI = "lib/src/coap_server.c", "lib/src/coap_client.c"
TLS, SOCK = "proxy/common/src/tls.c", "proxy/common/src/tls_sock.c"
SEEDS = []
FG = {n: open(os.path.join(H, n)).read() for n in ("fgnutls.c", "fgnutls.h", "common.h")}
PXF = '["-DTLS_CLIENT_AUTH", "-Iproxy/common/include", "-I" + HERE]'
PXS = '[os.path.join(HERE, "fgnutls.c"), "proxy/common/src/tls_sock.c", "proxy/common/src/tls.c", "proxy/common/src/sock.c", "proxy/common/src/util.c", "lib/src/coap_log.c", "-lpthread"]'
DTF = '["-DCOAP_DTLS_EN", "-DCOAP_CLIENT_AUTH", "-I" + HERE]'


def S(id, property, needs, breaks, edits, demo, files, kit=("kit.py",)):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo="from kit import *\n" + demo, kit=kit, files=dict(FG, **files)))


def T(id, property, needs, breaks, edits, code, srcs=PXS, flags=PXF, what="demonstration"):
    S(id, property, needs, breaks, edits, '''
b = build("t", "t.c", %s, %s)
check(subprocess.call([b], stderr=subprocess.DEVNULL, timeout=60) == 0, "%s")
''' % (srcs, flags, what), {"t.c": code})


HEAD = r'''#include <string.h>
#include <time.h>
#include "common.h"
#include "fgnutls.h"
#include "tls_sock.h"
#include "coap_log.h"
FILE *TR;
long fg_now(void) { return time(NULL); }
static tls_client_t cl; static tls_server_t sv;
static int init(void) { coap_log_set_level(0); return tls_init() || tls_client_create(&cl, "t", "c", "k") || tls_server_create(&sv, "t", "c", "k"); }
static gnutls_datum_t D(void *p, int n) { gnutls_datum_t d = {p, n}; return d; }
'''

T("S35-prefix-session-id", "P31", "a session ID that is the beginning of a stored one",
  "a look-up finds the session of another, longer ID", [
      (TLS, '''        if ((key.size == cache->element[i].session_id_size)
         && (memcmp(key.data, cache->element[i].session_id, key.size) == 0))
        {
            res.size''', '''        if ((key.size <= cache->element[i].session_id_size)
         && (memcmp(key.data, cache->element[i].session_id, key.size) == 0))
        {
            res.size''')], HEAD + r'''
int main(void)
{
    if (init()) return 2;
    if (tls_server_set(&sv, D("abcdefgh", 8), D("data", 4))) return 2;
    if (tls_server_get(&sv, D("abcdefgh", 8)).size != 4) return 1;
    return tls_server_get(&sv, D("abcdefg", 7)).data != NULL;
}
''', what="only the very session ID finds a session")

T("S36-shorter-session", "P31", "a session stored for an address that had a longer one",
  "the tail of the old session is offered with the new one", [
      (TLS, '''    memcpy(cache->element[i].session_data, data.data, data.size);
    cache->element[i].session_data_size = data.size;

    return SOCK_OK;
}

static gnutls_datum_t tls_client_cache_get''', '''    memcpy(cache->element[i].session_data, data.data, data.size);
    if (!found || (data.size > cache->element[i].session_data_size))
    {
        cache->element[i].session_data_size = data.size;
    }

    return SOCK_OK;
}

static gnutls_datum_t tls_client_cache_get''')], HEAD + r'''
int main(void)
{
    if (init()) return 2;
    tls_client_set(&cl, "10.0.0.1", D("longer data", 11)); tls_client_set(&cl, "10.0.0.1", D("short", 5));
    return tls_client_get(&cl, "10.0.0.1").size != 5;
}
''', what="a look-up gives what was stored last")

STREAM = HEAD + r'''
#include <sys/socket.h>
#include <netinet/in.h>
#include <pthread.h>
#include <sys/wait.h>
static const char *rx = "", *bye = ""; static int slow;
int fg_stream_hs(void *p) { return 0; }
ssize_t fg_stream_recv(void *p, void *b, size_t n) { char c; recv((int)(long)p, &c, 1, 0); return *rx && *rx++ == 'A' ? GNUTLS_E_AGAIN : 1; }
ssize_t fg_stream_send(void *p, const void *b, size_t n) { return n; }
int fg_stream_bye(void *p) { switch (*bye ? *bye++ : 'S') { case 'A': return GNUTLS_E_AGAIN; case 'I': return GNUTLS_E_INTERRUPTED; case 'E': return GNUTLS_E_PREMATURE_TERMINATION; } return 0; }
int fg_stream_data(gnutls_datum_t *d) { d->size = 5; d->data = gnutls_malloc(5); memcpy(d->data, "12345", 5); return 0; }
static int ls, as;
static int open_(tls_sock_t *s, const char *name, int timeout)
{
    struct sockaddr_in a = {0}; socklen_t n = sizeof a; int r;
    ls = socket(AF_INET, SOCK_STREAM, 0); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(ls, (void *)&a, sizeof a) || listen(ls, 1) || getsockname(ls, (void *)&a, &n)) exit(2);
    r = tls_sock_open_from_sockaddr_in(s, &cl, name, timeout, &a);
    as = accept(ls, NULL, NULL); return r;
}
'''
T("S37-one-sided-close", "P31", "a close interrupted before the peer's close alert came",
  "the session of a connection that was not closed in order is kept and offered again", [
      (SOCK, '''        if (ret == GNUTLS_E_INTERRUPTED)
        {
            break;
        }
        if (ret != GNUTLS_E_AGAIN)
        {
            break;
        }
        FD_ZERO(&readfds);''', '''        if (ret == GNUTLS_E_INTERRUPTED)
        {
            success = 1;
            break;
        }
        if (ret != GNUTLS_E_AGAIN)
        {
            break;
        }
        FD_ZERO(&readfds);''')], STREAM + r'''
int main(void)
{
    tls_sock_t s;
    if (init() || open_(&s, NULL, 2)) return 2;
    bye = "I"; tls_sock_close(&s);
    if (tls_client_get(&cl, "127.0.0.1").size) return 1;
    if (open_(&s, NULL, 2)) return 2;
    bye = "S"; tls_sock_close(&s);
    return tls_client_get(&cl, "127.0.0.1").size != 5;
}
''', what="only an orderly close leaves a session")

T("S38-deadline-restarts", "P30", "a peer that keeps sending incomplete records",
  "each wake-up starts the timeout of a read anew", [
      (SOCK, '''    tv.tv_sec = s->timeout;
    tv.tv_usec = 0;
    while (1)
    {
        num = gnutls_record_recv''', '''    while (1)
    {
        tv.tv_sec = s->timeout;
        tv.tv_usec = 0;
        num = gnutls_record_recv''')], STREAM + r'''
static void *drip(void *p) { for (;;) { struct timespec t = {0, 250000000}; nanosleep(&t, NULL); send(as, "x", 1, MSG_NOSIGNAL); } return NULL; }
int main(void)
{
    tls_sock_t s; pthread_t t; char b[8]; time_t t0; long r;
    if (init() || open_(&s, NULL, 1)) return 2;
    pthread_create(&t, NULL, drip, NULL);
    rx = "AAAAAAAAAAAAAAAAAAAA"; t0 = time(NULL); r = tls_sock_read(&s, b, 8);
    return r != SOCK_TIMEOUT || time(NULL) - t0 > 3;
}
''', what="a read ends within its timeout")

T("S39-certificate-leaks", "P30", "a peer whose certificate cannot be parsed",
  "the certificate object is not released", [
      (SOCK, '''        coap_log_error("Unable to parse certificate");
        gnutls_x509_crt_deinit(cert);
        return''', '''        coap_log_error("Unable to parse certificate");
        return''')], STREAM + r'''
int main(void)
{
    tls_sock_t s; int i;
    if (init()) return 2;
    for (i = 0; i < FG_NCERTS; i++)
    {
        fg_cert = i;
        if (open_(&s, "peer", 2) == 0) tls_sock_close(&s);
        close(as); close(ls);
        if (fg_live[FG_CRT] || fg_live[FG_SESS]) return 1;
    }
    return 0;
}
''', what="nothing is left of a refused peer")

T("S40-not-yet-valid", "P28", "a server certificate that becomes valid later",
  "the validity period is tested against the wrong end: a certificate not yet valid is accepted", [
      (CLI, '''    if ((activation_time == -1) || (activation_time > current_time))''',
       '''    if ((activation_time == -1) || (activation_time > expiration_time))''')], r'''#include <string.h>
#include <time.h>
#include "common.h"
#include "fgnutls.h"
#include "coap_client.h"
#include "coap_mem.h"
#include "coap_log.h"
FILE *TR;
long fg_now(void) { return time(NULL); }
int main(void)
{
    coap_client_t c; int i, r; long v = time(NULL);
    coap_log_set_level(0); coap_mem_all_create(16, 64, 16, 1280, 8, 64);
    fg_certs[9].act = 500;
    for (i = 0; i < FG_NCERTS; i++)
    {
        fg_cert = i; r = coap_client_create(&c, "127.0.0.1", "5684", "k", "c", "t", "", "peer");
        if (i == 0 && r < 0 || i == 9 && r >= 0) return 1;
        if (r >= 0) coap_client_destroy(&c);
    }
    return 0;
}
''', srcs='LIB + ["lib/src/coap_client.c", os.path.join(HERE, "fgnutls.c")]', flags=DTF, what="no client for a server whose certificate is not valid yet")

S("S41-handshake-of-a-neighbour", "P28", "two endpoints of one host, one of which sends during the other's handshake",
  "datagrams of another port of the same host are taken for those of the endpoint whose handshake is under way", [
      (SRV, '''    if ((client_sin_len != trans->client_sin_len)
     || (memcmp(&client_sin, &trans->client_sin, trans->client_sin_len) != 0))
    {
        errno = EINVAL;
        return -1;
    }
    num = recvfrom''', '''    if ((client_sin_len != trans->client_sin_len)
     || (memcmp(&client_sin.COAP_IPV_SIN_ADDR, &trans->client_sin.COAP_IPV_SIN_ADDR, sizeof(client_sin.COAP_IPV_SIN_ADDR)) != 0))
    {
        errno = EINVAL;
        return -1;
    }
    num = recvfrom''')], r'''
b = build("t", "t.c", LIB + ["lib/src/coap_server.c", os.path.join(HERE, "fgnutls.c")], %s)
port = freeport()
p = subprocess.Popen([b, str(port)], stderr=subprocess.DEVNULL); PROCS.append(p)
time.sleep(1)
A, B = [socket.socket(socket.AF_INET, socket.SOCK_DGRAM) for _ in "ab"]
for s in (A, B):
    s.settimeout(1); s.connect(("127.0.0.1", port))
def answer(s, d):
    s.send(d)
    try:
        return s.recv(2048)
    except OSError:
        return b""
req = bytes([23, 0x40, 1, 0, 1])
# in order, the handshake works
check(answer(A, bytes([22, 1, 0])) == bytes([22, 1]), "first flight")
check(answer(A, bytes([22, 2, 0])) == bytes([22, 2]), "second flight")
check(answer(A, req)[:1] == bytes([23]), "request")
A.close()
A = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); A.settimeout(1); A.connect(("127.0.0.1", port))
check(answer(A, bytes([22, 1, 0])) == bytes([22, 1]), "first flight")
B.send(bytes([22, 2, 0])); time.sleep(0.3)
got = answer(A, req)
while got and got[0] == 22:
    try:
        got = A.recv(2048)
    except OSError:
        got = b""
check(got[:1] != bytes([23]), "no session without the endpoint's own handshake")
''' % DTF, {"t.c": r'''#include <string.h>
#include <time.h>
#include "common.h"
#include "fgnutls.h"
#include "coap_server.h"
#include "coap_mem.h"
#include "coap_log.h"
FILE *TR;
long fg_now(void) { return time(NULL); }
static int handle(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp) { return coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CONTENT); }
int main(int c, char **v)
{
    coap_server_t s;
    coap_log_set_level(0); coap_mem_all_create(16, 64, 16, 1280, 8, 64); fg_mode = 1; fg_flights = 2;
    if (coap_server_create(&s, handle, "127.0.0.1", v[1], "k", "c", "t", "") < 0) return 2;
    return coap_server_run(&s);
}
'''})
