/* Creating and destroying clients and servers of the DTLS build:
 *   client|server <key> <cert> <trust> <crl> <name> <certificate> <handshake> <failing call> <zero> <failing system call>
 *   where - is NULL and @ an empty string */
#include "common.h"
#include "vnet.h"
#include "fgnutls.h"
#include "coap_client.h"
#include "coap_server.h"
#include "coap_log.h"
#include <arpa/inet.h>
static char **L; static int NL, refused;
static char hs[256]; static int nhs;
static char loaded[4096];
void vn_on_fd(int what, int fd) { if (what == 2) refused = 1; }
void vn_on_wait(int a) {}
void vn_on_send(int fd, const struct sockaddr *dst, const void *b, size_t n, int failed) {}
void vn_on_recv(int fd, const struct sockaddr *src, const void *b, size_t n) {}
void vn_on_stuck(int a, const char *w) {}
long vn_script_next(void) { return -1; }
void vn_script_fire(void) {}
long fg_now(void) { return vn_now / 1000; }
void fg_on_hs(int c) { if (nhs < 250) hs[nhs++] = c; }
void fg_on_load(const char *kind, const char *f) { sprintf(loaded + strlen(loaded), "%s{\"k\":\"%s\",\"f\":\"%s\"}", loaded[0] ? "," : "", kind, f); }
static int handle(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp) { return 0; }
static const char *arg(const char *s) { return *s == '-' ? NULL : *s == '@' ? "" : s; }
static void counts(void)
{
    fprintf(TR, ",\"live\":[%ld,%ld,%ld,%ld,%ld,%ld],\"fds\":%d,\"misuse\":%d,\"byes\":%d", fg_live[0], fg_live[1], fg_live[2], fg_live[3], fg_live[4], fg_live[5],
            vn_open_fds(), fg_misuse, fg_byes);
}
static void jname(const char *k, const char *s) { if (s && *s) fprintf(TR, ",\"%s\":[\"%s\"]", k, s); else fprintf(TR, ",\"%s\":[]", k); }
static void *agent(void *p)
{
    static coap_client_t c; static coap_server_t s;
    for (int i = 0; i < NL; i++)
    {
        char *tok[16]; char *l = strdup(L[i]); int k = split(l, tok, 16), ret, cl; long t0 = vn_now;
        if (k < 11) abort();
        cl = tok[0][0] == 'c'; nhs = 0; loaded[0] = 0; refused = 0; fg_failed = 0; fg_misuse = 0; fg_byes = 0;
        fg_cert = atoi(tok[6]); fg_hs = tok[7]; fg_failzero = atoi(tok[9]);
        fg_failat = 0; if (atoi(tok[8])) fg_fail(atoi(tok[8]));
        vn_sysfail = 0; if (atoi(tok[10])) vn_sys_fail(atoi(tok[10]));
        if (cl) ret = coap_client_create(&c, "127.0.0.1", "5684", arg(tok[1]), arg(tok[2]), arg(tok[3]), arg(tok[4]), arg(tok[5]));
        else ret = coap_server_create(&s, handle, "0.0.0.0", "5684", arg(tok[1]), arg(tok[2]), arg(tok[3]), arg(tok[4]));
        vn_sysfail = 0; fg_failat = 0;
        jopen("create"); jint("client", cl); jint("ret", ret); jint("failed", fg_failed || refused); jint("dt", vn_now - t0);
        fputs(",\"hs\":[", TR); for (int j = 0; j < nhs; j++) fprintf(TR, "%s\"%c\"", j ? "," : "", hs[j]); fputc(']', TR);
        fg_jcert(fg_cert); jname("key", arg(tok[1])); jname("crt", arg(tok[2])); jname("trust", arg(tok[3])); jname("crl", arg(tok[4])); jname("name", arg(tok[5]));
        fprintf(TR, ",\"loaded\":[%s]", loaded); counts(); jclose();
        if (ret >= 0)
        {
            if (cl) coap_client_destroy(&c); else coap_server_destroy(&s);
            jopen("destroy"); jint("client", cl); counts(); jclose();
        }
        free(l);
    }
    return NULL;
}
void run_scenario(char **lines, int n)
{
    L = lines; NL = n;
    coap_log_set_level(getenv("VLOG") ? 7 : 0);
    if (coap_mem_all_create(64, 64, 64, 1280, 8, 8) < 0) abort();
    vn_spawn(agent, NULL);
    vn_loop();
    coap_mem_all_destroy();
}
