/* Harness for configuration files.
 *   parse <hex> | set <sec> <name> <val> | self <sec> <name> (set an entry to the value got from it) | get <sec> <name>
 *   setfail <n> <sec> <name> <val>      the n-th allocation from here fails
 *   strerr <code> | param <hex of the file> | nofile
 */
#include "common.h"
#include "heap.h"
#include "config.h"
#include "param.h"
#include "coap_log.h"
static char *txt(const char *h) { size_t n; unsigned char *b = unhexdup(h, &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); return s; }
static int kw(const char *t)
{
    return !t ? 1 : strcasestr(t, "lexical") ? -3 : strcasestr(t, "syntax") ? -4 : strcasestr(t, "memory") ? -2 : strcasestr(t, "argument") ? -1 : strcasecmp(t, "ok") == 0 || strcasestr(t, "success") ? 0 : 1;
}
void run_scenario(char **lines, int n)
{
    coap_log_set_level(0);
    if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) abort();
    long live = heap_live; int m = 0;
    config_t c; config_create(&c);
    for (int i = 0; i < n; i++)
    {
        char *tok[8] = {0}; char *l = strdup(lines[i]); int k = split(l, tok, 8); char *a[4] = {0};
        m++;
        if (k == 0) { free(l); continue; }
        int o = strcmp(tok[0], "setfail") == 0 ? 2 : 1;
        if (strcmp(tok[0], "strerr")) for (int j = o; j < k; j++) a[j - o] = txt(tok[j]);
        if (!strcmp(tok[0], "parse"))
        {
            unsigned ln = 0, col = 0; int r = config_parse(&c, a[0], &ln, &col);
            jopen("parse"); jstr("s", a[0]); jint("ret", r); jint("line", ln); jint("col", col); jclose();
        }
        else if (!strcmp(tok[0], "reset")) { config_destroy(&c); config_create(&c); jopen("reset"); jclose(); }
        else if (!strcmp(tok[0], "set"))
        {
            int r = config_set(&c, a[0], a[1], a[2]);
            jopen("set"); jstr("sec", a[0]); jstr("name", a[1]); jstr("val", a[2]); jint("ret", r); jclose();
        }
        else if (!strcmp(tok[0], "self"))
        {
            const char *v = config_get(&c, a[0], a[1]);
            if (v) { char *w = strdup(v); int r = config_set(&c, a[0], a[1], v); jopen("set"); jstr("sec", a[0]); jstr("name", a[1]); jstr("val", w); jint("ret", r); jclose(); free(w); }
        }
        else if (!strcmp(tok[0], "setfail"))
        {
            heap_count = 0; heap_fail_from = atoi(tok[1]); heap_fail_to = heap_fail_from + 1; heap_on = 1;
            int r = config_set(&c, a[0], a[1], a[2]);
            heap_on = 0;
            jopen("setfail"); jstr("sec", a[0]); jstr("name", a[1]); jstr("val", a[2]); jint("ret", r); jclose();
        }
        else if (!strcmp(tok[0], "get"))
        {
            jopen("get"); jstr("sec", a[0]); jstr("name", a[1]); jstr("val", config_get(&c, a[0], a[1])); jclose();
        }
        else if (!strcmp(tok[0], "strerr"))
        {
            jopen("strerr"); jint("code", atoi(tok[1])); jint("kw", kw(config_strerr(atoi(tok[1])))); jclose();
        }
        else if (!strcmp(tok[0], "param") || !strcmp(tok[0], "nofile"))
        {
            char d[] = "/tmp/vfconfXXXXXX", f[64]; int nof = tok[0][0] == 'n';
            if (!mkdtemp(d)) abort();
            snprintf(f, sizeof(f), "%s/f", d);
            if (!nof) { FILE *o2 = fopen(f, "w"); fwrite(a[0], 1, strlen(a[0]), o2); fclose(o2); }
            param_t p, z; memset(&p, 0x5A, sizeof(p)); memset(&z, 0, sizeof(z));
            int r = param_create(&p, f);
            unlink(f); rmdir(d);
            jopen("param"); jstr("s", nof ? "" : a[0]); jint("nofile", nof); jint("ret", r); jint("cleared", memcmp(&p, &z, sizeof(p)) == 0 || r >= 0);
            if (r == 0)
            {
                jstr("port", p.port); jint("level", p.max_log_level);
                jstr("hkey", p.http_server_key_file_name); jstr("hcert", p.http_server_cert_file_name); jstr("htrust", p.http_server_trust_file_name);
                jstr("ckey", p.coap_client_key_file_name); jstr("ccert", p.coap_client_cert_file_name); jstr("ctrust", p.coap_client_trust_file_name);
                jstr("dhkey", "http_server_privkey.pem"); jstr("dhcert", "http_server_cert.pem"); jstr("dhtrust", "http_server_trust.pem");
                jstr("dckey", "coap_client_privkey.pem"); jstr("dccert", "coap_client_cert.pem"); jstr("dctrust", "coap_client_trust.pem");
                param_destroy(&p);
            }
            jclose();
        }
        else abort();
        for (int j = 0; j < 4; j++) free(a[j]);
        free(l);
    }
    config_destroy(&c);
    jopen("fin"); jint("leak", heap_live > live); jclose();
}
