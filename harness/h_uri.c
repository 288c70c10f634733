/* Harness for the URI library.
 *   parse <hex> | set <field> <hex> | copy | gen <cap>
 */
#include "common.h"
#include "uri.h"
static void fields(uri_t *u)
{
    jstr("scheme", uri_get_scheme(u)); jstr("userinfo", uri_get_userinfo(u)); jstr("host", uri_get_host(u)); jstr("port", uri_get_port(u));
    jstr("path", uri_get_path(u)); jstr("query", uri_get_query(u)); jstr("fragment", uri_get_fragment(u));
}
static char *txt(const char *h) { size_t n; unsigned char *b = unhexdup(h, &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); return s; }
void run_scenario(char **lines, int n)
{
    uri_t u; uri_create(&u);
    for (int i = 0; i < n; i++)
    {
        char *tok[8]; char *l = strdup(lines[i]); int k = split(l, tok, 8);
        if (k == 0) { free(l); continue; }
        if (strcmp(tok[0], "parse") == 0)
        {
            char *s = txt(tok[1]); int r = uri_parse(&u, s);
            jopen("parse"); jbytes("s", s, strlen(s)); jint("ret", r); free(s); fields(&u); jclose();
        }
        else if (strcmp(tok[0], "set") == 0)
        {
            char *s = txt(tok[2]), *f = tok[1]; int r = -1;
            if (!strcmp(f, "scheme")) r = uri_set_scheme(&u, s); else if (!strcmp(f, "userinfo")) r = uri_set_userinfo(&u, s);
            else if (!strcmp(f, "host")) r = uri_set_host(&u, s); else if (!strcmp(f, "port")) r = uri_set_port(&u, s);
            else if (!strcmp(f, "path")) r = uri_set_path(&u, s); else if (!strcmp(f, "query")) r = uri_set_query(&u, s);
            else if (!strcmp(f, "fragment")) r = uri_set_fragment(&u, s); else abort();
            jopen("set"); fprintf(TR, ",\"f\":\"%s\"", f); jbytes("s", s, strlen(s)); jint("ret", r); free(s); fields(&u); jclose();
        }
        else if (strcmp(tok[0], "copy") == 0)
        {
            /* copy, overwrite and destroy the original, go on with the copy */
            uri_t v; uri_create(&v); if (k > 1) uri_parse(&v, "x://y@z:1/a?b#c");
            int r = uri_copy(&v, &u);
            int indep = !((u.scheme && u.scheme == v.scheme) || (u.userinfo && u.userinfo == v.userinfo) || (u.host && u.host == v.host) || (u.port && u.port == v.port)
                          || (u.path && u.path == v.path) || (u.query && u.query == v.query) || (u.fragment && u.fragment == v.fragment));
            uri_destroy(&u); u = v;
            jopen("copy"); jint("ret", r); jint("indep", indep); fields(&u); jclose();
        }
        else if (strcmp(tok[0], "gen") == 0)
        {
            size_t cap = atoi(tok[1]); char *b = malloc(cap); memset(b, 0xEE, cap);
            size_t r = uri_generate(&u, b, cap);
            jopen("gen"); jint("cap", cap); jint("ret", r); jbytes("buf", b, cap); fields(&u); jclose();
            free(b);
        }
        else abort();
        free(l);
    }
    uri_destroy(&u);
}
