/* Harness for the registrar of the registration server: add <id> <addr> | del <id> | find <id> | list */
#include "common.h"
#include "heap.h"
#include "registrar.h"
static char *txt(const char *h) { size_t n; unsigned char *b = unhexdup(h, &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); return s; }
void run_scenario(char **lines, int n)
{
    long live = heap_live; registrar_t r; registrar_create(&r);
    for (int i = 0; i < n; i++)
    {
        char *tok[8] = {0}; int k = split(lines[i], tok, 8); char *a = k > 1 ? txt(tok[1]) : NULL, *b = k > 2 ? txt(tok[2]) : NULL;
        if (k == 0) continue;
        if (!strcmp(tok[0], "add")) { int v = registrar_add(&r, a, b); jopen("add"); jstr("id", a); jstr("addr", b); jint("ret", v); jclose(); }
        else if (!strcmp(tok[0], "del")) { int v = registrar_del(&r, a); jopen("del"); jstr("id", a); jint("ret", v); jclose(); }
        else if (!strcmp(tok[0], "find")) { registrar_entry_t *e = registrar_find(&r, a); jopen("find"); jstr("id", a); jstr("addr", e ? registrar_entry_get_addr(e) : NULL); jclose(); }
        else
        {
            jopen("list"); fputs(",\"all\":[", TR); int first = 1, c = 0;
            for (registrar_entry_t *e = registrar_get_first(&r); e && c < 1000; e = registrar_entry_get_next(e), c++)
            { fputs(first ? "{\"x\":0" : ",{\"x\":0", TR); first = 0; jstr("id", registrar_entry_get_id(e)); jstr("addr", registrar_entry_get_addr(e)); fputc('}', TR); }
            fputs("],\"back\":[", TR); first = 1; c = 0;
            for (registrar_entry_t *e = registrar_get_last(&r); e && c < 1000; e = registrar_entry_get_prev(e), c++)
            { fputs(first ? "{\"x\":0" : ",{\"x\":0", TR); first = 0; jstr("id", registrar_entry_get_id(e)); fputc('}', TR); }
            fputc(']', TR); jclose();
        }
        free(a); free(b);
    }
    registrar_destroy(&r);
    jopen("fin"); jint("leak", heap_live > live); jclose();
}
