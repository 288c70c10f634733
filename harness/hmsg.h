/* Log the fields of an HTTP message; text arguments from hex. */
#ifndef HMSG_H
#define HMSG_H
#include "http_msg.h"
static void __attribute__((unused)) jarr(const char *s) { fputc('[', TR); for (size_t i = 0; s[i]; i++) fprintf(TR, i ? ",%u" : "%u", (unsigned char)s[i]); fputc(']', TR); }
static void __attribute__((unused)) hfields(http_msg_t *m, const char *bodykey)
{
    jstr("s1", http_msg_get_start(m, 0)); jstr("s2", http_msg_get_start(m, 1)); jstr("s3", http_msg_get_start(m, 2));
    fputs(",\"hdrs\":[", TR);
    int first = 1;
    for (http_msg_header_t *h = http_msg_get_first_header(m); h; h = http_msg_header_get_next(h))
    { fputs(first ? "{\"n\":" : ",{\"n\":", TR); first = 0; jarr(http_msg_header_get_name(h)); jstr("v", http_msg_header_get_value(h)); fputc('}', TR); }
    fputc(']', TR);
    jbytes(bodykey, http_msg_get_body(m), http_msg_get_body(m) ? http_msg_get_body_len(m) : 0);
}
static char * __attribute__((unused)) txt(const char *h) { size_t n; unsigned char *b = unhexdup(h, &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); return s; }
#endif
