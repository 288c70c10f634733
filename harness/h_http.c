/* Harness for the HTTP message library.
 *   parse <hex>            parse the bytes (in an exactly sized buffer)
 *   set <s1> <s2> <s3> <body|-> {<name> <value>}    build a message (all hex) and keep it
 *   gen <cap>              write the message to a buffer of cap bytes
 *   chunk <cap> <hex> / last <cap> / blank <cap> / trailer <cap> <name> <value>
 */
#include "common.h"
#include "hmsg.h"
#define fields(m) hfields(m, "body")
void run_scenario(char **lines, int n)
{
    http_msg_t m, g; http_msg_create(&m); http_msg_create(&g);
    for (int i = 0; i < n; i++)
    {
        static char *tok[256]; char *l = strdup(lines[i]); int k = split(l, tok, 256); size_t len;
        if (k == 0) { free(l); continue; }
        if (strcmp(tok[0], "parse") == 0)
        {
            unsigned char *d = unhexdup(tok[1], &len);
            ssize_t r = http_msg_parse(&m, (char *)d, len);
            jopen("parse"); jbytes("d", d, len); jint("ret", r); if (r > 0) fields(&m); jclose();
            free(d);
        }
        else if (strcmp(tok[0], "set") == 0)
        {
            http_msg_reset(&g);
            char *a = txt(tok[1]), *b = txt(tok[2]), *c = txt(tok[3]);
            http_msg_set_start(&g, a, b, c); free(a); free(b); free(c);
            for (int j = 5; j + 1 < k; j += 2) { a = txt(tok[j]); b = txt(tok[j + 1]); http_msg_set_header(&g, a, b); free(a); free(b); }
            if (tok[4][0] != '-') { unsigned char *d = unhexdup(tok[4], &len); http_msg_set_body(&g, (char *)d, len); free(d); }
        }
        else
        {
            size_t cap = atoi(tok[1]), r; char *b = malloc(cap); memset(b, 0xEE, cap);
            jopen(tok[0]); jint("cap", cap);
            if (strcmp(tok[0], "gen") == 0) { r = http_msg_generate(&g, b, cap); fields(&g); }
            else if (strcmp(tok[0], "chunk") == 0) { unsigned char *d = unhexdup(tok[2], &len); r = http_msg_generate_chunk(b, cap, (char *)d, len); jbytes("d", d, len); free(d); }
            else if (strcmp(tok[0], "last") == 0) r = http_msg_generate_last_chunk(b, cap);
            else if (strcmp(tok[0], "blank") == 0) r = http_msg_generate_blank_line(b, cap);
            else { char *x = txt(tok[2]), *y = txt(tok[3]); r = http_msg_generate_trailer(b, cap, x, y); jstr("n", x); jstr("v", y); free(x); free(y); }
            jint("ret", r); jbytes("buf", b, cap); jclose();
            free(b);
        }
        free(l);
    }
    http_msg_destroy(&m); http_msg_destroy(&g);
}
