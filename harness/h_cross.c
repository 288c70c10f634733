/* Harness for the HTTP/CoAP conversion.
 *   uri <hex> | uriof <datagram-hex> <cap> | req <hex of an HTTP message> <cap> | resp <datagram-hex> <body-hex>
 */
#include "common.h"
#include "hmsg.h"
#include "jmsg.h"
#include "cross.h"
void run_scenario(char **lines, int n)
{
    coap_mem_all_create(512, 256, 512, 1024, 8, 8192);
    for (int i = 0; i < n; i++)
    {
        char *tok[8]; char *l = strdup(lines[i]); int k = split(l, tok, 8); size_t len, blen;
        if (k == 0) { free(l); continue; }
        coap_msg_t m; coap_msg_create(&m);
        http_msg_t h; http_msg_create(&h);
        if (strcmp(tok[0], "uri") == 0)
        {
            char *s = txt(tok[1]); int r = cross_uri_http_to_coap(&m, s);
            jopen("uri"); jbytes("s", s, strlen(s)); jint("ret", r); jmsg("m", &m); jclose(); free(s);
        }
        else if (strcmp(tok[0], "uriof") == 0)
        {
            unsigned char *d = unhexdup(tok[1], &len); size_t cap = atoi(tok[2]);
            if (coap_msg_parse(&m, (char *)d, len) < 0) abort();
            char *b = malloc(cap); memset(b, 0xEE, cap);
            int r = cross_uri_coap_to_http(b, cap, &m);
            jopen("uriof"); jmsg("m", &m); jint("cap", cap); jint("ret", r); jbytes("buf", b, cap); jclose(); free(b); free(d);
        }
        else if (strcmp(tok[0], "req") == 0)
        {
            unsigned char *d = unhexdup(tok[1], &len); size_t cap = atoi(tok[2]), end = 0; unsigned code = 12345;
            if (http_msg_parse(&h, (char *)d, len) <= 0) abort();
            char *b = malloc(cap); memset(b, 0xEE, cap);
            int r = cross_req_http_to_coap(&m, b, cap, &end, &h, &code);
            jopen("req"); jbytes("d", d, len); jint("cap", cap); jint("ret", r); jint("code", code); jmsg("m", &m); jbytes("body", b, end); jclose(); free(b); free(d);
        }
        else if (strcmp(tok[0], "resp") == 0)
        {
            unsigned char *d = unhexdup(tok[1], &len), *b = unhexdup(tok[2], &blen); unsigned code = 12345;
            if (coap_msg_parse(&m, (char *)d, len) < 0) abort();
            http_msg_set_start(&h, "old", "old", "old"); http_msg_set_header(&h, "old", "x"); http_msg_set_body(&h, "zz", 2);
            int r = cross_resp_coap_to_http(&h, &m, (char *)b, blen, &code);
            jopen("resp"); jmsg("m", &m); jbytes("body", b, blen); jint("ret", r); jint("code", code); hfields(&h, "hbody"); jclose(); free(d); free(b);
        }
        else abort();
        coap_msg_destroy(&m); http_msg_destroy(&h); free(l);
    }
    coap_mem_all_destroy();
}
