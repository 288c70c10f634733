/* demonstration server: srv PORT LARGELEN
 *   any path        2.05 with the number of handler calls so far
 *   sep             the same, as a separate response
 *   up              blockwise upload (32 byte blocks); the body received is appended to stdout
 *   down            blockwise download (64 byte blocks) of 200 bytes */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "coap_mem.h"
#include "coap_log.h"
#include "coap_server.h"
static int calls;
static int rx(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    printf("BODY %.*s\n", (int)coap_server_trans_get_body_end(t), coap_server_trans_get_body(t)); fflush(stdout);
    coap_server_trans_set_body_end(t, 0);
    (void)req;
    return coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CHANGED);
}
static int handler(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    char path[512] = "", body[200], n[32]; int i;
    coap_msg_uri_path_to_str(req, path, sizeof path);
    if (strncmp(path, "/up", 3) == 0) return coap_server_trans_handle_blockwise(t, req, resp, 32, 32, NULL, 0, rx);
    if (strcmp(path, "/down") == 0)
    {
        for (i = 0; i < 200; i++) body[i] = 'a' + i % 26;
        return coap_server_trans_handle_blockwise(t, req, resp, 64, 64, body, 200, NULL);
    }
    sprintf(n, "%d", ++calls);
    coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CONTENT);
    return coap_msg_set_payload(resp, n, strlen(n));
}
int main(int c, char **v)
{
    coap_server_t s;
    (void)c;
    coap_log_set_level(COAP_LOG_ERROR);
    if (coap_mem_all_create(64, 64, 64, 1280, 16, atoi(v[2])) < 0) return 3;
    if (coap_server_create(&s, handler, "0.0.0.0", v[1]) < 0) return 3;
    if (coap_server_add_sep_resp_uri_path(&s, "/sep") < 0) return 3;
    printf("READY\n"); fflush(stdout);
    return coap_server_run(&s) < 0;
}
