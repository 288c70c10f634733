/* demonstration client: cli PORT get|con|non|down CAP | up BODY
 * prints RET <n> CODE <c>.<dd> PL <payload or body> */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "coap_mem.h"
#include "coap_log.h"
#include "coap_client.h"
int main(int c, char **v)
{
    coap_client_t cl; coap_msg_t q, r; long ret; static char body[4096]; size_t n = 0, i;
    coap_log_set_level(COAP_LOG_ERROR);
    if (coap_mem_all_create(64, 64, 64, 1280, 8, 64) < 0) return 3;
    if (coap_client_create(&cl, "127.0.0.1", v[1]) < 0) return 3;
    coap_msg_create(&q); coap_msg_create(&r);
    coap_msg_set_type(&q, strcmp(v[2], "non") == 0 ? COAP_MSG_NON : COAP_MSG_CON);
    coap_msg_add_op(&q, COAP_MSG_URI_PATH, 1, "r");
    if (strcmp(v[2], "down") == 0)
    {
        char *b = malloc(atoi(v[3]));
        coap_msg_set_code(&q, COAP_MSG_REQ, COAP_MSG_GET);
        ret = coap_client_exchange_blockwise(&cl, &q, &r, 32, 32, b, atoi(v[3]), 0);
        if (ret > 0) { n = ret; memcpy(body, b, n); }
    }
    else if (strcmp(v[2], "up") == 0)
    {
        coap_msg_set_code(&q, COAP_MSG_REQ, COAP_MSG_PUT);
        ret = coap_client_exchange_blockwise(&cl, &q, &r, 64, 64, strdup(v[3]), strlen(v[3]), 0);
    }
    else
    {
        coap_msg_set_code(&q, COAP_MSG_REQ, COAP_MSG_GET);
        ret = coap_client_exchange(&cl, &q, &r);
        n = coap_msg_get_payload_len(&r); if (n) memcpy(body, coap_msg_get_payload(&r), n);
    }
    (void)c;
    printf("RET %ld CODE %u.%02u PL ", ret, coap_msg_get_code_class(&r), coap_msg_get_code_detail(&r));
    for (i = 0; i < n; i++) putchar(body[i]);
    putchar('\n');
    return 0;
}
