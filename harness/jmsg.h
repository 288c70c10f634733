/* Log a message through its public accessors; pool usage through the public allocator calls. */
#ifndef JMSG_H
#define JMSG_H
#include "coap_msg.h"
#include "coap_mem.h"
static void __attribute__((unused)) jmsg(const char *key, coap_msg_t *m)
{
    coap_msg_op_t *op; int first = 1;
    fprintf(TR, ",\"%s\":{\"type\":%d,\"cls\":%d,\"det\":%d,\"mid\":%u", key, (int)coap_msg_get_type(m),
            (int)coap_msg_get_code_class(m), (int)coap_msg_get_code_detail(m), (unsigned)coap_msg_get_msg_id(m));
    jbytes("tok", coap_msg_get_token(m), coap_msg_get_token_len(m));
    fputs(",\"ops\":[", TR);
    for (op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op))
    {
        fprintf(TR, "%s{\"n\":%u", first ? "" : ",", coap_msg_op_get_num(op));
        jbytes("v", coap_msg_op_get_val(op), coap_msg_op_get_len(op));
        fputc('}', TR); first = 0;
    }
    fputc(']', TR);
    jbytes("pl", coap_msg_get_payload(m), coap_msg_get_payload(m) ? coap_msg_get_payload_len(m) : 0);
    fputc('}', TR);
}
#define POOL_USED(NAME) static long __attribute__((unused)) used_##NAME(void) { \
    static void *p[8192]; long n = 0, tot = coap_mem_##NAME##_get_num(); \
    while (n < 8192 && (p[n] = coap_mem_##NAME##_alloc(1)) != NULL) n++; \
    for (long i = 0; i < n; i++) coap_mem_##NAME##_free(p[i]); return tot - n; }
POOL_USED(small)
POOL_USED(medium)
POOL_USED(large)
#endif
