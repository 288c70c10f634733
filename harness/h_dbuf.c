/* Harness for the proxy's byte buffers:  new <size> <max> | put <hex> (as much as there is space for, like a read) | take <n> | grow | free */
#include "common.h"
#include "heap.h"
#include "data_buf.h"
static void st(data_buf_t *b) { jint("count", data_buf_get_count(b)); jint("space", data_buf_get_space(b)); jbytes("data", data_buf_get_data(b), data_buf_get_count(b)); jint("next", data_buf_get_next(b) - data_buf_get_data(b)); jclose(); }
void run_scenario(char **lines, int n)
{
    long live = heap_live; data_buf_t b; int have = 0;
    for (int i = 0; i < n; i++)
    {
        char *tok[8] = {0}; int k = split(lines[i], tok, 8); size_t len;
        if (k == 0) continue;
        if (!strcmp(tok[0], "new")) { int r = data_buf_create(&b, atoi(tok[1]), atoi(tok[2])); have = r == 0; jopen("new"); jint("size", atoi(tok[1])); jint("max", atoi(tok[2])); jint("ret", r); if (have) st(&b); else jclose(); }
        else if (!have) continue;
        else if (!strcmp(tok[0], "put"))
        {
            unsigned char *d = unhexdup(tok[1], &len); size_t f = data_buf_get_space(&b), w = len < f ? len : f;
            memcpy(data_buf_get_next(&b), d, w);
            size_t r = data_buf_add(&b, len);
            jopen("put"); jbytes("d", d, len); jint("ret", r); st(&b); free(d);
        }
        else if (!strcmp(tok[0], "take")) { size_t r = data_buf_consume(&b, atoi(tok[1])); jopen("take"); jint("n", atoi(tok[1])); jint("ret", r); st(&b); }
        else if (!strcmp(tok[0], "grow")) { int r = data_buf_expand(&b); jopen("grow"); jint("ret", r); st(&b); }
        else abort();
    }
    if (have) data_buf_destroy(&b);
    jopen("fin"); jint("leak", heap_live > live); jclose();
}
