/* Harness for the buffer allocators. */
#include "common.h"
#include "coap_mem.h"
#include "coap_msg.h"
#include "jmsg.h"

static char *base(int p) { return p == 0 ? coap_mem_small_get_buf() : p == 1 ? coap_mem_medium_get_buf() : coap_mem_large_get_buf(); }
static void *al(int p, size_t n) { return p == 0 ? coap_mem_small_alloc(n) : p == 1 ? coap_mem_medium_alloc(n) : coap_mem_large_alloc(n); }
static void fr(int p, void *b) { if (p == 0) coap_mem_small_free(b); else if (p == 1) coap_mem_medium_free(b); else coap_mem_large_free(b); }
static size_t num(int p) { return p == 0 ? coap_mem_small_get_num() : p == 1 ? coap_mem_medium_get_num() : coap_mem_large_get_num(); }
static size_t len(int p) { return p == 0 ? coap_mem_small_get_len() : p == 1 ? coap_mem_medium_get_len() : coap_mem_large_get_len(); }

#define MAXH 100000
static struct { char *p; int pool; size_t n; unsigned char pat; int live; } h[MAXH];
static int nh;

static int intact(int i) { for (size_t k = 0; k < h[i].n; k++) if ((unsigned char)h[i].p[k] != h[i].pat) return 0; return 1; }

void run_scenario(char **lines, int n)
{
    char *tok[16];
    for (int i = 0; i < n; i++)
    {
        int t = split(lines[i], tok, 16);
        if (t == 0) continue;
        if (!strcmp(tok[0], "create"))          /* create n0 l0 n1 l1 n2 l2 */
        {
            int r = coap_mem_all_create(atoi(tok[1]), atoi(tok[2]), atoi(tok[3]), atoi(tok[4]), atoi(tok[5]), atoi(tok[6]));
            jopen("create"); fprintf(TR, ",\"num\":[%s,%s,%s],\"len\":[%s,%s,%s]", tok[1], tok[3], tok[5], tok[2], tok[4], tok[6]);
            jint("ok", r == 0);
            fprintf(TR, ",\"gnum\":[%zu,%zu,%zu],\"glen\":[%zu,%zu,%zu]", num(0), num(1), num(2), len(0), len(1), len(2));
            jclose(); nh = 0;
        }
        else if (!strcmp(tok[0], "destroy")) { coap_mem_all_destroy(); jopen("destroy"); jclose(); nh = 0; }
        else if (!strcmp(tok[0], "alloc"))      /* alloc pool n */
        {
            int p = atoi(tok[1]); size_t k = atoi(tok[2]);
            char *b = al(p, k);
            if (b)
            {
                h[nh].p = b; h[nh].pool = p; h[nh].n = len(p); h[nh].pat = (unsigned char)(nh * 37 + 11); h[nh].live = 1;
                memset(b, h[nh].pat, len(p));
            }
            jopen("alloc"); jint("p", p); jint("n", k); jint("ok", b != NULL); jint("id", b ? nh : -1); jint("off", b ? b - base(p) : 0); jclose();
            if (b) nh++;
        }
        else if (!strcmp(tok[0], "free"))       /* free id : by handle, possibly already freed */
        {
            int k = atoi(tok[1]); if (k >= nh) continue;
            int ok = h[k].live ? intact(k) : 1;
            fr(h[k].pool, h[k].p);
            jopen("free"); jint("p", h[k].pool); jint("id", k); jint("intact", ok); jclose();
            h[k].live = 0;
        }
        else if (!strcmp(tok[0], "check"))      /* all live buffers still hold what was written */
        {
            int ok = 1; for (int k = 0; k < nh; k++) if (h[k].live && !intact(k)) ok = 0;
            jopen("check"); jint("intact", ok); fprintf(TR, ",\"used\":[%ld,%ld,%ld]", used_small(), used_medium(), used_large()); jclose();
        }
        else if (!strcmp(tok[0], "bogus"))      /* free a pointer that is no buffer of this pool */
        {
            int p = atoi(tok[1]), kind = atoi(tok[2]); static char other[64]; char *q = NULL;
            if (kind == 0) q = NULL;
            else if (kind == 1) q = other;
            else if (kind == 2) { for (int k = nh - 1; k >= 0; k--) if (h[k].live && h[k].pool != p) { q = h[k].p; break; } }
            else if (kind == 3) { for (int k = nh - 1; k >= 0; k--) if (h[k].live && h[k].pool == p && len(p) > 1) { q = h[k].p + 1; break; } }
            else if (kind == 4) q = base(p) + num(p) * len(p);
            else                                /* a buffer that was freed already and not handed out again */
                for (int k = nh - 1; k >= 0 && q == NULL; k--)
                    if (!h[k].live && h[k].pool == p)
                    {
                        int again = 0;
                        for (int j = 0; j < nh; j++) if (h[j].live && h[j].p == h[k].p) again = 1;
                        if (!again) q = h[k].p;
                    }
            fr(p, q);
            jopen("bogus"); jint("p", p); jint("kind", kind); jclose();
        }
    }
}
