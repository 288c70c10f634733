#include "common.h"
#include <sanitizer/asan_interface.h>
FILE *TR; int SCN;
static int first_ev;

void jopen(const char *kind) { fprintf(TR, "{\"scn\":%d,\"k\":\"%s\"", SCN, kind); }
void jclose(void) { fputs("}\n", TR); fflush(TR); }
void jint(const char *key, long v) { fprintf(TR, ",\"%s\":%ld", key, v); }
void jbytes(const char *key, const void *p, size_t n)
{
    const unsigned char *b = p; size_t i;
    fprintf(TR, ",\"%s\":[", key);
    for (i = 0; i < n; i++) fprintf(TR, i ? ",%u" : "%u", b[i]);
    fputc(']', TR);
}
void jstr(const char *key, const char *s)
{
    if (s == NULL) { fprintf(TR, ",\"%s\":[-1]", key); return; }
    jbytes(key, s, strlen(s));
}
static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
size_t unhex(const char *s, unsigned char *out, size_t max)
{
    size_t n = 0;
    if (s[0] == '-') return 0;
    while (s[0] && s[1]) { if (n >= max) abort(); out[n++] = hv(s[0]) * 16 + hv(s[1]); s += 2; }
    return n;
}
unsigned char *unhexdup(const char *s, size_t *n)
{
    size_t m = s[0] == '-' ? 0 : strlen(s) / 2;
    unsigned char *b = malloc(m ? m : 1);
    *n = unhex(s, b, m);
    if (m == 0) { free(b); b = malloc(0); }
    return b;
}
int split(char *line, char **tok, int max)
{
    int n = 0; char *sv = NULL;
    for (char *t = strtok_r(line, " \n", &sv); t && n < max; t = strtok_r(NULL, " \n", &sv)) tok[n++] = t;
    return n;
}
int harness_main(int argc, char **argv)
{
    static char *lines[200000]; int n = 0; char *buf = NULL; size_t cap = 0;
    int tmo = argc > 2 ? atoi(argv[2]) : 20, crashes = 0;
    (void)first_ev;
    TR = fopen(argv[1], "a");
    if (!TR) { perror(argv[1]); return 9; }
    while (getline(&buf, &cap, stdin) > 0)
    {
        if (strncmp(buf, "SCN ", 4) == 0) { SCN = atoi(buf + 4); n = 0; continue; }
        if (strncmp(buf, "END", 3) == 0)
        {
            fflush(TR);
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); return 9; }
            if (pid == 0)
            {
                alarm(tmo);
                jopen("start"); jclose();
                run_scenario(lines, n);
                jopen("end"); jclose();
                fflush(TR);
                _exit(0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            {
                /* terminate a partially written line, if any, then record the crash */
                fprintf(TR, "\n{\"scn\":%d,\"k\":\"crash\",\"sig\":%d,\"rc\":%d}\n", SCN,
                        WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0);
                fflush(TR);
                if (++crashes >= 3) break;
            }
            for (int i = 0; i < n; i++) free(lines[i]);
            n = 0;
            continue;
        }
        if (n >= 200000) return 9;
        lines[n++] = strdup(buf);
    }
    fclose(TR);
    return 0;
}
int main(int argc, char **argv) { return harness_main(argc, argv); }
