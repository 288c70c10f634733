/* Shared helpers for the conformance harnesses: scenario reader, fork-per-scenario
 * runner, JSON output.  A harness reads scenarios from stdin:
 *     SCN <id>
 *     <command> <args...>
 *     ...
 *     END
 * and runs each one in a forked child.  Everything observable is written as one JSON
 * object per line to the trace file given by argv[1]; a child that dies or hangs yields a line
 * {"scn":id,"k":"crash",...} that no action of the specification allows. */
#ifndef COMMON_H
#define COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>

extern FILE *TR;            /* trace stream */
extern int SCN;             /* current scenario */
#define MAXTOK 4096

void jbytes(const char *key, const void *p, size_t n);   /* ,"key":[..] */
void jstr(const char *key, const char *s);               /* ,"key":[bytes] as byte array or [-1] for NULL */
void jint(const char *key, long v);                      /* ,"key":v   */
void jopen(const char *kind);                            /* {"scn":..,"k":kind */
void jclose(void);                                       /* }\n */
size_t unhex(const char *s, unsigned char *out, size_t max);  /* "-" = empty */
unsigned char *unhexdup(const char *s, size_t *n);       /* exact-size malloc */
int split(char *line, char **tok, int max);

/* to be provided by the harness */
void run_scenario(char **lines, int n);

int harness_main(int argc, char **argv);
#endif
