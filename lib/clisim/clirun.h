#ifndef CLIRUN_H
#define CLIRUN_H
#include <stddef.h>
/* for the driver: runs a program of /repo/src on files kept in memory */
enum { CLI_MAXFILES = 64 };
void cli_reset(void);                                         /* forget all files */
void cli_put(char const *name, void const *data, size_t n);   /* a file to be read */
int cli_run(int (*program)(int, char **), char const *line);  /* arguments separated by spaces; returns the exit code */
char const *cli_get(char const *name, size_t *n);             /* a file that was written, 0 if it was not */
int cli_written(void);                                        /* number of files written */
char const *cli_written_name(int k);
int cli_open(void);                                           /* streams left open */
extern int cli_fail_fopen, cli_fail_malloc, cli_fopens, cli_mallocs, cli_errors; extern char cli_message[1024];
#endif
