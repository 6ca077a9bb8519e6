/* Included before a command line program of /repo/src, which becomes a function: its files are kept in memory, its
 * messages are recorded, exit() returns to the caller. */
#ifndef CLISIM_H
#define CLISIM_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <math.h>
FILE *cli_fopen(char const *name, char const *mode);
int cli_fclose(FILE *f);
int cli_printf(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
int cli_fprintf(FILE *f, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
void cli_exit(int code) __attribute__((noreturn));
void cli_abort(void) __attribute__((noreturn));
void *cli_malloc(size_t n);
#define fopen cli_fopen
#define fclose cli_fclose
#define printf cli_printf
#define fprintf cli_fprintf
#define exit cli_exit
#define abort cli_abort
#define malloc cli_malloc
#endif
