/* The environment of the command line programs: see clisim.h. */
#define _GNU_SOURCE
#include "clirun.h"
#include "mc.h"
#include <setjmp.h>
#include <stdarg.h>
#include <errno.h>
#include <vl/generic.h>
#include <vl/getopt_long.h>
extern void *__real_malloc(size_t); extern void __real_free(void *);
typedef struct { char name[1100]; char *data; size_t len; int given, written; } file_;
static file_ files_[CLI_MAXFILES]; static int nfiles;
typedef struct { FILE *f; char *mem; size_t len; int file, write; } stream_;
static stream_ open_[32];
static jmp_buf exit_;
int cli_fail_fopen, cli_fail_malloc, cli_fopens, cli_mallocs, cli_errors; char cli_message[1024];

static int find(char const *name) { int i; for (i = 0; i < nfiles; ++i) if (!strcmp(files_[i].name, name)) return i; return -1; }
static int add(char const *name) { int i = find(name); if (i >= 0) return i; if (nfiles == CLI_MAXFILES || strlen(name) >= sizeof(files_[0].name)) return -1; i = nfiles++; strcpy(files_[i].name, name); files_[i].data = 0; files_[i].len = 0; files_[i].given = files_[i].written = 0; return i; }
void cli_reset(void) { int i;
  for (i = 0; i < 32; ++i) if (open_[i].f) { fclose(open_[i].f); if (open_[i].mem) __real_free(open_[i].mem); open_[i].f = 0; open_[i].mem = 0; }
  for (i = 0; i < nfiles; ++i) { __real_free(files_[i].data); files_[i].data = 0; }
  nfiles = 0; cli_fail_fopen = cli_fail_malloc = cli_errors = 0; cli_message[0] = 0; }
void cli_put(char const *name, void const *data, size_t n) { int i = add(name); __real_free(files_[i].data); files_[i].data = __real_malloc(n + 1); memcpy(files_[i].data, data, n); files_[i].data[n] = 0; files_[i].len = n; files_[i].given = 1; files_[i].written = 0; }
char const *cli_get(char const *name, size_t *n) { int i = find(name); if (i < 0 || !files_[i].written) return 0; if (n) *n = files_[i].len; return files_[i].data; }
int cli_written(void) { int i, n = 0; for (i = 0; i < nfiles; ++i) n += files_[i].written; return n; }
char const *cli_written_name(int k) { int i; for (i = 0; i < nfiles; ++i) if (files_[i].written && !k--) return files_[i].name; return "?"; }
FILE *cli_fopen(char const *name, char const *mode) { int i, k; FILE *f;
  ++cli_fopens; if (cli_fail_fopen && cli_fopens == cli_fail_fopen) { errno = EMFILE; return 0; }
  for (k = 0; k < 32 && open_[k].f; ++k) ; if (k == 32) { errno = EMFILE; return 0; }
  if (mode[0] == 'r') { i = find(name); if (i < 0 || !name[0]) { errno = ENOENT; return 0; } f = files_[i].len ? fmemopen(files_[i].data, files_[i].len, "r") : fopen("/dev/null", "r"); open_[k].mem = 0; open_[k].write = 0; }
  else { if (!name[0] || name[strlen(name)-1] == '/') { errno = EISDIR; return 0; } i = add(name); if (i < 0) { errno = ENAMETOOLONG; return 0; } files_[i].written = 1; files_[i].len = 0; open_[k].mem = 0; f = open_memstream(&open_[k].mem, &open_[k].len); open_[k].write = 1; }
  open_[k].f = f; open_[k].file = i; return f; }
int cli_fclose(FILE *f) { int k, r; file_ *F;
  for (k = 0; k < 32; ++k) if (open_[k].f == f) break;
  if (k == 32 || !f) mc_fail("fclose", "a file that is not open is closed");
  r = fclose(f); open_[k].f = 0;
  if (open_[k].write) { F = files_ + open_[k].file; __real_free(F->data); F->data = __real_malloc(open_[k].len + 1); memcpy(F->data, open_[k].mem, open_[k].len); F->data[open_[k].len] = 0; F->len = open_[k].len; __real_free(open_[k].mem); open_[k].mem = 0; }
  return r; }
int cli_open(void) { int k, n = 0; for (k = 0; k < 32; ++k) n += !!open_[k].f; return n; }
int cli_printf(char const *fmt, ...) { static char b[8192]; va_list a; int r; va_start(a, fmt); r = vsnprintf(b, sizeof b, fmt, a); va_end(a); return r; }
int cli_fprintf(FILE *f, char const *fmt, ...) { va_list a; int r; va_start(a, fmt);
  if (f == stderr) { r = vsnprintf(cli_message, sizeof cli_message, fmt, a); ++cli_errors; }
  else if (f == stdout) { static char b[8192]; r = vsnprintf(b, sizeof b, fmt, a); }
  else r = vfprintf(f, fmt, a);
  va_end(a); return r; }
void *cli_malloc(size_t n) { ++cli_mallocs; if (cli_fail_malloc && cli_mallocs == cli_fail_malloc) { errno = ENOMEM; return 0; } if (n > ((size_t)1 << 24)) { errno = ENOMEM; return 0; } return malloc(n); }
void cli_exit(int code) { longjmp(exit_, code + 1); }
void cli_abort(void) { mc_fail("abort", "the program calls abort()"); }
int cli_run(int (*program)(int, char **), char const *line) {
  static char buf[8192]; static char *argv[64]; volatile int code; int argc = 0, j; char *p = buf;
  snprintf(buf, sizeof buf, "%s", line);
  while (*p && argc < 63) { argv[argc++] = p; while (*p && *p != ' ') ++p; if (*p) *p++ = 0; }
  argv[argc] = 0;
  cli_fopens = cli_mallocs = 0; cli_errors = 0; cli_message[0] = 0;
  optind = 1; optreset = 1; opterr = 0; optarg = 0;
  if (!(j = setjmp(exit_))) code = program(argc, argv); else code = j - 1;
  mc_op();
  return code; }
