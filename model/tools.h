/* A command line tool run inside a harness: its main() as TOOL(argc, argv), its output in env_out, exit() as a longjmp-free flag. */
#ifndef TOOLS_H
#define TOOLS_H
#include "db.h"
#include <stdio.h>
#include <stdarg.h>
static void t_out(const char *s, size_t n) { if (env_out_len + n > sizeof env_out) abort(); memcpy(env_out + env_out_len, s, n); env_out_len += n; }
static int t_printf(const char *f, ...) { va_list ap; va_start(ap, f); char *s = g_strdup_vprintf(f, ap); va_end(ap); int n = strlen(s); t_out(s, n); g_free(s); return n; }
static int t_fprintf(void *fp, const char *f, ...) { return 0; }
static int t_putchar(int c) { char x = c; t_out(&x, 1); return c; }
static int t_puts(const char *s) { t_out(s, strlen(s)); t_putchar('\n'); return 0; }
static void t_exited(int st);           /* of the harness: called by exit(), must not return */
static void t_exit(int st) { t_exited(st); sym_end(); abort(); }
static char *t_ctime(const time_t *t) { return "time\n"; }
static void t_perror(const char *s) { }
#define printf t_printf
#define fprintf t_fprintf
#define putchar t_putchar
#define puts t_puts
#define exit t_exit
#define ctime t_ctime
#define perror t_perror
#define g_printerr(...) ((void)0)
#define g_get_prgname() "tool"
#define g_set_prgname(x) ((void)0)
#define main tool_main
#endif
