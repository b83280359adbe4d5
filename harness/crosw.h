// A listing translator (named CROSC, table CROST) with main renamed and its files in memory.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
static char *out_text, *err_text; static size_t out_len, err_len; static FILE *in_file, *out_file, *err_file; static const char *in_text; static size_t in_len;
static FILE *mem_open(const char *name, const char *how) { (void)name; if (how[0] == 'r') return in_file = fmemopen((void *)in_text, in_len, "r"); return out_file = open_memstream(&out_text, &out_len); }
#define fopen mem_open
#undef stderr
#define stderr err_file
#define TRANSLATE(fn, entry, table) int fn(const char *text, size_t len, char **out, char **err) { \
  char *argv[] = { "cros", "in", "out", 0 }; memset(table, 0, sizeof table); in_text = text; in_len = len; in_file = out_file = 0; err_file = open_memstream(&err_text, &err_len); \
  int r = entry(3, argv); if (in_file) fclose(in_file); if (out_file) fclose(out_file); fclose(err_file); *out = out_text; *err = err_text; out_text = 0; return r; }
