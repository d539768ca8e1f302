/* Native replay of a counterexample: vp_* return the recorded values in order. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <fcntl.h>
#include <unistd.h>
#include "vp.h"
static FILE *f;
static double next(const char *kind, const char *name)
{
    char k[64]; char v[512];
    if (!f) { const char *p = getenv("VP_REPLAY"); f = p ? fopen(p, "r") : NULL;
              if (!f) { fprintf(stderr, "no VP_REPLAY\n"); exit(75); } }
    for (;;) {
        if (fscanf(f, "%63s %511s", k, v) != 2) { fprintf(stderr, "VP_REPLAY exhausted at %s %s\n", kind, name); return 0; }
        break;
    }
    return strtod(v, NULL);
}
static void in_range(double v, double lo, double hi)
{ if (!(v >= lo && v <= hi)) { fprintf(stderr, "VP_ASSUME out of range\n"); exit(77); } }
int vp_int(const char *name, int lo, int hi) { double v = next("vp_int", name); if (v < lo) v = lo; if (v > hi) v = hi; return (int)v; }
unsigned char vp_u8(const char *name) { return (unsigned char)(int)next("vp_u8", name); }
double vp_double(const char *name, double lo, double hi)
{ double v = next("vp_double", name); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
double vp_fpint(const char *name, int lo, int hi)
{ double v = next("vp_fpint", name); if (v < lo) v = lo; if (v > hi) v = hi; return (double)(int)v; }
void vp_assume(int c) { if (!c) { fprintf(stderr, "VP_ASSUME not met\n"); fflush(0); _Exit(77); } }
void vp_assert(int c, const char *msg)
{ if (!c) { fprintf(stderr, "VP_ASSERT_FAILED %s\n", msg); fflush(0); _Exit(99); } }
void vp_reach(const char *label) { }
int vp_close(double a, double b, double tol) { return fabs(a - b) <= tol; }
int vp_le(double a, double b, double tol) { return a <= b + tol; }
int vp_pick(int v) { return v; }
int vp_is_symbolic(void) { return 0; }
int vp_initialised(const void *p, size_t n) { return 1; }
void vp_scratch_path(char *buf, const char *leaf)
{ const char *d = getenv("VP_SCRATCH"); sprintf(buf, "%s/%s", d ? d : "/nonexistent", leaf); }
/* files */
static int fds(void)
{ int n = 0, i; for (i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static int fds0;
#include <malloc.h>
int vp_live_bytes(void) { return (int)mallinfo2().uordblks; }
int vp_open_files(void) { return fds() - fds0; }
int vp_unlink(const char *p) { return remove(p); }
static char *slurp(const char *p, long *n)
{ FILE *g = fopen(p, "r"); char *b = malloc(1 << 22); if (!g) { *n = -1; return b; } *n = fread(b, 1, (1 << 22) - 1, g); b[*n] = 0; fclose(g); return b; }
static int isw(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
/* the place of word k (0 based) or -1 */
static long word_at(const char *b, long n, int k)
{ long i; int inw = 0, c = 0; for (i = 0; i < n; i++) { if (!isw(b[i]) && !inw && c++ == k) return i; inw = !isw(b[i]); } return -1; }
int vp_numbers(const char *p)
{ long n, i; char *b = slurp(p, &n); int k = 0; if (n < 0) return -1; for (i = 0; word_at(b, n, k) >= 0; k++); free(b); return k; }
int vp_words_keep(const char *p, int k)
{ long n, i; char *b = slurp(p, &n); FILE *g; if (n < 0) return -1; i = word_at(b, n, k); if (i < 0) i = n;
  g = fopen(p, "w"); fwrite(b, 1, i, g); fclose(g); free(b); return 0; }
int vp_word_replace(const char *p, int k, const char *t)
{ long n, i, j; char *b = slurp(p, &n); FILE *g; if (n < 0) return -1; i = word_at(b, n, k); if (i < 0) return -1;
  for (j = i; j < n && !isw(b[j]); j++); g = fopen(p, "w"); fwrite(b, 1, i, g); fputs(t, g); fwrite(b + j, 1, n - j, g); fclose(g); free(b); return 0; }
void vp_readonly(const void *p, int on) { }
void VP_ENTRY(void);
int main(void) { { const char *p = getenv("VP_REPLAY"); f = p ? fopen(p, "r") : NULL; } fds0 = fds(); VP_ENTRY(); return 0; }
