/* Harness language shared by the three ways a harness is run:
 *   -DVP_CBMC : CBMC's symbolic execution (nondet values, SAT/SMT verdict)
 *   -DVP_SYM  : the LLVM-IR symbolic executor in /verif/engine/irsym.py intercepts vp_*
 *   otherwise : native replay; vp_* values come from the counterexample file (replay_rt.c)
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#ifdef VP_CBMC
int nondet_int(void); unsigned char nondet_uchar(void); double nondet_double(void); float nondet_float(void);
static inline int vp_int(const char *name, int lo, int hi)
{ int v = nondet_int(); __CPROVER_assume(v >= lo && v <= hi); __CPROVER_input("vp_int", v); return v; }
static inline unsigned char vp_u8(const char *name)
{ unsigned char v = nondet_uchar(); __CPROVER_input("vp_u8", v); return v; }
static inline double vp_double(const char *name, double lo, double hi)
{ double v = nondet_double(); __CPROVER_assume(v >= lo && v <= hi); __CPROVER_input("vp_double", v); return v; }
static inline double vp_fpint(const char *name, int lo, int hi)   /* a double holding a small integer */
{ int v = nondet_int(); __CPROVER_assume(v >= lo && v <= hi); __CPROVER_input("vp_fpint", v); return (double)v; }
#define vp_assume(c) __CPROVER_assume(c)
#define vp_assert(c, msg) __CPROVER_assert((c), "VP: " msg)
#define vp_reach(label) __CPROVER_assert(0, "REACH: " label)
#define vp_close(a, b, tol) ((a) == (b))
#else
#ifdef __cplusplus
extern "C" {
#endif
int vp_int(const char *name, int lo, int hi);
unsigned char vp_u8(const char *name);
double vp_double(const char *name, double lo, double hi);
double vp_fpint(const char *name, int lo, int hi);
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_reach(const char *label);
/* exact equality in the symbolic engines, |a-b| <= tol in the native replay */
int vp_close(double a, double b, double tol);
/* a<=b in the symbolic engine; a <= b + tol natively */
int vp_le(double a, double b, double tol);
/* a unit (cos,sin) pair for an angle: symbolic engine gives uninterpreted trig values */
int vp_is_symbolic(void);
/* 1 when every byte of [p,p+n) has been written (always 1 natively) */
int vp_initialised(const void *p, size_t n);
void vp_scratch_path(char *buf, const char *leaf);
/* files: open handles, removal, number of words, cutting after n words, replacing word k by a text */
int vp_live_bytes(void);     /* allocated and not released */
int vp_open_files(void);
int vp_unlink(const char *path);
int vp_numbers(const char *path);
int vp_words_keep(const char *path, int n);
int vp_word_replace(const char *path, int k, const char *text);
/* the symbolic engine reports any write to the object while it is on */
void vp_readonly(const void *p, int on);
/* explores every value of v on its own path (so that v becomes concrete) */
int vp_pick(int v);
#endif
#endif
