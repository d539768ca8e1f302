/* C04: vector and matrix kernels. */
#include "vp.h"
#include "vec_utils.h"
#include "lsqadj.h"
static void v3(vec3d v, const char *n) { int i; for (i = 0; i < 3; i++) v[i] = vp_double(n, -1e4, 1e4); }
void h_linear(void)
{
    vec3d a, b, o, p; double s; int i;
    v3(a, "a"); v3(b, "b"); s = vp_double("s", -1e4, 1e4);
    vec_set(o, a[0], a[1], a[2]);
    for (i = 0; i < 3; i++) vp_assert(o[i] == a[i], "vec_set");
    vec_copy(p, a);
    for (i = 0; i < 3; i++) vp_assert(p[i] == a[i], "vec_copy");
    vec_add(a, b, o);
    for (i = 0; i < 3; i++) vp_assert(vp_close(o[i], a[i] + b[i], 1e-6), "vec_add");
    vec_subt(a, b, o);
    for (i = 0; i < 3; i++) vp_assert(vp_close(o[i], a[i] - b[i], 1e-6), "vec_subt");
    vec_scalar_mul(a, s, o);
    for (i = 0; i < 3; i++) vp_assert(vp_close(o[i], s * a[i], 1e-3), "vec_scalar_mul");
    vp_assert(vp_close(vec_dot(a, b), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], 1e-3), "vec_dot");
    vec_cross(a, b, o);
    vp_assert(vp_close(o[0], a[1] * b[2] - a[2] * b[1], 1e-3) && vp_close(o[1], a[2] * b[0] - a[0] * b[2], 1e-3) &&
              vp_close(o[2], a[0] * b[1] - a[1] * b[0], 1e-3), "vec_cross");
    for (i = 0; i < 3; i++) vp_assert(p[i] == a[i], "the inputs stay as they were");
    vec_copy(p, a); vec_add(p, b, p);                     /* in place */
    for (i = 0; i < 3; i++) vp_assert(vp_close(p[i], a[i] + b[i], 1e-6), "vec_add in place");
    vec_copy(p, b); vec_subt(a, p, p);
    for (i = 0; i < 3; i++) vp_assert(vp_close(p[i], a[i] - b[i], 1e-6), "vec_subt in place");
    vp_reach("end");
}
void h_norms(void)
{
    vec3d a, b, o; double n, d; int i;
    v3(a, "a"); v3(b, "b");
    n = vec_norm(a);
    vp_assert(n >= 0 && vp_close(n * n, a[0] * a[0] + a[1] * a[1] + a[2] * a[2], 1e-3), "vec_norm");
    d = vec_diff_norm(a, b);
    vp_assert(d >= 0 && vp_close(d * d, (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) +
              (a[2] - b[2]) * (a[2] - b[2]), 1e-3), "vec_diff_norm");
    unit_vector(a, o);
    if (n == 0) { for (i = 0; i < 3; i++) vp_assert(o[i] == 0, "unit vector of the zero vector"); vp_reach("zero"); }
    else for (i = 0; i < 3; i++) vp_assert(vp_close(o[i] * n, a[i], 1e-6), "unit_vector divides by the norm");
    vp_reach("end");
}
void h_cmp(void)
{
    vec3d a, b; double eps; int i, eq = 1, ap = 1;
    v3(a, "a"); v3(b, "b"); eps = vp_double("eps", 0, 100);
    for (i = 0; i < 3; i++) {
        if (a[i] != b[i]) eq = 0;
        if (a[i] - b[i] > eps || b[i] - a[i] > eps) ap = 0;
    }
    vp_assert(!!vec_cmp(a, b) == eq, "vec_cmp");
    vp_assert(!!vec_approx_cmp(a, b, eps) == ap, "vec_approx_cmp");
    vec_init(a);
    for (i = 0; i < 3; i++) vp_assert(a[i] != a[i], "vec_init gives empty cells");
    vp_reach("end");
}
#ifndef M
#define M 3
#define NN 2
#define L 3
#endif
/* at a and at l for every m <= M, n <= NN with row length n_large = L (a is m x n_large, ata is n x n_large) */
void h_normal(void)
{
    int m = vp_int("m", 1, M), n = vp_int("n", 1, NN), i, j, k;
    double *a = malloc(m * L * sizeof(double)), *l = malloc(m * sizeof(double)), *at = malloc(((n - 1) * L + n) * sizeof(double)),
           *u = malloc(n * sizeof(double)), *mark = malloc(n * L * sizeof(double));
    for (i = 0; i < m; i++) for (j = 0; j < n; j++) a[i * L + j] = vp_double("a", -100, 100);   /* padding stays unset */
    for (i = 0; i < m; i++) l[i] = vp_double("l", -100, 100);
    for (i = 0; i < (n - 1) * L + n; i++) { mark[i] = 1000 + i; at[i] = mark[i]; }
    ata(a, at, m, n, L);
    atl(u, a, l, m, n, L);
    for (i = 0; i < n; i++) {
        double s = 0;
        for (k = 0; k < m; k++) s += a[k * L + i] * l[k];
        vp_assert(vp_close(u[i], s, 1e-6), "right hand side is At l");
        for (j = 0; j < L; j++) {
            if (i * L + j >= (n - 1) * L + n) break;
            s = 0;
            if (j < n) { for (k = 0; k < m; k++) s += a[k * L + i] * a[k * L + j]; }
            else s = mark[i * L + j];
            vp_assert(vp_close(at[i * L + j], s, 1e-6), j < n ? "normal matrix is At A" : "entries outside the block stay");
        }
    }
    vp_reach("end");
}
void h_matmul(void)
{
    int m = vp_int("m", 1, M), n = vp_int("n", 1, NN), k = vp_int("k", 1, 2), i, j, q;
    int ml = m, nl = n + vp_pick(vp_int("pad", 0, 1));
    /* a (m x k) = b (m x n, row length nl) c (n x k); c has nl rows, the padding ones unset */
    double *b = malloc(m * nl * sizeof(double)), *c = malloc(nl * k * sizeof(double)), *a = malloc(m * k * sizeof(double));
    for (i = 0; i < m; i++) for (j = 0; j < n; j++) b[i * nl + j] = vp_double("b", -100, 100);
    for (i = 0; i < n; i++) for (j = 0; j < k; j++) c[i * k + j] = vp_double("c", -100, 100);
    matmul(a, b, c, m, n, k, ml, nl);
    for (i = 0; i < m; i++) for (j = 0; j < k; j++) {
        double s = 0;
        for (q = 0; q < n; q++) s += b[i * nl + q] * c[q * k + j];
        vp_assert(vp_close(a[i * k + j], s, 1e-6), "matrix product");
    }
    vp_reach("end");
}
/* leading n x n block of an array with row length LL: inverse * original = identity, the rest untouched */
#ifndef D
#define D 2
#endif
#ifndef DENSE
#define DENSE 0
#endif
void h_inverse(void)
{
    int n = D, LL = D + vp_pick(vp_int("pad", 0, 1)), i, j, k;
    double o[4 * 5], a[4 * 5], s;
    for (i = 0; i < n; i++) for (j = 0; j < LL; j++) {
        o[i * LL + j] = j >= n ? 500 + i : i == j ? vp_double("diag", 1, 100) : vp_double("off", -100, 100);
        a[i * LL + j] = o[i * LL + j];
    }
    /* the elimination takes pivots in order without exchange: the leading minors must not vanish */
    if (n >= 2) vp_assume(o[0] * o[LL + 1] != o[1] * o[LL]);
#if D >= 3
    vp_assume(o[0] * (o[LL + 1] * o[2 * LL + 2] - o[LL + 2] * o[2 * LL + 1])
            - o[1] * (o[LL] * o[2 * LL + 2] - o[LL + 2] * o[2 * LL]) + o[2] * (o[LL] * o[2 * LL + 1] - o[LL + 1] * o[2 * LL]) != 0);
#endif
    matinv(a, n, LL);
    for (i = 0; i < n; i++) for (j = 0; j < LL; j++) {
        if (j >= n) { vp_assert(a[i * LL + j] == o[i * LL + j], "entries outside the block stay"); continue; }
        s = 0;
        for (k = 0; k < n; k++) s += a[i * LL + k] * o[k * LL + j];
        vp_assert(vp_close(s, i == j, 1e-5), "inverse times matrix is the identity");
    }
    vp_reach("end");
}
/* larger inverses: a unit lower/upper triangular product with integer entries, all entries of one row symbolic */
void h_inverse_sparse(void)
{
    int n = D, i, j, k; double o[36], a[36], s;
    int r = vp_pick(vp_int("row", 0, D - 1)), dense = DENSE;
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
        o[i * n + j] = i == j ? 5 + i : dense ? (i + 2 * j) % 3 - 1 : 0;
        if (i == r && j != r) o[i * n + j] = vp_double("e", -1, 1);
        a[i * n + j] = o[i * n + j];
    }
    matinv(a, n, n);
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
        s = 0;
        for (k = 0; k < n; k++) s += a[i * n + k] * o[k * n + j];
        vp_assert(vp_close(s, i == j, 1e-5), "inverse times matrix is the identity");
    }
    vp_reach("end");
}
