/* C26: calibration files. */
#include "vp.h"
#include "calibration.h"
#define REAL(s) vp_double(s, -1e6, 1e6)
static char ori[500], add[500], fall[500];
static double e[6], dm[9], in[3], g[3], ap[7], ap2[7];
static void values(void)
{
    int i;
    for (i = 0; i < 6; i++) e[i] = REAL("exterior");
    for (i = 0; i < 9; i++) dm[i] = vp_double("dm", -1, 1);
    for (i = 0; i < 3; i++) in[i] = REAL("interior");
    for (i = 0; i < 3; i++) g[i] = REAL("glass");
    for (i = 0; i < 7; i++) { ap[i] = REAL("added"); ap2[i] = REAL("fallback"); }
}
static void into(Calibration *c)
{
    int i;
    memset(c, 0, sizeof *c);
    c->ext_par.x0 = e[0]; c->ext_par.y0 = e[1]; c->ext_par.z0 = e[2]; c->ext_par.omega = e[3]; c->ext_par.phi = e[4]; c->ext_par.kappa = e[5];
    for (i = 0; i < 9; i++) c->ext_par.dm[i / 3][i % 3] = dm[i];
    c->int_par.xh = in[0]; c->int_par.yh = in[1]; c->int_par.cc = in[2];
    c->glass_par.vec_x = g[0]; c->glass_par.vec_y = g[1]; c->glass_par.vec_z = g[2];
    c->added_par.k1 = ap[0]; c->added_par.k2 = ap[1]; c->added_par.k3 = ap[2]; c->added_par.p1 = ap[3]; c->added_par.p2 = ap[4]; c->added_par.scx = ap[5]; c->added_par.she = ap[6];
}
static int near(double a, double b, double eps) { return vp_le(a, b + eps, 1e-9) & vp_le(b, a + eps, 1e-9); }
static int same_ext(const Exterior *x, double eps)
{ return near(x->x0, e[0], eps) & near(x->y0, e[1], eps) & near(x->z0, e[2], eps) & near(x->omega, e[3], eps) & near(x->phi, e[4], eps) & near(x->kappa, e[5], eps); }
static int same_int(const Interior *x, double eps) { return near(x->xh, in[0], eps) & near(x->yh, in[1], eps) & near(x->cc, in[2], eps); }
static int same_glass(const Glass *x, double eps) { return near(x->vec_x, g[0], eps) & near(x->vec_y, g[1], eps) & near(x->vec_z, g[2], eps); }
static int same_add(const ap_52 *x, const double *a, double eps)
{ return near(x->k1, a[0], eps) & near(x->k2, a[1], eps) & near(x->k3, a[2], eps) & near(x->p1, a[3], eps) & near(x->p2, a[4], eps) & near(x->scx, a[5], eps) & near(x->she, a[6], eps); }
static int default_add(const ap_52 *x)
{ return (x->k1 == 0) & (x->k2 == 0) & (x->k3 == 0) & (x->p1 == 0) & (x->p2 == 0) & (x->scx == 1) & (x->she == 0); }
static int matrix_matches(const Exterior *x)
{
    Exterior y = *x; int i, ok = 1;
    rotation_matrix(&y);
    for (i = 0; i < 9; i++) ok &= vp_close(x->dm[i / 3][i % 3], y.dm[i / 3][i % 3], 1e-12);
    return ok;
}
/* files written by a program following the format */
static void put_ori(void)
{
    FILE *f = fopen(ori, "w"); int i;
    for (i = 0; i < 6; i++) fprintf(f, "%.17g ", e[i]);
    for (i = 0; i < 9; i++) fprintf(f, "%.17g ", dm[i]);
    for (i = 0; i < 3; i++) fprintf(f, "%.17g ", in[i]);
    for (i = 0; i < 3; i++) fprintf(f, "%.17g ", g[i]);
    fclose(f);
}
static void put_add(char *name, const double *a)
{ FILE *f = fopen(name, "w"); int i; for (i = 0; i < 7; i++) fprintf(f, "%.17g ", a[i]); fclose(f); }
static void names(void) { vp_scratch_path(ori, "cam.ori"); vp_scratch_path(add, "cam.addpar"); vp_scratch_path(fall, "default.addpar"); }
/* reading: every combination of present files; added parameters from the file, the fallback or the defaults */
void h_read(void)
{
    int have_add = vp_pick(vp_int("added", 0, 1)), have_fall = vp_pick(vp_int("fallback", 0, 2)), i, ok; Calibration *c;
    Exterior x; Interior ii; Glass gg; ap_52 a;
    names(); values(); put_ori();
    if (have_add) put_add(add, ap);
    if (have_fall == 2) put_add(fall, ap2);
    vp_assert(read_ori(&x, &ii, &gg, ori, &a, add, have_fall ? fall : NULL) != 0, "complete files are accepted");
    for (ok = 1, i = 0; i < 9; i++) ok &= x.dm[i / 3][i % 3] == dm[i];
    vp_assert(ok & same_ext(&x, 0) & same_int(&ii, 0) & same_glass(&gg, 0), "every value of the orientation file in its place");
    vp_assert(have_add ? same_add(&a, ap, 0) : have_fall == 2 ? same_add(&a, ap2, 0) : default_add(&a), "added parameters from the file, the fallback or the defaults");
    c = read_calibration(ori, add, have_fall ? fall : NULL);
    vp_assert(c != NULL, "complete files are accepted");
    vp_assert(same_ext(&c->ext_par, 0) & same_int(&c->int_par, 0) & same_glass(&c->glass_par, 0), "every value of the orientation file in its place");
    vp_assert(have_add ? same_add(&c->added_par, ap, 0) : have_fall == 2 ? same_add(&c->added_par, ap2, 0) : default_add(&c->added_par), "added parameters from the file, the fallback or the defaults");
    vp_assert(matrix_matches(&c->ext_par), "the rotation matrix is that of the angles");
    vp_assert(c->mmlut.data == NULL, "no look-up table yet");
    free(c);
    if (have_add) vp_reach("added"); else if (have_fall == 2) vp_reach("fallback"); else vp_reach("defaults");
}
/* a missing, cut or malformed orientation file, and cut or malformed added parameters */
void h_damaged(void)
{
    int kind = vp_pick(vp_int("kind", 0, 2)), which = vp_pick(vp_int("which", 0, 2)), w; char *n = which == 0 ? ori : which == 1 ? add : fall;
    Exterior x; Interior ii; Glass gg; ap_52 a; Calibration *c;
    names(); values(); put_ori(); put_add(fall, ap2);
    if (which < 2) put_add(add, ap);
    w = which == 0 ? 21 : 7;
    if (kind == 0) { vp_assume(which == 0); vp_unlink(n); vp_reach("missing"); }
    else if (kind == 1) { vp_words_keep(n, vp_pick(vp_int("keep", 0, w - 1))); vp_reach("cut"); }
    else { vp_word_replace(n, vp_pick(vp_int("word", 0, w - 1)), "x7"); vp_reach("word"); }
    vp_assert(read_ori(&x, &ii, &gg, ori, &a, add, fall) == 0, "a missing, cut or malformed file is refused");
    c = read_calibration(ori, add, fall);
    vp_assert(c == NULL, "a missing, cut or malformed file is refused");
}
/* writing and reading back; the text is in the order of the format */
void h_write(void)
{
    Calibration c, *r; int with_add = vp_pick(vp_int("added", 0, 1)), i; FILE *f; double v[21];
    names(); values(); into(&c);
    vp_readonly(&c, 1);
    vp_assert(write_calibration(&c, ori, with_add ? add : NULL) != 0, "everything was written: success");
    vp_readonly(&c, 0);
    vp_assert(vp_numbers(ori) == 21, "21 numbers in the orientation file");
    vp_assert(vp_numbers(add) == (with_add ? 7 : -1), "seven added parameters, if asked for");
    f = fopen(ori, "r");
    for (i = 0; i < 21; i++) vp_assert(fscanf(f, "%lf", &v[i]) == 1, "a number");
    fclose(f);
    for (i = 0; i < 21; i++)
        vp_assert(i < 6 ? near(v[i], e[i], 5e-9) : i < 15 ? near(v[i], dm[i - 6], 5e-8) : i < 18 ? near(v[i], in[i - 15], 5e-5) : near(v[i], g[i - 18], 1e-9),
                  "the orientation file in the order of the format");
    if (with_add) {
        f = fopen(add, "r");
        for (i = 0; i < 7; i++) vp_assert(fscanf(f, "%lf", &v[i]) == 1, "a number");
        fclose(f);
        for (i = 0; i < 7; i++) vp_assert(near(v[i], ap[i], 5e-9), "the added parameters in the order of the format");
    }
    r = read_calibration(ori, add, NULL);
    vp_assert(r != NULL, "what was written is accepted");
    vp_assert(same_ext(&r->ext_par, 5e-9) & same_int(&r->int_par, 5e-5) & same_glass(&r->glass_par, 5e-16), "every parameter is restored");
    vp_assert(with_add ? same_add(&r->added_par, ap, 5e-9) : default_add(&r->added_par), "added parameters are restored");
    vp_assert(matrix_matches(&r->ext_par), "the rotation matrix is that of the angles");
    free(r);
    if (with_add) vp_reach("added"); else vp_reach("without");
}
/* an older calibration is replaced; a place that cannot be written is reported */
void h_replace(void)
{
    Calibration c, *r; int where = vp_pick(vp_int("where", 0, 2));
    names(); values(); into(&c);
    if (where == 0) {
        put_ori(); put_add(add, ap2); put_add(fall, ap2);
        vp_assert(write_ori(c.ext_par, c.int_par, c.glass_par, c.added_par, ori, add) != 0, "everything was written: success");
        r = read_calibration(ori, add, fall);
        vp_assert(r != NULL && same_add(&r->added_par, ap, 5e-9) & same_ext(&r->ext_par, 5e-9), "the new calibration is read");
        vp_reach("replaced");
    } else {
        vp_scratch_path(where == 1 ? ori : add, where == 1 ? "nodir/cam.ori" : "nodir/cam.addpar");
        vp_assert(write_calibration(&c, ori, add) == 0, "a file that cannot be created: failure");
        vp_reach("failed");
    }
}
