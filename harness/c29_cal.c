/* C29, calibration: the Calibration object. */
#include "pyx.h"
#include "calibration.c"
#include "pyrt.h"
#define OCAL struct __pyx_obj_4optv_11calibration_Calibration
#define TCAL __pyx_type_4optv_11calibration_Calibration
static void up(void) { vp_assert(module_up(), "the module comes up"); __pyx_ptype_5numpy_ndarray = &R_Array; }
static const struct { const char *set, *get; int n, off; } g[] = {
    { "set_pos", "get_pos", 3, offsetof(Calibration, ext_par.x0) }, { "set_angles", "get_angles", 3, offsetof(Calibration, ext_par.omega) },
    { "set_primary_point", "get_primary_point", 3, offsetof(Calibration, int_par.xh) }, { "set_radial_distortion", "get_radial_distortion", 3, offsetof(Calibration, added_par.k1) },
    { "set_decentering", "get_decentering", 2, offsetof(Calibration, added_par.p1) }, { "set_affine_trans", "get_affine", 2, offsetof(Calibration, added_par.scx) },
    { "set_glass_vec", "get_glass_vec", 3, offsetof(Calibration, glass_par.vec_x) } };
static double *at(Calibration *c, int i) { return (double *)((char *)c + g[i].off); }
static PyObject *arr(int n, const double *v) { r_arr *a = r_array(1, n, 0, 0, 8); int i; for (i = 0; i < n; i++) ((double *)a->data)[i] = v[i]; return (PyObject *)a; }
static const char *kwn[] = { "pos", "angs", "prim_point", "rad_dist", "decent", "affine", "glass" };
static int dm_fits(Calibration *c)
{ Exterior e = c->ext_par; int i, ok = 1; rotation_matrix(&e); for (i = 0; i < 9; i++) ok &= vp_close(c->ext_par.dm[i / 3][i % 3], e.dm[i / 3][i % 3], 1e-12); return ok; }
static void shown(PyObject *o, Calibration *c, double old[7][3])
{
    int i, k; PyObject *r;
    for (i = 0; i < 7; i++) {
        for (k = 0; k < g[i].n; k++) vp_assert(at(c, i)[k] == old[i][k], "the setter changes its values and no other");
        r = GET(o, g[i].get); vp_assert(r != NULL && !r_err, "the getter succeeds");
        if (!r) return;
        vp_assert(PyObject_Size(r) == g[i].n, "the getter reports all places");
        for (k = 0; k < g[i].n; k++) vp_assert(ITEM(r, k) == old[i][k], "the getter reports the value");
    }
    r = GET(o, "get_rotation_matrix"); vp_assert(r != NULL && !r_err, "the rotation matrix can be had");
    if (r) for (i = 0; i < 3; i++) for (k = 0; k < 3; k++) vp_assert(*AT2((r_arr *)r, i, k) == c->ext_par.dm[i][k], "the rotation matrix is reported");
}
void h_fields(void)
{
    PyObject *o, *r; Calibration *c; double old[7][3], v[3], dm[9]; int i, k, w = vp_pick(vp_int("which", 0, 6));
    up(); o = r_new(&TCAL, NOARGS, NULL); vp_assert(o != NULL && !r_err, "a calibration can be made");
    if (!o) return;
    c = ((OCAL *)o)->_calibration;
    for (i = 0; i < 7; i++) for (k = 0; k < g[i].n; k++) vp_assert(at(c, i)[k] == (i == 5 && k == 0), "the defaults are zeros and the scale 1");
    vp_assert(dm_fits(c), "the rotation matrix belongs to the angles");
    for (i = 0; i < 7; i++) for (k = 0; k < g[i].n; k++) at(c, i)[k] = old[i][k] = vp_double("value", -1e6, 1e6);
    for (i = 0; i < 9; i++) c->ext_par.dm[i / 3][i % 3] = dm[i] = vp_double("dm", -1, 1);
    for (k = 0; k < g[w].n; k++) v[k] = old[w][k] = vp_double("new", -1e6, 1e6);
    r = SET(o, g[w].set, arr(g[w].n, v)); vp_assert(r != NULL && !r_err, "the setter succeeds");
    if (w == 1) vp_assert(dm_fits(c), "the rotation matrix follows the angles"); else for (i = 0; i < 9; i++) vp_assert(c->ext_par.dm[i / 3][i % 3] == dm[i], "the rotation matrix stays");
    vp_assert(c->mmlut.data == NULL, "there is no table");
    shown(o, c, old); vp_reach("set");
}
void h_kw(void)
{
    PyObject *o, *kw; Calibration *c; double v[7][3]; int i, k, have = vp_pick(vp_int("leave_out", 0, 7));
    up(); kw = DICT();
    for (i = 0; i < 7; i++) {
        for (k = 0; k < g[i].n; k++) v[i][k] = i == have ? (i == 5 && k == 0) : vp_double("value", 0, 1e6);
        if (i != have) PUT(kw, kwn[i], arr(g[i].n, v[i]));
    }
    o = r_new(&TCAL, NOARGS, kw); vp_assert(o != NULL && !r_err, "a calibration can be made");
    if (!o) return;
    c = ((OCAL *)o)->_calibration; vp_assert(dm_fits(c), "the rotation matrix belongs to the angles"); shown(o, c, v); vp_reach("kw");
}
void h_shape(void)
{
    PyObject *o, *r; Calibration *c; double old[7][3], v[5] = { 1, 2, 3, 4, 5 }; int i, k, w = vp_pick(vp_int("which", 0, 6)), n = vp_pick(vp_int("length", 1, 5));
    up(); o = r_new(&TCAL, NOARGS, NULL);
    if (!o) return;
    c = ((OCAL *)o)->_calibration;
    for (i = 0; i < 7; i++) for (k = 0; k < g[i].n; k++) at(c, i)[k] = old[i][k] = vp_double("value", -1e6, 1e6);
    if (n == g[w].n) return;
    r = SET(o, g[w].set, arr(n, v)); vp_assert(!r && RAISED(PyExc_ValueError), "an array of another length is refused");
    for (i = 0; i < 7; i++) for (k = 0; k < g[i].n; k++) vp_assert(at(c, i)[k] == old[i][k], "a refused array changes nothing");
    vp_reach("refused");
}
/* reading and writing: the names reach the library in their places */
static char w_ori[100], w_add[100], w_fall[100]; static int w_got;
static void keep(char *to, const char *s) { strcpy(to, s ? s : "-"); }
Calibration *vp_override_read_calibration(char *ori, char *add, char *fall)
{ Calibration *c = calloc(1, sizeof *c); keep(w_ori, ori); keep(w_add, add); keep(w_fall, fall); w_got++; c->ext_par.x0 = 5; return c; }
int vp_override_write_calibration(Calibration *c, char *ori, char *add) { keep(w_ori, ori); keep(w_add, add); w_got++; return c->ext_par.x0 == 7; }
void h_files(void)
{
    PyObject *o, *r; int add = vp_pick(vp_int("added", 0, 1)), fall = vp_pick(vp_int("fallback", 0, 1)), ok = vp_pick(vp_int("written", 0, 1));
    up(); o = r_new(&TCAL, NOARGS, NULL);
    if (!o) return;
    r = CALL(o, "from_file", T3(B("cam.ori"), add ? B("cam.addpar") : Py_None, fall ? B("default.addpar") : Py_None), NULL);
    vp_assert(r != NULL && !r_err, "files can be read");
    vp_assert((w_got == 1) && !strcmp(w_ori, "cam.ori") && !strcmp(w_add, add ? "cam.addpar" : "-") && !strcmp(w_fall, fall ? "default.addpar" : "-"), "the names reach the library in their places");
    vp_assert(((OCAL *)o)->_calibration->ext_par.x0 == 5, "the calibration read takes the place of the old one");
    if (ok) ((OCAL *)o)->_calibration->ext_par.x0 = 7;
    r = CALL(o, "write", T2(B("new.ori"), B("new.addpar")), NULL);
    vp_assert(w_got == 2 && !strcmp(w_ori, "new.ori") && !strcmp(w_add, "new.addpar"), "the names reach the library in their places");
    if (ok) vp_assert(r != NULL && !r_err, "a written calibration is a success"); else vp_assert(!r && RAISED(PyExc_IOError), "a failure to write is reported");
    vp_reach("files");
}
