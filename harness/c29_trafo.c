/* C29, transforms: rows of arrays against single points. */
#include "pyx.h"
#include "transforms.c"
#include "pyrt.h"
static PyTypeObject t_ctl = { HEAD .tp_name = "ControlParams" }, t_cal = { HEAD .tp_name = "Calibration" };
static control_par *ctl; static Calibration *cal;
static struct __pyx_obj_4optv_10parameters_ControlParams octl; static struct __pyx_obj_4optv_11calibration_Calibration ocal;
static void up(void)
{
    vp_assert(module_up(), "the module comes up"); __pyx_ptype_5numpy_ndarray = &R_Array; PyArray_API = r_np_api;
    __pyx_ptype_4optv_10parameters_ControlParams = &t_ctl; __pyx_ptype_4optv_11calibration_Calibration = &t_cal;
    ctl = calloc(1, sizeof *ctl); cal = calloc(1, sizeof *cal); cal->added_par.k1 = 11; cal->added_par.she = 17;
    ((PyObject *)&octl)->ob_type = &t_ctl; ((PyObject *)&octl)->ob_refcnt = 1000; octl._control_par = ctl;
    ((PyObject *)&ocal)->ob_type = &t_cal; ((PyObject *)&ocal)->ob_refcnt = 1000; ocal._calibration = cal;
}
/* the single-point functions are replaced by ones that note their input and give free results */
static int calls, who; static double in[4][2], out[4][2], tolerance; static int good;
static void point(int fn, double x, double y, double *px, double *py)
{
    who = fn;
    if (calls < 4) { in[calls][0] = x; in[calls][1] = y; *px = out[calls][0] = vp_double("rx", -1e6, 1e6); *py = out[calls][1] = vp_double("ry", -1e6, 1e6); }
    calls++;
}
void vp_override_pixel_to_metric(double *px, double *py, double x, double y, control_par *c) { good &= c == ctl; point(0, x, y, px, py); }
void vp_override_metric_to_pixel(double *px, double *py, double x, double y, control_par *c) { good &= c == ctl; point(1, x, y, px, py); }
static int same_ap(ap_52 a) { return a.k1 == 11 && a.k2 == 0 && a.she == 17; }
void vp_override_correct_brown_affin(double x, double y, ap_52 ap, double *px, double *py) { good &= same_ap(ap); point(2, x, y, px, py); }
void vp_override_distort_brown_affin(double x, double y, ap_52 ap, double *px, double *py) { good &= same_ap(ap); point(3, x, y, px, py); }
void vp_override_dist_to_flat(double x, double y, Calibration *c, double *px, double *py, double tol) { good &= c == cal; tolerance = tol; point(4, x, y, px, py); }
static PyMethodDef *fn(int i)
{
    static PyMethodDef *m[5];
    m[0] = &__pyx_mdef_4optv_10transforms_3convert_arr_pixel_to_metric; m[1] = &__pyx_mdef_4optv_10transforms_5convert_arr_metric_to_pixel; m[2] = &__pyx_mdef_4optv_10transforms_7correct_arr_brown_affine;
    m[3] = &__pyx_mdef_4optv_10transforms_9distort_arr_brown_affine; m[4] = &__pyx_mdef_4optv_10transforms_11distorted_to_flat;
    return m[i];
}
static PyObject *r_check_inputs;
/* an array whose rows are not next to each other when gap is set */
static r_arr *rows(int n, int cols, int gap)
{
    r_arr *a = r_array(2, n, cols, 0, 8); int i, j;
    if (gap) { a->data = malloc(8 * (3 * n * cols + 1)); a->str[0] = 16; a->str[1] = 16 * (n ? n : 1); }
    for (i = 0; i < n; i++) for (j = 0; j < cols; j++) *AT2(a, i, j) = vp_double("value", -1e6, 1e6);
    return a;
}
static PyObject *mdef_call(PyMethodDef *m, PyObject *args, PyObject *kw) { return r_args(m, &r_builtins, args, kw); }
static void with_helper(void)     /* check_inputs is looked up in the module */
{ static PyMethodDef *m; m = &__pyx_mdef_4optv_10transforms_1check_inputs; PyDict_SetItemString(__pyx_d, "check_inputs", r_func_new(F_METH, &r_builtins, m)); }
void h_rows(void)
{
    int f = vp_pick(vp_int("function", 0, 4)), n = vp_pick(vp_int("rows", 0, 3)), mode = vp_pick(vp_int("out", 0, 2)), gap = vp_pick(vp_int("gap", 0, 1)), i; r_arr *a, *o = NULL, *r; double v[3][2]; PyObject *args, *kw = NULL; double tol;
    up(); with_helper(); good = 1;
    a = rows(n, 2, gap); for (i = 0; i < n; i++) { v[i][0] = *AT2(a, i, 0); v[i][1] = *AT2(a, i, 1); }
    o = mode == 0 ? NULL : mode == 1 ? rows(n, 2, !gap) : a;
    tol = vp_double("tol", 1e-9, 1);
    args = PyTuple_New(o ? 3 : 2); ((PyTupleObject *)args)->ob_item[0] = (PyObject *)a; ((PyTupleObject *)args)->ob_item[1] = f < 2 ? (PyObject *)&octl : (PyObject *)&ocal;
    if (o) ((PyTupleObject *)args)->ob_item[2] = (PyObject *)o;
    if (f == 4) { kw = DICT(); PUT(kw, "tol", D(tol)); }
    r = (r_arr *)mdef_call(fn(f), args, kw);
    vp_assert(r != NULL && !r_err, "arrays of two columns are taken");
    if (!r) return;
    vp_assert((PyObject *)r != Py_None && Py_TYPE(r) == &R_Array, "the result is returned");
    if (Py_TYPE(r) != &R_Array) return;
    if (o) vp_assert(r == o, "the array given for the results is the one returned");
    else if (n) vp_assert(r->data != a->data, "without an array for the results a new one is made");
    vp_assert((r->dim[0] == n) & (r->dim[1] == 2), "there is a row for each row");
    vp_assert(calls == n && good && (!n || who == f), "the single-point function of that name is used, with the parameters given");
    for (i = 0; i < n; i++) {
        vp_assert((in[i][0] == v[i][0]) & (in[i][1] == v[i][1]), "each row goes to the single-point function");
        vp_assert((*AT2(r, i, 0) == out[i][0]) & (*AT2(r, i, 1) == out[i][1]), "each row of the result is that of the single-point function");
        if (!o || o != a) vp_assert((*AT2(a, i, 0) == v[i][0]) & (*AT2(a, i, 1) == v[i][1]), "the input stays");
    }
    if (f == 4 && n) vp_assert(tolerance == tol, "the tolerance given is used");
    vp_reach("rows");
}
void h_wrong(void)
{
    int f = vp_pick(vp_int("function", 0, 4)), n = vp_pick(vp_int("rows", 1, 2)), cols = vp_pick(vp_int("columns", 1, 3)), n2 = vp_pick(vp_int("rows_out", 1, 2)), c2 = vp_pick(vp_int("columns_out", 1, 3)); PyObject *r;
    if (cols == 2 && n == n2 && c2 == 2) return;
    up(); with_helper();
    r = mdef_call(fn(f), T3((PyObject *)rows(n, cols, 0), f < 2 ? (PyObject *)&octl : (PyObject *)&ocal, (PyObject *)rows(n2, c2, 0)), NULL);
    vp_assert(!r && RAISED(PyExc_TypeError) && calls == 0, "arrays of the wrong shape are refused"); vp_reach("wrong");
}
