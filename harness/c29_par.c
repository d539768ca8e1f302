/* C29, parameters: the parameter objects. */
#include "pyx.h"
#include "parameters.c"
#include "pyrt.h"
#define ST(n) struct __pyx_obj_4optv_10parameters_##n
#define TY(n) __pyx_type_4optv_10parameters_##n
static void up(void) { vp_assert(module_up(), "the module comes up"); __pyx_ptype_5numpy_ndarray = &R_Array; PyArray_API = r_np_api; }
/* fields of a structure: kind d(ouble) or i(nt), number of places, reader and writer for one value */
typedef struct { int off, n; char kind; const char *set, *get; int pos; } fld;   /* pos: place inside the sequence given (-1: a single value) */
#define F(s, f, k, n, a, b, p) { offsetof(s, f), n, k, a, b, p }
static const fld f_track[] = {
    F(track_par, dacc, 'd', 1, "set_dacc", "get_dacc", -1), F(track_par, dangle, 'd', 1, "set_dangle", "get_dangle", -1),
    F(track_par, dvxmax, 'd', 1, "set_dvxmax", "get_dvxmax", -1), F(track_par, dvxmin, 'd', 1, "set_dvxmin", "get_dvxmin", -1),
    F(track_par, dvymax, 'd', 1, "set_dvymax", "get_dvymax", -1), F(track_par, dvymin, 'd', 1, "set_dvymin", "get_dvymin", -1),
    F(track_par, dvzmax, 'd', 1, "set_dvzmax", "get_dvzmax", -1), F(track_par, dvzmin, 'd', 1, "set_dvzmin", "get_dvzmin", -1),
    F(track_par, dsumg, 'i', 1, "set_dsumg", "get_dsumg", -1), F(track_par, dn, 'i', 1, "set_dn", "get_dn", -1), F(track_par, dnx, 'i', 1, "set_dnx", "get_dnx", -1),
    F(track_par, dny, 'i', 1, "set_dny", "get_dny", -1), F(track_par, add, 'i', 1, "set_add", "get_add", -1) };
static const fld f_vol[] = {
    F(volume_par, cn, 'd', 1, "set_cn", "get_cn", -1), F(volume_par, cnx, 'd', 1, "set_cnx", "get_cnx", -1), F(volume_par, cny, 'd', 1, "set_cny", "get_cny", -1),
    F(volume_par, csumg, 'd', 1, "set_csumg", "get_csumg", -1), F(volume_par, eps0, 'd', 1, "set_eps0", "get_eps0", -1), F(volume_par, corrmin, 'd', 1, "set_corrmin", "get_corrmin", -1),
    F(volume_par, X_lay, 'd', 2, "set_X_lay", "get_X_lay", 0), F(volume_par, Zmin_lay, 'd', 2, "set_Zmin_lay", "get_Zmin_lay", 0), F(volume_par, Zmax_lay, 'd', 2, "set_Zmax_lay", "get_Zmax_lay", 0) };
static const fld f_mm[] = { F(mm_np, nlay, 'i', 1, NULL, "get_nlay", -1), F(mm_np, n1, 'd', 1, "set_n1", "get_n1", -1), F(mm_np, n3, 'd', 1, "set_n3", "get_n3", -1), F(mm_np, n2, 'd', 3, NULL, "get_n2", 0), F(mm_np, d, 'd', 3, NULL, "get_d", 0) };
static const fld f_targ[] = {
    F(target_par, discont, 'i', 1, "set_max_discontinuity", "get_max_discontinuity", -1), F(target_par, sumg_min, 'i', 1, "set_min_sum_grey", "get_min_sum_grey", -1), F(target_par, cr_sz, 'i', 1, "set_cross_size", "get_cross_size", -1),
    F(target_par, gvthres, 'i', 4, "set_grey_thresholds", "get_grey_thresholds", 0), F(target_par, nnmin, 'i', 2, "set_pixel_count_bounds", "get_pixel_count_bounds", 0),
    F(target_par, nxmin, 'i', 2, "set_xsize_bounds", "get_xsize_bounds", 0), F(target_par, nymin, 'i', 2, "set_ysize_bounds", "get_ysize_bounds", 0) };
static const fld f_seq[] = { F(sequence_par, first, 'i', 1, "set_first", "get_first", -1), F(sequence_par, last, 'i', 1, "set_last", "get_last", -1) };
static const fld f_ctl[] = {
    F(control_par, hp_flag, 'f', 1, "set_hp_flag", "get_hp_flag", -1), F(control_par, allCam_flag, 'f', 1, "set_allCam_flag", "get_allCam_flag", -1), F(control_par, tiff_flag, 'f', 1, "set_tiff_flag", "get_tiff_flag", -1),
    F(control_par, chfield, 'i', 1, "set_chfield", "get_chfield", -1), F(control_par, imx, 'i', 2, "set_image_size", "get_image_size", 0), F(control_par, pix_x, 'd', 2, "set_pixel_size", "get_pixel_size", 0) };
#define LEN(a) (int)(sizeof(a) / sizeof *(a))
static double rd(const void *p, const fld *f, int i) { const char *q = (const char *)p + f->off; return f->kind == 'd' ? ((const double *)q)[i] : ((const int *)q)[i]; }
static double val(char kind) { return kind == 'd' ? vp_double("value", -1e6, 1e6) : kind == 'f' ? vp_int("flag", 0, 1) : vp_int("value", -1000000, 1000000); }
static void wr(void *p, const fld *f, int i, double v) { char *q = (char *)p + f->off; if (f->kind == 'd') ((double *)q)[i] = v; else ((int *)q)[i] = (int)v; }
static PyObject *box(char kind, double v) { return kind == 'd' ? D(v) : kind == 'f' ? (v != 0 ? Py_True : Py_False) : I((int)v); }
/* o wraps *p, whose fields are tab; one setter is tried */
static void one(PyObject *o, void *p, const fld *tab, int n)
{
    double old[20][4], v[4]; int i, k, w = vp_pick(vp_int("which", 0, n - 1)); const fld *f = &tab[w]; PyObject *a, *r;
    for (i = 0; i < n; i++) for (k = 0; k < tab[i].n; k++) { double x = val(tab[i].kind); wr(p, &tab[i], k, x); old[i][k] = x; }
    if (f->set) {
        for (k = 0; k < f->n; k++) v[k] = old[w][k] = val(f->kind);
        if (f->pos < 0) a = box(f->kind, v[0]);
        else { a = vp_pick(vp_int("as_list", 0, 1)) ? PyList_New(f->n) : PyTuple_New(f->n); for (k = 0; k < f->n; k++) { if (PyTuple_Check(a)) ((PyTupleObject *)a)->ob_item[k] = box(f->kind, v[k]); else ((PyListObject *)a)->ob_item[k] = box(f->kind, v[k]); } }
        r = SET(o, f->set, a); vp_assert(r != NULL && !r_err, "the setter succeeds");
        vp_reach("set");
    }
    for (i = 0; i < n; i++) for (k = 0; k < tab[i].n; k++) vp_assert(rd(p, &tab[i], k) == old[i][k], "the setter changes its value and no other");
    for (i = 0; i < n; i++) {
        r = GET(o, tab[i].get); vp_assert(r != NULL && !r_err, "the getter succeeds");
        if (!r) return;
        if (tab[i].pos < 0) vp_assert(NUM(r) == old[i][0], "the getter reports the value");
        else { vp_assert(PyObject_Size(r) == tab[i].n, "the getter reports all places"); for (k = 0; k < tab[i].n; k++) vp_assert(ITEM(r, k) == old[i][k], "the getter reports the value"); }
    }
}
static PyObject *made(PyTypeObject *t, PyObject *args, PyObject *kw)
{ PyObject *o = r_new(t, args, kw); vp_assert(o != NULL && !r_err, "the object can be made"); return o; }
void h_tracking(void) { PyObject *o; up(); o = made(&TY(TrackingParams), NOARGS, DICT()); if (o) one(o, ((ST(TrackingParams) *)o)->_track_par, f_track, LEN(f_track)); }
void h_volume(void) { PyObject *o; up(); o = made(&TY(VolumeParams), NOARGS, DICT()); if (o) one(o, ((ST(VolumeParams) *)o)->_volume_par, f_vol, LEN(f_vol)); }
void h_media(void) { PyObject *o; up(); o = made(&TY(MultimediaParams), NOARGS, DICT()); if (o) one(o, ((ST(MultimediaParams) *)o)->_mm_np, f_mm, LEN(f_mm)); }
void h_targ(void) { PyObject *o; up(); o = made(&TY(TargetParams), NOARGS, NULL); if (o) one(o, ((ST(TargetParams) *)o)->_targ_par, f_targ, LEN(f_targ)); }
void h_seq(void) { PyObject *o, *kw; up(); kw = DICT(); PUT(kw, "num_cams", I(2)); o = made(&TY(SequenceParams), NOARGS, kw); if (o) one(o, ((ST(SequenceParams) *)o)->_sequence_par, f_seq, LEN(f_seq)); }
void h_control(void)
{
    PyObject *o; control_par *c; up(); o = made(&TY(ControlParams), T2(I(3), PyList_New(0)), NULL);
    if (!o) return;
    c = ((ST(ControlParams) *)o)->_control_par; one(o, c, f_ctl, LEN(f_ctl));
    vp_assert(c->num_cams == 3 && NUM(GET(o, "get_num_cams")) == 3, "the number of cameras stays");
    vp_assert(c->mm == ((ST(MultimediaParams) *)GET(o, "get_multimedia_params"))->_mm_np, "the media of the control parameters are those handed out");
}
/* sequences that do not fit are refused and change nothing */
void h_shape(void)
{
    PyObject *o, *a, *b, *r = NULL; int w = vp_pick(vp_int("which", 0, 6)), n = vp_pick(vp_int("length", 0, 6)), i, k, room, exact = 0; void *p; const fld *t; int nt; double old[20][4];
    up();
    if (w < 3) { o = made(&TY(VolumeParams), NOARGS, DICT()); if (!o) return; p = ((ST(VolumeParams) *)o)->_volume_par; t = f_vol; nt = LEN(f_vol); room = 2; }
    else if (w == 3) { o = made(&TY(TargetParams), NOARGS, NULL); if (!o) return; p = ((ST(TargetParams) *)o)->_targ_par; t = f_targ; nt = LEN(f_targ); room = 4; }
    else if (w == 4) { o = made(&TY(MultimediaParams), NOARGS, DICT()); if (!o) return; p = ((ST(MultimediaParams) *)o)->_mm_np; t = f_mm; nt = LEN(f_mm); room = 3; }
    else { o = made(&TY(ControlParams), T2(I(3), PyList_New(0)), NULL); if (!o) return; p = ((ST(ControlParams) *)o)->_control_par; t = f_ctl; nt = LEN(f_ctl); room = 2; exact = 1; }
    for (i = 0; i < nt; i++) for (k = 0; k < t[i].n; k++) { double x = val(t[i].kind); wr(p, &t[i], k, x); old[i][k] = x; }
    a = PyList_New(n); b = PyList_New(n);
    for (i = 0; i < n; i++) { ((PyListObject *)a)->ob_item[i] = w == 3 || w == 5 ? I(10 + i) : D(10 + i); ((PyListObject *)b)->ob_item[i] = D(20 + i); }
    if (w < 3) r = SET(o, w == 0 ? "set_X_lay" : w == 1 ? "set_Zmin_lay" : "set_Zmax_lay", a);
    else if (w == 3) r = SET(o, "set_grey_thresholds", a);
    else if (w == 4) r = CALL(o, "set_layers", T2(a, b), NULL);
    else r = SET(o, w == 5 ? "set_image_size" : "set_pixel_size", a);
    if (n > room || (exact && n != room)) {
        vp_assert(!r && RAISED(PyExc_ValueError), "a sequence that does not fit is refused");
        for (i = 0; i < nt; i++) for (k = 0; k < t[i].n; k++) vp_assert(rd(p, &t[i], k) == old[i][k], "a refused sequence changes nothing");
        vp_reach("refused");
    } else vp_assert(r != NULL && !r_err, "a sequence that fits is taken");
}
void h_layers(void)
{
    PyObject *o, *a, *b; mm_np *m; int n = vp_pick(vp_int("layers", 1, 3)), i; double n1, n3, n2[3], d[3];
    up(); o = made(&TY(MultimediaParams), NOARGS, DICT());
    if (!o) return;
    m = ((ST(MultimediaParams) *)o)->_mm_np; n1 = m->n1 = val('d'); n3 = m->n3 = val('d');
    a = PyTuple_New(n); b = PyTuple_New(n);
    for (i = 0; i < n; i++) { ((PyTupleObject *)a)->ob_item[i] = D(n2[i] = vp_double("n2", 0, 10)); ((PyTupleObject *)b)->ob_item[i] = D(d[i] = vp_double("d", 0, 1000)); }
    vp_assert(CALL(o, "set_layers", T2(a, b), NULL) != NULL && !r_err, "layers can be set");
    vp_assert((m->nlay == n) & (m->n1 == n1) & (m->n3 == n3), "the number of layers follows, the outer media stay");
    vp_assert(NUM(GET(o, "get_nlay")) == n, "the number of layers is reported");
    for (i = 0; i < n; i++) { vp_assert((m->n2[i] == n2[i]) & (m->d[i] == d[i]), "every layer has its index and thickness"); vp_assert((ITEM(GET(o, "get_n2"), i) == n2[i]) & (ITEM(GET(o, "get_d"), i) == d[i]), "and they are reported"); }
    vp_assert(!CALL(o, "set_layers", T2(a, T1(D(1))), NULL) == (n != 1), "lengths have to agree"); r_err = NULL;
    vp_reach("layers");
}
/* made from keywords */
void h_kw(void)
{
    PyObject *kw, *o, *flags; double v[12]; int i, w = vp_pick(vp_int("class", 0, 5)), n;
    up(); kw = DICT(); for (i = 0; i < 12; i++) v[i] = w == 3 ? vp_int("value", 0, 1000000) : vp_double("value", 0, 1e6);     /* -1 is looked at in every single setter */
    if (w == 0) {
        track_par *t; n = vp_int("add", 0, 1);
        PUT(kw, "accel_lim", D(v[0])); PUT(kw, "angle_lim", D(v[1])); PUT(kw, "velocity_lims", T3(T2(D(v[2]), D(v[3])), T2(D(v[4]), D(v[5])), T2(D(v[6]), D(v[7])))); PUT(kw, "add_particle", I(n));
        if (!(o = made(&TY(TrackingParams), NOARGS, kw))) return;
        t = ((ST(TrackingParams) *)o)->_track_par;
        vp_assert((t->dacc == v[0]) & (t->dangle == v[1]) & (t->dvxmin == v[2]) & (t->dvxmax == v[3]) & (t->dvymin == v[4]) & (t->dvymax == v[5]) & (t->dvzmin == v[6]) & (t->dvzmax == v[7]) & (t->add == n), "the keywords reach their fields");
        vp_assert((t->dsumg == 0) & (t->dn == 0) & (t->dnx == 0) & (t->dny == 0), "the other limits are 0"); vp_reach("tracking");
    } else if (w == 1) {
        sequence_par *s; int a = vp_int("first", 0, 1000), b = vp_int("last", 0, 1000);
        PUT(kw, "image_base", T2(S("one/a"), S("two"))); PUT(kw, "frame_range", T2(I(a), I(b)));
        if (!(o = made(&TY(SequenceParams), NOARGS, kw))) return;
        s = ((ST(SequenceParams) *)o)->_sequence_par;
        vp_assert((s->num_cams == 2) & (s->first == a) & (s->last == b) & !strcmp(s->img_base_name[0], "one/a") & !strcmp(s->img_base_name[1], "two"), "the keywords reach their fields"); vp_reach("sequence");
    } else if (w == 2) {
        volume_par *p;
        PUT(kw, "x_span", T2(D(v[0]), D(v[1]))); PUT(kw, "z_spans", T2(T2(D(v[2]), D(v[3])), T2(D(v[4]), D(v[5])))); PUT(kw, "pixels_x", D(v[6])); PUT(kw, "pixels_y", D(v[7])); PUT(kw, "pixels_tot", D(v[8]));
        PUT(kw, "ref_gray", D(v[9])); PUT(kw, "min_correlation", D(v[10])); PUT(kw, "epipolar_band", D(v[11]));
        if (!(o = made(&TY(VolumeParams), NOARGS, kw))) return;
        p = ((ST(VolumeParams) *)o)->_volume_par;
        vp_assert((p->X_lay[0] == v[0]) & (p->X_lay[1] == v[1]) & (p->Zmin_lay[0] == v[2]) & (p->Zmax_lay[0] == v[3]) & (p->Zmin_lay[1] == v[4]) & (p->Zmax_lay[1] == v[5]), "the spans reach their fields");
        vp_assert((p->cnx == v[6]) & (p->cny == v[7]) & (p->cn == v[8]) & (p->csumg == v[9]) & (p->corrmin == v[10]) & (p->eps0 == v[11]), "the keywords reach their fields"); vp_reach("volume");
    } else if (w == 3) {
        target_par *p; PyObject *g = PyList_New(4); for (i = 0; i < 4; i++) ((PyListObject *)g)->ob_item[i] = I((int)v[i]);
        PUT(kw, "discont", I((int)v[4])); PUT(kw, "gvthresh", g); PUT(kw, "pixel_count_bounds", T2(I((int)v[5]), I((int)v[6]))); PUT(kw, "xsize_bounds", T2(I((int)v[7]), I((int)v[8])));
        PUT(kw, "ysize_bounds", T2(I((int)v[9]), I((int)v[10]))); PUT(kw, "min_sum_grey", I((int)v[11])); PUT(kw, "cross_size", I(3));
        if (!(o = made(&TY(TargetParams), NOARGS, kw))) return;
        p = ((ST(TargetParams) *)o)->_targ_par;
        for (i = 0; i < 4; i++) vp_assert(p->gvthres[i] == v[i], "the thresholds reach their cameras");
        vp_assert((p->discont == v[4]) & (p->nnmin == v[5]) & (p->nnmax == v[6]) & (p->nxmin == v[7]) & (p->nxmax == v[8]) & (p->nymin == v[9]) & (p->nymax == v[10]) & (p->sumg_min == v[11]) & (p->cr_sz == 3), "the keywords reach their fields"); vp_reach("target");
    } else if (w == 4) {
        control_par *c; int hp = vp_pick(vp_int("hp", 0, 1)), al = vp_pick(vp_int("allcam", 0, 1)), hd = vp_pick(vp_int("headers", 0, 1)), ix = vp_int("imx", 1, 10000), iy = vp_int("imy", 1, 10000);
        flags = PyList_New(0); if (hp) PyList_Append(flags, S("hp")); if (al) PyList_Append(flags, S("allcam")); if (hd) PyList_Append(flags, S("headers"));
        PUT(kw, "flags", flags); PUT(kw, "image_size", T2(I(ix), I(iy))); PUT(kw, "pixel_size", T2(D(v[0]), D(v[1]))); PUT(kw, "cam_side_n", D(v[2])); PUT(kw, "wall_ns", T1(D(v[3]))); PUT(kw, "wall_thicks", T1(D(v[4]))); PUT(kw, "object_side_n", D(v[5]));
        if (!(o = made(&TY(ControlParams), T1(I(2)), kw))) return;
        c = ((ST(ControlParams) *)o)->_control_par;
        vp_assert((c->num_cams == 2) & (c->hp_flag == hp) & (c->allCam_flag == al) & (c->tiff_flag == hd) & (c->imx == ix) & (c->imy == iy) & (c->pix_x == v[0]) & (c->pix_y == v[1]) & (c->chfield == 0), "the keywords reach their fields");
        vp_assert((c->mm->n1 == v[2]) & (c->mm->n2[0] == v[3]) & (c->mm->d[0] == v[4]) & (c->mm->n3 == v[5]) & (c->mm->nlay == 1), "the media reach their fields"); vp_reach("control");
    } else {
        mm_np *m;
        PUT(kw, "n1", D(v[0])); PUT(kw, "n2", T2(D(v[1]), D(v[2]))); PUT(kw, "d", T2(D(v[3]), D(v[4]))); PUT(kw, "n3", D(v[5]));
        if (!(o = made(&TY(MultimediaParams), NOARGS, kw))) return;
        m = ((ST(MultimediaParams) *)o)->_mm_np;
        vp_assert((m->nlay == 2) & (m->n1 == v[0]) & (m->n2[0] == v[1]) & (m->n2[1] == v[2]) & (m->d[0] == v[3]) & (m->d[1] == v[4]) & (m->n3 == v[5]), "the keywords reach their fields"); vp_reach("media");
    }
}
/* == and != of two objects */
void h_equal(void)
{
    PyObject *a, *b; volume_par *p, *q; const fld *f; int i, k, w; double v[9][2];
    up(); a = made(&TY(VolumeParams), NOARGS, DICT()); b = made(&TY(VolumeParams), NOARGS, DICT());
    if (!a || !b) return;
    p = ((ST(VolumeParams) *)a)->_volume_par; q = ((ST(VolumeParams) *)b)->_volume_par;
    for (i = 0; i < LEN(f_vol); i++) for (k = 0; k < f_vol[i].n; k++) { v[i][k] = val('d'); wr(p, &f_vol[i], k, v[i][k]); wr(q, &f_vol[i], k, v[i][k]); }
    vp_assert(TY(VolumeParams).tp_richcompare(a, b, Py_EQ) == Py_True && TY(VolumeParams).tp_richcompare(a, b, Py_NE) == Py_False, "objects with the same values are equal");
    w = vp_pick(vp_int("which", 0, LEN(f_vol) - 1)); f = &f_vol[w]; k = vp_pick(vp_int("place", 0, f->n - 1));
    wr(q, f, k, v[w][k] + 1);
    vp_assert(TY(VolumeParams).tp_richcompare(a, b, Py_EQ) == Py_False && TY(VolumeParams).tp_richcompare(a, b, Py_NE) == Py_True, "objects that differ are not equal");
    vp_reach("equal");
}
/* names of image files */
void h_names(void)
{
    PyObject *o, *kw, *r; int w = vp_pick(vp_int("which", 0, 2)), cam = vp_pick(vp_int("camera", 0, 2)), i; const char *get, *set; char **all; static char longname[400];
    up();
    if (w == 0) { kw = DICT(); PUT(kw, "num_cams", I(3)); if (!(o = made(&TY(SequenceParams), NOARGS, kw))) return; all = ((ST(SequenceParams) *)o)->_sequence_par->img_base_name; set = "set_img_base_name"; get = "get_img_base_name"; }
    else { if (!(o = made(&TY(ControlParams), T2(I(3), PyList_New(0)), NULL))) return; all = w == 1 ? ((ST(ControlParams) *)o)->_control_par->img_base_name : ((ST(ControlParams) *)o)->_control_par->cal_img_base_name; set = w == 1 ? "set_img_base_name" : "set_cal_img_base_name"; get = w == 1 ? "get_img_base_name" : "get_cal_img_base_name"; }
    for (i = 0; i < 3; i++) strcpy(all[i], "former/name");
    r = CALL(o, set, T2(I(cam), S("img/cam")), NULL); vp_assert(r != NULL && !r_err, "a name can be set");
    for (i = 0; i < 3; i++) vp_assert(strcmp(all[i], i == cam ? "img/cam" : "former/name") == 0, "the name of that camera changes and no other");
    r = CALL(o, get, T1(I(cam)), NULL); vp_assert(r && strcmp(r_text(r), "img/cam") == 0, "the name is reported");
    for (i = 0; i < 300; i++) longname[i] = 'a';
    r = CALL(o, set, T2(I(cam), S(longname)), NULL); vp_assert(!r && RAISED(PyExc_ValueError), "a name that does not fit is refused");
    vp_assert(strcmp(all[cam], "img/cam") == 0, "a refused name changes nothing");
    vp_reach("names");
}
