/* C29, tracking_framebuf: Target, TargetArray, Frame. */
#include "pyx.h"
#include "tracking_framebuf.c"
#include "pyrt.h"
#define N(n) n##_
typedef struct __pyx_obj_4optv_17tracking_framebuf_Target OTarget;
#define T_Target __pyx_type_4optv_17tracking_framebuf_Target
#define T_Array __pyx_type_4optv_17tracking_framebuf_TargetArray
#define T_Frame __pyx_type_4optv_17tracking_framebuf_Frame
static void up(void) { vp_assert(module_up(), "the module comes up"); __pyx_ptype_5numpy_ndarray = &R_Array; }
static target rnd(void)
{
    target t; memset(&t, 0, sizeof t);
    t.pnr = vp_int("pnr", -2, 100000); t.x = vp_double("x", -1e4, 1e4); t.y = vp_double("y", -1e4, 1e4);
    t.n = vp_int("n", 0, 10000); t.nx = vp_int("nx", 0, 1000); t.ny = vp_int("ny", 0, 1000);
    t.sumg = vp_int("sumg", 0, 1000000); t.tnr = vp_int("tnr", -2, 100000);
    return t;
}
static int same(const target *a, const target *b)
{ return (a->pnr == b->pnr) & (a->x == b->x) & (a->y == b->y) & (a->n == b->n) & (a->nx == b->nx) & (a->ny == b->ny) & (a->sumg == b->sumg) & (a->tnr == b->tnr); }
/* what the getters report */
static target shown(PyObject *o)
{
    target t; PyObject *p = GET(o, "pos"), *c = GET(o, "count_pixels"); memset(&t, 0, sizeof t);
    t.pnr = NUM(GET(o, "pnr")); t.tnr = NUM(GET(o, "tnr")); t.sumg = NUM(GET(o, "sum_grey_value"));
    t.x = ITEM(p, 0); t.y = ITEM(p, 1); t.n = ITEM(c, 0); t.nx = ITEM(c, 1); t.ny = ITEM(c, 2);
    return t;
}
void h_target(void)
{
    target t = rnd(), v = rnd(), e; PyObject *o, *r = NULL, *kw; int w = vp_pick(vp_int("which", 0, 5)); OTarget *p;
    up();
    if (w == 5) {       /* made from keywords */
        kw = DICT(); PUT(kw, "pnr", I(v.pnr)); PUT(kw, "tnr", I(v.tnr)); PUT(kw, "x", D(v.x)); PUT(kw, "y", D(v.y)); PUT(kw, "n", I(v.n)); PUT(kw, "nx", I(v.nx)); PUT(kw, "ny", I(v.ny)); PUT(kw, "sumg", I(v.sumg));
        o = r_new(&T_Target, NOARGS, kw); vp_assert(o != NULL && !r_err, "a target can be made from its values");
        if (!o) return;
        p = (OTarget *)o; vp_assert(same(p->_targ, &v), "the target holds the values given"); e = shown(o); vp_assert(same(&e, &v), "and shows them");
        vp_reach("made"); return;
    }
    o = r_new(&T_Target, NOARGS, NULL); vp_assert(o != NULL && !r_err, "an empty target can be made");
    if (!o) return;
    p = (OTarget *)o; p->_targ = &t; e = t;
    switch (w) {
    case 0: r = SET(o, "set_pnr", I(v.pnr)); e.pnr = v.pnr; break;
    case 1: r = SET(o, "set_tnr", I(v.tnr)); e.tnr = v.tnr; break;
    case 2: r = SET(o, "set_pos", vp_pick(vp_int("list", 0, 1)) ? T2(D(v.x), D(v.y)) : (PyObject *)PySequence_Tuple(T2(D(v.x), D(v.y)))); e.x = v.x; e.y = v.y; break;
    case 3: r = CALL(o, "set_pixel_counts", T3(I(v.n), I(v.nx), I(v.ny)), NULL); e.n = v.n; e.nx = v.nx; e.ny = v.ny; break;
    case 4: r = SET(o, "set_sum_grey_value", I(v.sumg)); e.sumg = v.sumg; break;
    }
    vp_assert(r != NULL && !r_err, "the setter succeeds");
    vp_assert(same(&t, &e), "the setter changes its value and no other"); v = shown(o);
    vp_assert(same(&v, &e), "the getters report what was set"); vp_reach("set");
}
void h_array(void)
{
    PyObject *o, *q; struct __pyx_obj_4optv_17tracking_framebuf_TargetArray *a; target c[3], s; int i, n = 3, ix;
    up();
    o = r_new(&T_Array, T1(I(n)), NULL); vp_assert(o != NULL && !r_err, "an array can be made");
    if (!o) return;
    a = (void *)o; vp_assert(PyObject_Size(o) == n, "the length is the size given");
    for (i = 0; i < n; i++) a->_tarr[i] = c[i] = rnd();
    ix = vp_pick(vp_int("index", -2, 5));
    q = PySequence_GetItem(o, ix);
    if (ix < 0 || ix >= n) {
        if (ix >= n) { vp_assert(!q && RAISED(PyExc_IndexError), "an index outside is refused"); vp_reach("outside"); }
        return;
    }
    vp_assert(q != NULL && !r_err, "an index inside is served");
    if (!q) return;
    s = shown(q); vp_assert(same(&s, &c[ix]), "the item shows the values of its place");
    s.tnr = vp_int("new", 0, 1000); SET(q, "set_tnr", I(s.tnr)); c[ix].tnr = s.tnr;
    for (i = 0; i < n; i++) vp_assert(same(&a->_tarr[i], &c[i]), "writing to an item changes that place of the array only");
    vp_reach("inside");
}
void h_sort(void)
{
    PyObject *o; struct __pyx_obj_4optv_17tracking_framebuf_TargetArray *a; target c[3]; int i, j, n = 3;
    up();
    o = r_new(&T_Array, T1(I(n)), NULL);
    if (!o) return;
    a = (void *)o;
    for (i = 0; i < n; i++) { a->_tarr[i] = c[i] = rnd(); a->_tarr[i].tnr = c[i].tnr = i; }
    vp_assert(GET(o, "sort_y") != NULL && !r_err, "sorting succeeds");
    for (i = 0; i < n; i++) {
        j = vp_pick(a->_tarr[i].tnr);
        vp_assert(a->_tarr[i].pnr == i, "sorted targets are numbered by their place");
        c[j].pnr = i; vp_assert(same(&a->_tarr[i], &c[j]), "a sorted target keeps its values");
        if (i) vp_assert(a->_tarr[i - 1].y <= a->_tarr[i].y, "the targets are in order of y");
    }
    vp_reach("sorted");
}
void h_frame(void)
{
    PyObject *o, *q; struct __pyx_obj_4optv_17tracking_framebuf_Frame *f; frame *g; int i, k, cam, n = 2; target c[2][3]; r_arr *r;
    up();
    o = r_new(&T_Frame, T1(I(2)), NULL); vp_assert(o != NULL && !r_err, "an empty frame can be made");
    if (!o) return;
    f = (void *)o; g = malloc(sizeof *g); frame_init(g, 2, 3); f->_frm = g; g->num_parts = n;
    for (i = 0; i < 2; i++) { g->num_targets[i] = 3; for (k = 0; k < 3; k++) g->targets[i][k] = c[i][k] = rnd(); }
    for (i = 0; i < n; i++) { for (k = 0; k < 3; k++) g->path_info[i].x[k] = vp_double("pos", -1e4, 1e4); for (k = 0; k < 4; k++) g->correspond[i].p[k] = k < 2 ? vp_int("member", -1, 2) : -1; g->correspond[i].nr = i; }
    r = (r_arr *)GET(o, "positions"); vp_assert(r != NULL && !r_err, "the positions can be had");
    if (!r) return;
    vp_assert((r->nd == 2) & (r->dim[0] == n) & (r->dim[1] == 3), "there is a row of three for each particle");
    for (i = 0; i < n; i++) for (k = 0; k < 3; k++) vp_assert(*AT2(r, i, k) == g->path_info[i].x[k], "the row is the particle's position");
    cam = vp_pick(vp_int("camera", 0, 1));
    r = (r_arr *)CALL(o, "target_positions_for_camera", T1(I(cam)), NULL); vp_assert(r != NULL && !r_err, "the targets of a camera can be had");
    if (!r) return;
    vp_assert((r->nd == 2) & (r->dim[0] == n) & (r->dim[1] == 2), "there is a row of two for each particle");
    for (i = 0; i < n; i++) {
        k = vp_pick(g->correspond[i].p[cam]);
        vp_assert((*AT2(r, i, 0) == (k < 0 ? -1e30 : c[cam][k].x)) & (*AT2(r, i, 1) == (k < 0 ? -1e30 : c[cam][k].y)), "the row is the particle's target in that camera, or not-a-number");
        if (k < 0) vp_reach("none"); else vp_reach("target");
    }
}
