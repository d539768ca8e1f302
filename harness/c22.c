/* C22, C23, C31: one tracking step.
 * The candidate search, the search for unused targets, triangulation, projection and angle are replaced by tables of
 * symbolic values; candidate generation, limits, links, added particles and counts are the code's own. */
#include "vp.h"
#include "track.h"
#ifndef PATHS
#define PATHS 2                 /* particles per frame the harness defines */
#endif
#ifndef SAME
#define SAME 0                  /* everyone has the same candidate */
#endif
#ifndef ROOM
#define ROOM 4                  /* particles a frame has room for */
#endif
#ifndef PREVMASK
#define PREVMASK 1              /* which current particles have a predecessor */
#endif
#ifndef QA
#define QA 0                    /* unused targets may be found for the frame after the next */
#endif
#ifndef QB
#define QB 0                    /* and for the next frame */
#endif
#ifndef ADD
#define ADD 0
#endif
#ifndef NC1
#define NC1 PATHS               /* current particles */
#endif
#ifndef NCAND
#define NCAND 2                 /* candidates of a current particle */
#endif
#ifndef NBACK
#define NBACK 2
#endif
#ifndef LASTCAND
#define LASTCAND NCAND          /* candidates of the last particle */
#endif
static const double DIR[3] = {2, 3, 6};
static double tpos(int kind, int i)     /* everything lies on a line, so that distances are rational */
{
    switch (kind) {
    case 0: return 10 * i - 3 - i;      /* previous frame */
    case 1: return 10 * i;
    case 2: return 60 + 8 * i;
    default: return 115 + 13 * i;
    }
}
static void put(vec3d v, double t) { int i; for (i = 0; i < 3; i++) v[i] = DIR[i] * t; }
static int at(const double *v, double t) { return v[0] == DIR[0] * t && v[1] == DIR[1] * t && v[2] == DIR[2] * t; }
static double absd(double a, double b) { return 7 * (a > b ? a - b : b - a); }

static P path[TR_BUFSPACE][ROOM];
static corres cor[TR_BUFSPACE][ROOM];
#define TROOM 4
static target targ[TR_BUFSPACE][2][TROOM];
static target *targs[TR_BUFSPACE][2];
static int ntarg[TR_BUFSPACE][2];
static frame frm[TR_BUFSPACE], *ring[2 * TR_BUFSPACE], *B[TR_BUFSPACE];
static framebuf_base fb;
static fb_vtable vt;
static track_par tpar;
static volume_par vpar;
static control_par cpar;
static mm_np mm;
static sequence_par seqp;
static tracking_run run;
static int backstep;
static foundpix *back_candidates(vec3d center, vec2d proj[], frame *f, tracking_run *r);
static int back_assess(vec3d pos, vec2d tp[], int inds[][MAX_CANDS], frame *f);
static void back_angle(vec3d s, vec3d p, vec3d q, double *angle, double *acc);
static Calibration cals[2], *calp[2] = {&cals[0], &cals[1]};
static int nwritten, written, nread;
static frame *wrote;

static int list1[PATHS][NCAND], n1[PATHS], freq1[PATHS][NCAND];
static int n2[PATHS][PATHS], freq2[PATHS][PATHS];
static double ang0[PATHS][PATHS], acc0[PATHS][PATHS], ang1[PATHS][PATHS], acc1[PATHS][PATHS];
static double angA[PATHS][PATHS], accA[PATHS][PATHS], angB[PATHS], accB[PATHS], newA[PATHS][PATHS], newB[PATHS];
static int qualA[PATHS][PATHS], qualB[PATHS], triang, asked1[PATHS], asked2[PATHS][PATHS], parts2 = PATHS, parts3 = PATHS;

static int haspred(int h) { return (PREVMASK >> h) & 1; }
static double center1(int h) { return haspred(h) ? 2 * tpos(1, h) - tpos(0, h) : tpos(1, h); }
static double center2(int h, int c)
{ return haspred(h) ? 0.5 * (5 * tpos(2, c) - 4 * tpos(1, h) + tpos(0, h)) : 2 * tpos(2, c) - tpos(1, h); }

void vp_override_point_to_pixel(vec2d v, vec3d p, Calibration *cal, control_par *cp)
{ v[0] = p[0] + 1000 * (1 + (cal == &cals[1])); v[1] = p[1]; (void)cp; }

foundpix *vp_override_sorted_candidates_in_volume(vec3d center, vec2d proj[], frame *f, tracking_run *r)
{
    foundpix *w; int h, c, k, cam, own;
    if (backstep) return back_candidates(center, proj, f, r);
    vp_assert(r == &run, "the run is passed on");
    if (f == B[2]) {
        for (h = 0; h < NC1; h++) if (at(center, center1(h))) {
            vp_assert(asked1[h]++ == 0, "one search for each particle");
            for (cam = 0; cam < 2; cam++) {
                own = !haspred(h) && B[1]->correspond[h].p[cam] != CORRES_NONE;
                vp_assert(proj[cam][0] == (own ? B[1]->targets[cam][B[1]->correspond[h].p[cam]].x : center[0] + 1000 * (1 + cam))
                        && proj[cam][1] == (own ? B[1]->targets[cam][B[1]->correspond[h].p[cam]].y : center[1]),
                          "the search starts at the particle's own target, or at the projected prediction");
            }
            if (!n1[h]) return NULL;
            w = (foundpix *) malloc((n1[h] + 1) * sizeof *w);
            for (k = 0; k < n1[h]; k++) { w[k].ftnr = list1[h][k]; w[k].freq = freq1[h][k]; }
            w[k].ftnr = -1;
            return w;
        }
    } else if (f == B[3]) {
        for (h = 0; h < NC1; h++) for (c = 0; c < PATHS; c++) if (asked1[h] && at(center, center2(h, c))) {
            vp_assert(asked2[h][c]++ == 0, "one search for each candidate");
            for (cam = 0; cam < 2; cam++)
                vp_assert(proj[cam][0] == center[0] + 1000 * (1 + cam) && proj[cam][1] == center[1], "search at the projected prediction");
            if (!n2[h][c]) return NULL;
            w = (foundpix *) malloc(2 * sizeof *w);
            w[0].ftnr = c; w[0].freq = freq2[h][c]; w[1].ftnr = -1;
            return w;
        }
    }
    vp_assert(0, "candidates are searched at the predicted position of a particle");
    return NULL;
}
int vp_override_assess_new_position(vec3d pos, vec2d tp[], int inds[][MAX_CANDS], frame *f, tracking_run *r)
{
    int h, c, k, q = -1, cam;
    (void)r;
    if (backstep) return back_assess(pos, tp, inds, f);
    for (cam = 0; cam < 2; cam++) { tp[cam][0] = tp[cam][1] = 1e10; inds[cam][0] = PT_UNUSED; }
    if (f == B[3]) {
        for (h = 0; h < NC1; h++) for (c = 0; c < PATHS; c++) if (asked1[h] && at(pos, center2(h, c))) { q = qualA[h][c]; triang = h * 10 + c; }
    } else if (f == B[2]) {
        for (h = 0; h < NC1; h++) if (asked1[h] && at(pos, center1(h))) { q = qualB[h]; triang = 100 + h; }
    }
    vp_assert(q >= 0, "unused targets are searched at a predicted position");
    if (q < 0) q = 0;
    for (k = 0; k < 2; k++) if (q > k) { inds[k][0] = 1 + (triang >= 100); tp[k][0] = tp[k][1] = triang; }
    return q;
}
double vp_override_point_position(vec2d t[], int n, mm_np *m, Calibration *c[], vec3d out)
{
    vp_assert(n == 2 && m == &mm && c == calp && t[0][0] == triang, "the targets found are triangulated");
    put(out, triang >= 100 ? newB[triang - 100] : newA[triang / 10][triang % 10]);
    return 0;
}
static int pairis(const double *p, const double *q, double a, double b) { return (at(p, a) & at(q, b)) | (at(p, b) & at(q, a)); }
void vp_override_angle_acc(vec3d s, vec3d p, vec3d q, double *angle, double *acc)
{
    int h, c;
    if (backstep) { back_angle(s, p, q, angle, acc); return; }
    for (h = 0; h < NC1; h++) for (c = 0; c < PATHS; c++) {
        if (!asked1[h]) continue;
        if (at(s, tpos(1, h)) && pairis(p, q, center1(h), tpos(2, c))) { *angle = ang0[h][c]; *acc = acc0[h][c]; return; }
        if (at(s, tpos(2, c)) && pairis(p, q, tpos(3, c), center2(h, c))) { *angle = ang1[h][c]; *acc = acc1[h][c]; return; }
        if (triang == h * 10 + c && at(s, tpos(2, c)) && pairis(p, q, newA[h][c], center2(h, c))) { *angle = angA[h][c]; *acc = accA[h][c]; return; }
    }
    for (h = 0; h < NC1; h++)
        if (triang == 100 + h && at(s, tpos(1, h)) && pairis(p, q, center1(h), newB[h])) { *angle = angB[h]; *acc = accB[h]; return; }
    vp_assert(0, "angle and acceleration are those between prediction and candidate");
    *angle = *acc = 0;
}
static int rd(fbp self, int n, int links) { (void)self; (void)links; nread = n; return 1; }
static int wr(fbp self, int n) { nwritten++; written = n; wrote = self->buf[0]; return 1; }

static void setup(void)
{
    int i, h, c, k;
    for (i = 0; i < TR_BUFSPACE; i++) {
        frm[i].path_info = path[i]; frm[i].correspond = cor[i]; frm[i].targets = targs[i]; frm[i].num_targets = ntarg[i];
        frm[i].num_cams = 2; frm[i].max_targets = ROOM; frm[i].num_parts = PATHS;
        for (c = 0; c < 2; c++) {
            targs[i][c] = targ[i][c]; ntarg[i][c] = TROOM;
            for (h = 0; h < TROOM; h++) { targ[i][c][h].x = 7000 + 100 * i + 10 * h + c; targ[i][c][h].y = 7500 + 100 * i + 10 * h + c; targ[i][c][h].tnr = h < PATHS ? h : -1; }
        }
        for (h = 0; h < ROOM; h++) {
            put(path[i][h].x, h < PATHS ? tpos(i, h) : -9999);
            path[i][h].prev = h < PATHS ? PREV_NONE : 1; path[i][h].next = h < PATHS ? NEXT_NONE : 1; path[i][h].prio = 7;
            path[i][h].inlist = vp_int("stale", 0, 2); path[i][h].finaldecis = 1000000; path[i][h].decis[0] = -1; path[i][h].linkdecis[0] = 1;
            cor[i][h].nr = h + 1;
            for (c = 0; c < 4; c++) cor[i][h].p[c] = (h + c) % 3 && h < PATHS ? h : CORRES_NONE;
        }
        ring[i] = ring[i + TR_BUFSPACE] = &frm[i]; B[i] = &frm[i];
    }
    frm[1].num_parts = NC1;
    fb.buf = ring; fb._ring_vec = ring; fb.buf_len = TR_BUFSPACE; fb.num_cams = 2;
    vt.read_frame_at_end = rd; vt.write_frame_from_start = wr; fb._vptr = &vt;
    cpar.num_cams = 2; cpar.mm = &mm; cpar.imx = cpar.imy = 100;
    run.fb = &fb; run.seq_par = &seqp; run.tpar = &tpar; run.vpar = &vpar; run.cpar = &cpar; run.cal = calp;
    run.lmax = 56; run.flatten_tol = 1;
    run.npart = 100; run.nlinks = 50;
    tpar.dvxmin = tpar.dvymin = tpar.dvzmin = -1000; tpar.dvxmax = tpar.dvymax = tpar.dvzmax = 1000;
    tpar.dacc = 4; tpar.dangle = 100; tpar.add = ADD;
    vpar.X_lay[0] = -10000; vpar.X_lay[1] = 10000; run.ymin = -10000; run.ymax = 10000; vpar.Zmin_lay[0] = vpar.Zmin_lay[1] = -10000; vpar.Zmax_lay[0] = vpar.Zmax_lay[1] = 10000;
    for (h = 0; h < NC1; h++) {
        n1[h] = h == NC1 - 1 ? LASTCAND : NCAND;
        for (k = 0; k < n1[h]; k++) { list1[h][k] = SAME ? k : (h + k) % 2; freq1[h][k] = 2 + (h + k) % 2; }
        if (haspred(h)) { path[0][h].next = h; path[1][h].prev = h; }
        qualB[h] = QB && ADD ? vp_pick(vp_int("found", 0, 2)) : 0;
        newB[h] = 30 + h; angB[h] = vp_double("angle", 0, 200); accB[h] = vp_double("acc", 0, 20);
        for (c = 0; c < PATHS; c++) {
            n2[h][c] = SAME && c >= NCAND ? 0 : vp_pick(vp_int("second", 0, 1)); freq2[h][c] = 2;
            qualA[h][c] = QA ? vp_pick(vp_int("found", 0, 2)) : 0;
            newA[h][c] = 130 + 10 * h + c;
            ang0[h][c] = vp_double("angle", 0, 200); acc0[h][c] = vp_double("acc", 0, 20);
            ang1[h][c] = vp_double("angle", 0, 200); acc1[h][c] = vp_double("acc", 0, 20);
            angA[h][c] = vp_double("angle", 0, 200); accA[h][c] = vp_double("acc", 0, 20);
        }
    }
}
static int passes(double angle, double acc) { return ((acc < 4) & (angle < 100)) | (acc < 0.4); }
static int inside(double from, double to)
{
    double d = to - from; 
    return (tpar.dvxmin < 2 * d) & (2 * d < tpar.dvxmax) & (tpar.dvymin < 3 * d) & (3 * d < tpar.dvymax) & (tpar.dvzmin < 6 * d) & (6 * d < tpar.dvzmax);
}
static int nexp; static double efit[16]; static int ecand[16];
static void expect(double dl, double acc, double angle, int quality, int cand)
{ efit[nexp] = (dl / 56 + acc / 4 + angle / 100) / quality; ecand[nexp++] = cand; }
/* the links of the frames a and b: successor in a, predecessor in b */
static void mutual(frame *a, frame *b)
{
    int h, k;
    for (h = 0; h < a->num_parts; h++) {
        k = a->path_info[h].next;
        vp_assert(k == NEXT_NONE || (k >= 0 && k < b->num_parts), "a link stays inside its frame");
        if (k >= 0 && k < b->num_parts) vp_assert(b->path_info[k].prev == h, "the successor names this particle as its predecessor");
    }
    for (h = 0; h < b->num_parts; h++) {
        k = b->path_info[h].prev;
        vp_assert(k == PREV_NONE || (k >= 0 && k < a->num_parts), "a link stays inside its frame");
        if (k >= 0 && k < a->num_parts) vp_assert(a->path_info[k].next == h, "the predecessor names this particle as its successor");
    }
}
void h_forward(void)
{
    int h, c, k, i, links = 0, step = 11, best, nadd2 = 0, nadd3 = 0, seen; double dl, s1, s2; P *p;
    setup();
#ifdef UNREAD       /* frames that could not be read */
    if (UNREAD & 1) { parts2 = frm[2].num_parts = -1; n1[0] = 0; }
    if (UNREAD & 2) { parts3 = frm[3].num_parts = -1; for (c = 0; c < PATHS; c++) n2[0][c] = 0; }
#endif
    seqp.first = 10; seqp.last = 13 + vp_pick(vp_int("more", 0, 1));
#ifdef LIMITS
    tpar.dvxmax = vp_double("xmax", 0, 200); tpar.dvzmin = vp_double("zmin", -100, 320);
#endif
    trackcorr_c_loop(&run, step);
    for (h = 0; h < NC1; h++) {
        p = &B[1]->path_info[h];
        nexp = 0;
        vp_assert(asked1[h] == 1, "candidates are searched for every particle");
        for (k = 0; k < n1[h]; k++) {
            c = list1[h][k];
            vp_assert(asked2[h][c] == 1, "and for every candidate");
            dl = (absd(tpos(1, h), tpos(2, c)) + absd(tpos(2, c), tpos(3, c))) / 2;
            if (n2[h][c] && inside(tpos(2, c), tpos(3, c))) {
                s1 = haspred(h) ? (ang0[h][c] + ang1[h][c]) / 2 : ang1[h][c]; s2 = haspred(h) ? (acc0[h][c] + acc1[h][c]) / 2 : acc1[h][c];
                if (passes(s1, s2)) expect(dl, s2, s1, freq2[h][c] + freq1[h][k], c);
            }
            if (qualA[h][c] >= 2 && inside(tpos(2, c), newA[h][c]) && passes(angA[h][c], accA[h][c])) {
                expect((absd(tpos(1, h), tpos(2, c)) + absd(newA[h][c], tpos(2, c))) / 2, accA[h][c], angA[h][c], qualA[h][c] + freq1[h][k], c);
                if (ADD && parts3 >= 0 && parts3 + nadd3 < ROOM) {
                    vp_assert(at(B[3]->path_info[parts3 + nadd3].x, newA[h][c]), "the triangulated particle is added");
                    nadd3++;
                }
            }
            if (!nexp && haspred(h) && inside(tpos(1, h), tpos(2, c)) && passes(ang0[h][c], acc0[h][c]))
                expect((absd(tpos(1, h), tpos(2, c)) + absd(tpos(0, h), tpos(1, h))) / 2, acc0[h][c], ang0[h][c], freq1[h][k], c);
        }
        if (ADD && !nexp && haspred(h) && qualB[h] >= 2 && inside(tpos(1, h), newB[h]) && passes(angB[h], accB[h])) {
            if (parts2 >= 0 && parts2 + nadd2 < ROOM) {
                expect((absd(tpos(1, h), newB[h]) + absd(tpos(0, h), tpos(1, h))) / 2, accB[h], angB[h], qualB[h], parts2 + nadd2);
                vp_assert(at(B[2]->path_info[parts2 + nadd2].x, newB[h]), "the triangulated particle is added");
                nadd2++;
            }
        }
        vp_assert(p->inlist == nexp, "exactly the candidates that satisfy the limits are kept");
        for (i = 0; i < nexp; i++) {
            vp_assert(i == 0 || p->decis[i - 1] <= p->decis[i], "best candidates first");
            seen = 0;
            for (k = 0; k < nexp; k++) seen |= (p->linkdecis[k] == ecand[i]) & vp_close(p->decis[k], efit[i], 1e-4);
            vp_assert(seen, "a candidate is kept with its own fitness");
        }
    }
    vp_assert(B[2]->num_parts == parts2 + nadd2 && B[3]->num_parts == parts3 + nadd3 && B[1]->num_parts == NC1, "particles are only added by the rules");
    mutual(B[1], B[2]);
    mutual(B[0], B[1]);
    for (h = 0; h < NC1; h++) {
        p = &B[1]->path_info[h];
        vp_assert(p->prev == (haspred(h) ? h : PREV_NONE), "earlier links are not changed");
        if (p->next != NEXT_NONE) links++;
        if (!p->inlist) { vp_assert(p->next == NEXT_NONE, "no candidate, no link"); continue; }
        vp_assert(vp_close(p->finaldecis, p->decis[0], 0), "the decision is that of the best candidate");
        best = p->linkdecis[0];
        if (p->next != NEXT_NONE) vp_assert(p->next == best, "the best candidate is linked");
        else {
            i = B[2]->path_info[best].prev;
            vp_assert(i >= 0 && i != h && i < NC1, "a particle loses its best candidate only to another particle");
            if (i >= 0 && i < NC1) vp_assert(B[1]->path_info[i].finaldecis <= p->finaldecis, "the better candidate wins");
            vp_reach("contested");
        }
    }
    for (h = 0; h < nadd2; h++) vp_assert(B[2]->path_info[parts2 + h].next == NEXT_NONE && B[2]->path_info[parts2 + h].prio == PRIO_DEFAULT, "an added particle has no other link");
    for (h = 0; h < nadd3; h++) vp_assert(B[3]->path_info[parts3 + h].next == NEXT_NONE && B[3]->path_info[parts3 + h].prev == PREV_NONE, "an added particle has no link");
    vp_assert(run.npart == 100 + NC1, "the particles of the frame are counted");
    for (i = h = 0; h < NC1; h++) {
        p = &B[1]->path_info[h];
        if (p->inlist && p->next == NEXT_NONE && B[2]->path_info[p->linkdecis[0]].prev > h) i++;
    }
    vp_assert(run.nlinks == 50 + links || run.nlinks == 50 + links + i, "the links made are counted");
#ifdef TAKEOVER
    if (i) vp_assert(run.nlinks == 50 + links, "a link taken over by a later particle is not counted");
#endif
    vp_assert(fb.buf[0] == B[1] && fb.buf[1] == B[2] && fb.buf[2] == B[3], "the buffer moves by one frame");
    vp_assert(nwritten == 1 && written == step && wrote == B[1], "the finished frame is written once with its own number");
    vp_assert(seqp.last == 14 ? nread == 14 : nread == 0, "the next frame of the sequence is read");
    if (links) vp_reach("linked");
    vp_reach("end");
}

/* ---------------------------------------------------------------------------------------------- backwards */
#ifndef NEXTMASK
#define NEXTMASK 3              /* particles of the current frame with a successor */
#endif
#ifndef OLDPREV
#define OLDPREV 0               /* particles of the earlier frame with a predecessor */
#endif
#ifndef TAKEN
#define TAKEN 0                 /* particles of the current frame already linked to the earlier one */
#endif
static int nread_b, wnum[8]; static frame *wfrm[8];
static double bang0[PATHS][PATHS], bacc0[PATHS][PATHS], bang1[PATHS][PATHS], bacc1[PATHS][PATHS];
/* kinds of position: 3 = the later frame ... 0 = the earliest */
static double bcenter(int h) { return 2 * tpos(2, h) - tpos(3, h); }
static double bpred(int h, int c) { return 0.5 * (5 * tpos(1, c) - 4 * tpos(2, h) + tpos(3, h)); }
static foundpix *back_candidates(vec3d center, vec2d proj[], frame *f, tracking_run *r)
{
    foundpix *w; int h, k, cam; (void)r;
    if (f == B[0]) return NULL;
    for (h = 0; h < NC1; h++) if (f == B[1] && at(center, bcenter(h))) {
        vp_assert(((NEXTMASK >> h) & 1) && !((TAKEN >> h) & 1), "only particles linked forward and not backward are continued");
        vp_assert(asked1[h]++ == 0, "one search for each particle");
        for (cam = 0; cam < 2; cam++)
            vp_assert(proj[cam][0] == center[0] + 1000 * (1 + cam) && proj[cam][1] == center[1], "search at the projected prediction");
        if (!n1[h]) return NULL;
        w = (foundpix *) malloc((n1[h] + 1) * sizeof *w);
        for (k = 0; k < n1[h]; k++) { w[k].ftnr = list1[h][k]; w[k].freq = freq1[h][k]; }
        w[k].ftnr = -1;
        return w;
    }
    vp_assert(0, "candidates are searched at the predicted position of a particle");
    return NULL;
}
static int back_assess(vec3d pos, vec2d tp[], int inds[][MAX_CANDS], frame *f)
{
    int h, k, q = 0;
    for (k = 0; k < 2; k++) { tp[k][0] = tp[k][1] = 1e10; inds[k][0] = PT_UNUSED; }
    if (f == B[0]) return 0;
    q = -1;
    for (h = 0; h < NC1; h++) if (f == B[1] && at(pos, bcenter(h))) { q = qualB[h]; triang = 100 + h; }
    vp_assert(q >= 0, "unused targets are searched at a predicted position");
    if (q < 0) q = 0;
    for (k = 0; k < 2; k++) if (q > k) { inds[k][0] = 2; tp[k][0] = tp[k][1] = triang; }
    return q;
}
static void back_angle(vec3d s, vec3d p, vec3d q, double *angle, double *acc)
{
    int h, c;
    for (h = 0; h < NC1; h++) for (c = 0; c < PATHS; c++) {
        if (at(s, tpos(2, h)) && pairis(p, q, bcenter(h), tpos(1, c))) { *angle = bang0[h][c]; *acc = bacc0[h][c]; return; }
        if (at(s, tpos(1, c)) && pairis(p, q, tpos(0, c), bpred(h, c))) { *angle = bang1[h][c]; *acc = bacc1[h][c]; return; }
    }
    for (h = 0; h < NC1; h++)
        if (triang == 100 + h && at(s, tpos(2, h)) && pairis(p, q, bcenter(h), newB[h])) { *angle = angB[h]; *acc = accB[h]; return; }
    vp_assert(0, "angle and acceleration are those between prediction and candidate");
    *angle = *acc = 0;
}
static int brd(fbp self, int n, int links)
{
    vp_assert(links != 0, "backward tracking starts from the links of the forward run");
    vp_assert(n == 13 - nread_b, "each frame is read once, last to first");
    nread_b++;
    self->buf[self->buf_len - 1] = B[n >= 10 && n <= 13 ? n - 10 : 0];
    self->buf[self->buf_len - 1 + (self->buf == self->_ring_vec ? 0 : -self->buf_len)] = self->buf[self->buf_len - 1];
    return 1;
}
static int bwr(fbp self, int n) { if (nwritten < 8) { wnum[nwritten] = n; wfrm[nwritten] = self->buf[0]; } nwritten++; return 1; }
void h_backward(void)
{
    int h, c, k, i, links = 0, links1 = 0, nadd = 0, seen, best, ok, old; P *p; double dl, r;
    int wasprev[PATHS], wasnext[PATHS];
    setup();
    backstep = 1;
    /* frames 10..13 are B[0]..B[3]; B[2] is the current one of the first step */
    for (i = 0; i < TR_BUFSPACE; i++) for (h = 0; h < PATHS; h++) { path[i][h].prev = PREV_NONE; path[i][h].next = NEXT_NONE; path[i][h].inlist = 0; }
    frm[1].num_parts = PATHS; frm[2].num_parts = NC1;
    for (h = 0; h < NC1; h++) {
        if ((NEXTMASK >> h) & 1) { path[2][h].next = h; path[3][h].prev = h; }
        if ((TAKEN >> h) & 1) { path[2][h].prev = h; path[1][h].next = h; }
    }
    for (h = 0; h < PATHS; h++) if ((OLDPREV >> h) & 1) { path[1][h].prev = h; path[0][h].next = h; }
    for (h = 0; h < NC1; h++) for (c = 0; c < PATHS; c++) {
        bang0[h][c] = vp_double("angle", 0, 200); bacc0[h][c] = vp_double("acc", 0, 20);
        bang1[h][c] = vp_double("angle", 0, 200); bacc1[h][c] = vp_double("acc", 0, 20);
    }
    for (h = 0; h < PATHS; h++) { wasprev[h] = path[1][h].prev; wasnext[h] = path[1][h].next; }
    vt.read_frame_at_end = brd; vt.write_frame_from_start = bwr;
    seqp.first = 10; seqp.last = 13;
    for (h = 0; h < NC1; h++) newB[h] = 20 + h;
#ifdef LIMITS
    tpar.dvxmax = vp_double("xmax", 0, 200); tpar.dvzmin = vp_double("zmin", -100, 320);
    run.ymin = vp_double("ymin", 0, 100); run.ymax = vp_double("ymax", 0, 100);
#endif
    r = trackback_c(&run);
    vp_assert(nread_b == 4, "each frame is read");
    vp_assert(nwritten == 3 && wnum[0] == 12 && wnum[1] == 11 && wnum[2] == 10 && wfrm[0] == B[2] && wfrm[1] == B[1] && wfrm[2] == B[0],
              "each frame is written once under its own number");
    mutual(B[2], B[3]); mutual(B[1], B[2]); mutual(B[0], B[1]);
    for (h = 0; h < NC1; h++) {
        p = &B[2]->path_info[h];
        vp_assert(p->next == (((NEXTMASK >> h) & 1) ? h : NEXT_NONE), "forward links are kept");
        if ((TAKEN >> h) & 1) { vp_assert(p->prev == h, "existing links are kept"); continue; }
        if (!((NEXTMASK >> h) & 1)) { vp_assert(p->prev == PREV_NONE, "only particles linked forward are continued"); continue; }
        nexp = 0;
        vp_assert(asked1[h] == 1, "candidates are searched for every such particle");
        for (k = 0; k < n1[h]; k++) {
            c = list1[h][k];
            dl = (absd(tpos(2, h), tpos(1, c)) + absd(tpos(3, h), tpos(2, h))) / 2;
            if (inside(tpos(1, c), tpos(2, h)) && passes(bang0[h][c], bacc0[h][c])) expect(dl, bacc0[h][c], bang0[h][c], freq1[h][k], c);
        }
        if (ADD && PATHS + nadd < ROOM && !nexp && qualB[h] >= 2 && inside(newB[h], tpos(2, h)) && run.ymin < 3 * newB[h] && 3 * newB[h] < run.ymax && passes(angB[h], accB[h])) {
            expect((absd(tpos(2, h), newB[h]) + absd(tpos(3, h), tpos(2, h))) / 2, accB[h], angB[h], qualB[h], PATHS + nadd);
            vp_assert(B[1]->num_parts > PATHS + nadd && at(B[1]->path_info[PATHS + nadd].x, newB[h]), "the triangulated particle is added");
            nadd++;
            vp_reach("added");
        }
        vp_assert(p->inlist == nexp, "exactly the candidates that satisfy the limits are kept");
        for (i = 0; i < nexp; i++) {
            vp_assert(i == 0 || p->decis[i - 1] <= p->decis[i], "best candidates first");
            seen = 0;
            for (k = 0; k < nexp; k++) seen |= (p->linkdecis[k] == ecand[i]) & vp_close(p->decis[k], efit[i], 1e-4);
            vp_assert(seen, "a candidate is kept with its own fitness");
        }
        if (!nexp) { vp_assert(p->prev == PREV_NONE, "no candidate, no link"); continue; }
        best = p->linkdecis[0];
        if (p->prev != PREV_NONE) {
            vp_assert(p->prev == best, "the best candidate is linked");
            if (best < PATHS) {
                vp_assert(wasnext[best] == NEXT_NONE, "existing links are kept");
                if (wasprev[best] != PREV_NONE) vp_assert(passes(bang1[h][best], bacc1[h][best]), "joining two paths satisfies the limits too");
            }
            links++;
        } else if (best < PATHS) {
            old = B[1]->path_info[best].next;
            ok = old != NEXT_NONE || (wasprev[best] != PREV_NONE && !passes(bang1[h][best], bacc1[h][best]));
            vp_assert(ok, "a free best candidate that satisfies the limits is linked");
        } else vp_assert(0, "an added particle is linked");
    }
    for (h = 0; h < PATHS; h++) {
        vp_assert(B[1]->path_info[h].prev == wasprev[h], "earlier links are kept");
        if (wasprev[h] != PREV_NONE) links1++;
    }
    for (h = 0; h < NC1; h++) if ((TAKEN >> h) & 1) links++;
    vp_assert(B[1]->num_parts == PATHS + nadd, "particles are only added by the rules");
    vp_assert(2 * r == links + links1, "the mean number of links is returned");
    if (links) vp_reach("linked");
   
    vp_reach("end");
}

/* ---------------------------------------------------------------------------------------------- the list of a particle */
void h_list(void)
{
    static P q; int i, n = vp_pick(vp_int("filled", 0, POSI - 1)), more = vp_pick(vp_int("more", 1, 2)), c[2]; float f[2];
    if (n + more > POSI) more = 1;
    for (i = 0; i < POSI; i++) { q.decis[i] = 1000 + i; q.linkdecis[i] = 2000 + i; }
    q.inlist = n; q.finaldecis = 77; q.prev = 5; q.next = 6; q.prio = 7; q.x[0] = 1; q.x[1] = 2; q.x[2] = 3;
    for (i = 0; i < more; i++) {
        f[i] = (float) vp_double("fitness", -1e6, 1e6); c[i] = vp_int("candidate", 0, 1000000);
        register_link_candidate(&q, f[i], c[i]);
    }
    vp_assert(q.inlist == n + more, "the list grows by the candidates registered");
    for (i = 0; i < POSI; i++) {
        if (i >= n && i < n + more) vp_assert(q.decis[i] == f[i - n] && q.linkdecis[i] == c[i - n], "candidates are kept in the order of registration");
        else vp_assert(q.decis[i] == 1000 + i && q.linkdecis[i] == 2000 + i, "other entries are unchanged");
    }
    vp_assert(q.prev == 5 && q.next == 6 && q.prio == 7 && q.finaldecis == 77 && q.x[0] == 1 && q.x[1] == 2 && q.x[2] == 3, "nothing else changes");
    reset_links(&q);
    vp_assert(q.prev == PREV_NONE && q.next == NEXT_NONE && q.prio == PRIO_DEFAULT, "a reset particle has no links and the default priority");
    vp_assert(q.inlist == n + more && q.x[0] == 1 && q.x[1] == 2 && q.x[2] == 3, "position and candidates stay");
    vp_reach("end");
}
