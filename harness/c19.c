/* C19: the frame buffer is a sliding window. */
#include "vp.h"
#include "tracking_frame_buf.h"
#ifndef L
#define L 3
#endif
#ifndef STEPS
#define STEPS 6
#endif
#ifdef VP_CBMC
#define vp_override_read_frame read_frame
#define vp_override_write_frame write_frame
#endif
/* stand-ins for the file routines (decided in C17, C18): they record what they are asked for */
static frame *asked; static int reads, writes, num, answer; static char *nm[3], **tn;
static char cbase[] = "c", lbase[] = "l", pbase[] = "p", *tbase[1] = {"t"};
int vp_override_read_frame(frame *self, char *c, char *l, char *p, char **t, int n)
{ asked = self; reads++; num = n; nm[0] = c; nm[1] = l; nm[2] = p; tn = t; self->num_parts = n; return answer; }
int vp_override_write_frame(frame *self, char *c, char *l, char *p, char **t, int n)
{ asked = self; writes++; num = n; nm[0] = c; nm[1] = l; nm[2] = p; tn = t; return answer; }
void h_history(void)
{
    framebuf fb; framebuf_base *b = &fb.base; frame *model[L]; int held[L], i, j, s, op, k, links, r, back = 0;
    fb_init(&fb, L, 1, 1, cbase, lbase, pbase, tbase);
    vp_assert(b->buf_len == L && b->num_cams == 1, "length and cameras are kept");
    for (i = 0; i < L; i++) {
        model[i] = b->buf[i]; held[i] = i - 100; model[i]->num_parts = i - 100;
        for (j = 0; j < i; j++) vp_assert(model[j] != model[i], "all positions are distinct frames");
        vp_assert(model[i]->num_cams == 1 && model[i]->max_targets == 1 && model[i]->targets[0] != 0 && model[i]->num_targets[0] == 0, "frames are set up");
    }
    for (s = 0; s < STEPS; s++) {
        op = vp_int("op", 0, 3); k = vp_int("frame", -2147483647 - 1, 2147483647); links = vp_int("links", 0, 1);
        answer = vp_int("answer", 0, 1); asked = 0; reads = writes = 0; r = answer;
        if (op == 0) {
            frame *f = model[0]; int h = held[0];
            fb_next(b);
            for (i = 0; i < L - 1; i++) { model[i] = model[i + 1]; held[i] = held[i + 1]; }
            model[L - 1] = f; held[L - 1] = h;
        } else if (op == 1) {
            frame *f = model[L - 1]; int h = held[L - 1];
            fb_prev(b); back = 1;
            for (i = L - 1; i > 0; i--) { model[i] = model[i - 1]; held[i] = held[i - 1]; }
            model[0] = f; held[0] = h;
        } else if (op == 2) {
            r = fb_read_frame_at_end(b, k, links); held[L - 1] = k;
            vp_assert(asked == model[L - 1] && reads == 1 && writes == 0, "reading fills the last position, once");
        } else {
            r = fb_write_frame_from_start(b, k);
            vp_assert(asked == model[0] && writes == 1 && reads == 0, "writing takes the first position, once");
        }
        if (op >= 2) {
            vp_assert(num == k && (!r) == (!answer), "frame number and result are passed on");
            vp_assert(nm[0] == cbase && tn == tbase, "correspondence and target files of this buffer");
            vp_assert(op == 2 && !links ? nm[1] == 0 && nm[2] == 0 : nm[1] == lbase && nm[2] == pbase, "link files of this buffer, only when asked for");
        } else vp_assert(reads == 0 && writes == 0, "moving the window reads and writes nothing");
        for (i = 0; i < L; i++) {
            vp_assert(b->buf[i] == model[i], "position i is the frame i steps into the window");
            vp_assert(b->buf[i]->num_parts == held[i], "moving, reading and writing change no other frame");
        }
    }
    fb_free(b);
    vp_reach("end");
    if (back) vp_reach("back");
}
/* every frame is released once, wherever the window stands */
void h_free(void)
{
    framebuf fb; int l, i, n, live, cams = vp_pick(vp_int("cams", 1, 4)), max = vp_pick(vp_int("max", 1, 3));
    char *tb[4] = {"a", "b", "c", "d"};
    l = vp_pick(vp_int("len", 1, 5)); n = vp_pick(vp_int("moves", -6, 6));
    live = vp_live_bytes();
    fb_init(&fb, l, cams, max, cbase, lbase, pbase, tb);
    for (i = 0; i < n; i++) fb_next(&fb.base);
    for (i = 0; i > n; i--) fb_prev(&fb.base);
    /* the arrays have room for everything a frame of this size holds */
    for (i = 0; i < l; i++) {
        frame *f = fb.base.buf[i]; int c;
        f->path_info[max - 1].x[0] = 1; f->correspond[max - 1].p[3] = 1;
        for (c = 0; c < cams; c++) { f->targets[c][max - 1].tnr = 1; f->num_targets[c] = max; }
    }
    fb_free(&fb.base);
    vp_assert(vp_live_bytes() == live, "releasing the buffer releases everything");
    vp_reach("end");
}
