/* P04 element access, P05 conversion, P06 structural operations, P07 row/column operations, P08 permutations */
#include "vt.h"

static const gf2e *case_field(rf_t *f, int lo, int hi) {
  int e = rng_range(lo, hi); u32 mp = poly_pick(e);
  op("gf2e_init(0x%x)", mp);
  sig(mp);
  return ff_make(f, e, mp);
}
static int maxdim(const rf_t *f) { (void)f; return vt_valgrind ? 40 : vt_big ? 700 : 200; }

/* ---------------- P04 ---------------- */
void p04(u64 idx) {
  rf_t f; const gf2e *ff = case_field(&f, 2, 16);
  int kind = idx & 1, mode = gm_mode_mask();
  int r = pick_dim(&f, 40), c = pick_dim(&f, maxdim(&f)); extreme(&r, &c);
  sig(kind * 2 + mode); sig(r); sig(c); nontrivial();
  desc("element access, %s %s %dx%d degree %d poly 0x%x", KN(kind), MN(mode), r, c, f.e, f.mp);
  RM *v = rm_gen(&f, r, c, -1);
  GM *g = gm_new("A", ff, &f, kind, mode, v);
  int n = vt_valgrind ? 150 : 2500;
  for (int i = 0; i < n; i++) {
    int y = rnd(r), x = chance(25) ? c - 1 - (int)rnd(c < 3 ? c : 3) : (int)rnd(c);
    el e = rf_rand(&f); word got;
    switch (rnd(3)) {
    case 0:
      op("read (%d,%d)", y, x);
      got = kind == PACKED ? mzed_read_elem(g->M, y, x) : mzd_slice_read_elem(g->S, y, x);
      REQ(got == AT(v, y, x), "reading (%d,%d) returned %llx, the element is %x", y, x, (unsigned long long)got, AT(v, y, x));
      break;
    case 1:
      op("write (%d,%d) = %x", y, x, e);
      if (kind == PACKED) mzed_write_elem(g->M, y, x, e); else mzd_slice_write_elem(g->S, y, x, e);
      AT(v, y, x) = e; break;
    default:
      op("add (%d,%d) += %x", y, x, e);
      if (kind == PACKED) mzed_add_elem(g->M, y, x, e); else mzd_slice_add_elem(g->S, y, x, e);
      AT(v, y, x) ^= e; break;
    }
    ev("element accesses", 1);
    if (i % 500 == 499 || i < 3 || i == n - 1) gm_out(g, v);
  }
  /* a full sweep: every position readable, and a window sees exactly the parent's elements */
  for (int y = 0; y < r; y++) for (int x = 0; x < c; x++) {
    word got = kind == PACKED ? mzed_read_elem(g->M, y, x) : mzd_slice_read_elem(g->S, y, x);
    word gp = kind == PACKED ? mzed_read_elem(g->Mp, g->lr + y, g->lc + x) : mzd_slice_read_elem(g->Sp, g->lr + y, g->lc + x);
    REQ(got == AT(v, y, x) && gp == got, "sweep: reading (%d,%d) returned %llx (parent %llx), the element is %x", y, x, (unsigned long long)got, (unsigned long long)gp, AT(v, y, x));
  }
  /* zero test and first zero row agree with the contents */
  int z = 1; for (size_t k = 0; k < (size_t)r * c; k++) z &= !v->d[k];
  op("is_zero");
  int iz = kind == PACKED ? mzed_is_zero(g->M) : mzd_slice_is_zero(g->S);
  REQ(!!iz == z, "zero test says %d, contents say %d", iz, z);
  gm_out(g, v);
  gm_free(g); ff_done(ff);
}

/* ---------------- P05 ---------------- */
void p05(u64 idx) {
  rf_t f; const gf2e *ff = case_field(&f, 2, 16);
  int r = pick_dim(&f, 30), c = pick_dim(&f, maxdim(&f)); if (chance(4)) c = pick_dim(&f, 40), r = pick_dim(&f, 300); extreme(&r, &c);
  int mode = gm_mode_mask();
  sig(r); sig(c); sig(mode); nontrivial();
  int tkind = rnd(4); /* destination: NULL, dirty owned, dirty window, zero via width-specific entry point */
  sig(tkind); sig(idx & 1);
  RM *v = rm_gen(&f, r, c, -1), *junk = rm_rand(&f, r, c), *zero = rm_new(r, c);
  if (idx & 1) {
    desc("packed->sliced %dx%d degree %d poly 0x%x source %s destination kind %d", r, c, f.e, f.mp, MN(mode), tkind);
    GM *a = gm_new("Z", ff, &f, PACKED, mode, v), *t = NULL; mzd_slice_t *ret;
    if (tkind == 0) { op("mzed_slice(NULL,Z)"); ret = mzed_slice(NULL, a->M); t = gm_wrap_s("result", ff, &f, ret); gm_out(t, v); }
    else {
      t = gm_new("A", ff, &f, SLICED, tkind == 2 ? WINDOW : OWNED, tkind == 3 ? zero : junk);
      if (tkind == 3) {
        op("_mzed_slice<w>(A,Z)");
        switch (f.w) { case 2: ret = _mzed_slice2(t->S, a->M); break; case 4: ret = _mzed_slice4(t->S, a->M); break; case 8: ret = _mzed_slice8(t->S, a->M); break; default: ret = _mzed_slice16(t->S, a->M); }
      } else { op("mzed_slice(A,Z)"); ret = mzed_slice(t->S, a->M); }
      REQ(ret == t->S, "conversion did not return its destination");
      gm_out(t, v);
    }
    gm_check_const(a);
    gm_snap(t);
    op("mzed_cling(NULL,slice(Z))");
    mzed_t *b = mzed_cling(NULL, t->S); GM *gb = gm_wrap_m("round trip", ff, &f, b);
    gm_out(gb, v); gm_check_const(t);
    REQ(mode == WINDOW || mzed_cmp(b, a->M) == 0, "comparison: round trip differs from the source");
    gm_free(gb); gm_free(t); gm_free(a);
  } else {
    desc("sliced->packed %dx%d degree %d poly 0x%x source %s destination kind %d", r, c, f.e, f.mp, MN(mode), tkind);
    GM *a = gm_new("Z", ff, &f, SLICED, mode, v), *t = NULL; mzed_t *ret;
    if (tkind == 0) { op("mzed_cling(NULL,Z)"); ret = mzed_cling(NULL, a->S); t = gm_wrap_m("result", ff, &f, ret); gm_out(t, v); }
    else {
      t = gm_new("A", ff, &f, PACKED, tkind == 2 ? WINDOW : OWNED, tkind == 3 ? zero : junk);
      if (tkind == 3) {
        op("_mzed_cling<w>(A,Z)");
        switch (f.w) { case 2: ret = _mzed_cling2(t->M, a->S); break; case 4: ret = _mzed_cling4(t->M, a->S); break; case 8: ret = _mzed_cling8(t->M, a->S); break; default: ret = _mzed_cling16(t->M, a->S); }
      } else { op("mzed_cling(A,Z)"); ret = mzed_cling(t->M, a->S); }
      REQ(ret == t->M, "conversion did not return its destination");
      gm_out(t, v);
    }
    gm_check_const(a);
    gm_snap(t);
    op("mzed_slice(NULL,cling(Z))");
    mzd_slice_t *b = mzed_slice(NULL, t->M); GM *gb = gm_wrap_s("round trip", ff, &f, b);
    gm_out(gb, v); gm_check_const(t);
    gm_free(gb); gm_free(t); gm_free(a);
  }
  ev("conversions", 2);
  ff_done(ff);
}

/* ---------------- P06 ---------------- */
/* source operands of concat/submatrix are taken owned or with an aligned right edge: the GF(2) base
 * library copies whole source words (see DESIGN.md) */
static GM *src(const char *n, const gf2e *ff, const rf_t *f, int kind, const RM *v) {
  int s = vt_edge_aligned; vt_edge_aligned = 1; GM *g = gm_new(n, ff, f, kind, gm_mode_mask(), v); vt_edge_aligned = s;
  /* a window whose edge is not aligned is only used if it ends at the parent's edge */
  return g;
}
static GM *dst_or_null(const char *n, const gf2e *ff, const rf_t *f, int kind, int r, int c, int *isnull, int aligned) {
  *isnull = chance(30);
  if (*isnull) return NULL;
  int s = vt_edge_aligned; vt_edge_aligned = aligned; GM *g = gm_new(n, ff, f, kind, gm_mode_mask(), rm_rand(f, r, c)); vt_edge_aligned = s;
  return g;
}
#define RET_M(g, ret, nm) do { if (!(g)) g = gm_wrap_m(nm, ff, &f, ret); else REQ((ret) == g->M, "%s was not returned", nm); } while (0)
#define RET_S(g, ret, nm) do { if (!(g)) g = gm_wrap_s(nm, ff, &f, ret); else REQ((ret) == g->S, "%s was not returned", nm); } while (0)

void p06(u64 idx) {
  rf_t f; const gf2e *ff = case_field(&f, 2, 16);
  int kind = (idx / 10) & 1, what = (int)(idx % 10), isnull;
  int r = pick_dim(&f, 40), c = pick_dim(&f, maxdim(&f)); extreme(&r, &c);
  sig(kind); sig(what); sig(r); sig(c); nontrivial();
  GM *A, *B, *C; RM *a = rm_gen(&f, r, c, -1), *b, *w;
  switch (what) {
  case 0: case 1: { /* addition, distinct or aliased destination */
    int alias = rnd(4);
    sig(alias);
    desc("add %s %dx%d degree %d poly 0x%x alias %d", KN(kind), r, c, f.e, f.mp, alias);
    A = gm_new("A", ff, &f, kind, gm_mode_mask(), a);
    if (alias == 3) { b = a; B = A; } else { b = rm_gen(&f, r, c, -1); B = gm_new("B", ff, &f, kind, gm_mode_mask(), b); }
    w = rm_add(a, b);
    int dn; C = alias == 1 ? A : alias == 2 ? B : dst_or_null("C", ff, &f, kind, r, c, &dn, 0);
    int und = what == 1 && C;
    op("%smz%s_add", und ? "_" : "", kind == PACKED ? "ed" : "d_slice");
    if (kind == PACKED) { mzed_t *x = und ? _mzed_add(C->M, A->M, B->M) : mzed_add(C ? C->M : NULL, A->M, B->M); RET_M(C, x, "C"); }
    else { mzd_slice_t *x = und ? _mzd_slice_add(C->S, A->S, B->S) : mzd_slice_add(C ? C->S : NULL, A->S, B->S); RET_S(C, x, "C"); }
    gm_out(C, w);
    if (A != C) gm_check_const(A);
    if (B != C && B != A) gm_check_const(B);
    if (C != A && C != B) gm_free(C);
    if (B != A) gm_free(B);
    gm_free(A); break; }
  case 2: { /* copy */
    desc("copy %s %dx%d degree %d poly 0x%x", KN(kind), r, c, f.e, f.mp);
    A = gm_new("A", ff, &f, kind, gm_mode_mask(), a); C = dst_or_null("B", ff, &f, kind, r, c, &isnull, 0);
    op("copy");
    if (kind == PACKED) { mzed_t *x = mzed_copy(C ? C->M : NULL, A->M); RET_M(C, x, "B"); if (chance(20)) REQ(mzed_copy(A->M, A->M) == A->M, "self copy"); }
    else { mzd_slice_t *x = mzd_slice_copy(C ? C->S : NULL, A->S); RET_S(C, x, "B"); }
    gm_out(C, a); gm_check_const(A); gm_free(C); gm_free(A); break; }
  case 3: { /* concat */
    int c2 = pick_dim(&f, chance(10) ? 3 * maxdim(&f) : maxdim(&f)); sig(c2);
    desc("concat %s %dx(%d|%d) degree %d poly 0x%x", KN(kind), r, c, c2, f.e, f.mp);
    b = rm_gen(&f, r, c2, -1); A = src("A", ff, &f, kind, a); B = src("B", ff, &f, kind, b);
    w = rm_new(r, c + c2);
    for (int i = 0; i < r; i++) { memcpy(rm_at(w, i, 0), rm_at(a, i, 0), sizeof(el) * c); memcpy(rm_at(w, i, c), rm_at(b, i, 0), sizeof(el) * c2); }
    C = dst_or_null("C", ff, &f, kind, r, c + c2, &isnull, 1);
    op("concat");
    if (kind == PACKED) { mzed_t *x = mzed_concat(C ? C->M : NULL, A->M, B->M); RET_M(C, x, "C"); }
    else { mzd_slice_t *x = mzd_slice_concat(C ? C->S : NULL, A->S, B->S); RET_S(C, x, "C"); }
    gm_out(C, w); gm_check_const(A); gm_check_const(B); gm_free(C); gm_free(A); gm_free(B); break; }
  case 4: { /* stack */
    int r2 = pick_dim(&f, chance(10) ? 400 : 40); sig(r2);
    desc("stack %s (%d+%d)x%d degree %d poly 0x%x", KN(kind), r, r2, c, f.e, f.mp);
    b = rm_gen(&f, r2, c, -1); A = src("A", ff, &f, kind, a); B = src("B", ff, &f, kind, b);
    w = rm_new(r + r2, c); memcpy(w->d, a->d, sizeof(el) * (size_t)r * c); memcpy(w->d + (size_t)r * c, b->d, sizeof(el) * (size_t)r2 * c);
    C = dst_or_null("C", ff, &f, kind, r + r2, c, &isnull, 1);
    op("stack");
    if (kind == PACKED) { mzed_t *x = mzed_stack(C ? C->M : NULL, A->M, B->M); RET_M(C, x, "C"); }
    else { mzd_slice_t *x = mzd_slice_stack(C ? C->S : NULL, A->S, B->S); RET_S(C, x, "C"); }
    gm_out(C, w); gm_check_const(A); gm_check_const(B); gm_free(C); gm_free(A); gm_free(B); break; }
  case 5: case 6: { /* submatrix at any offset, and a window at an aligned one */
    int lr = rnd(r), lc = rnd(c), hr = lr + 1 + rnd(r - lr), hc = lc + 1 + rnd(c - lc);
    int al = kind == PACKED ? 64 / f.w : 64;
    if (what == 6) { lc -= lc % al; }
    sig(lr); sig(lc); sig(hr); sig(hc);
    desc("submatrix %s %dx%d [%d:%d,%d:%d] degree %d poly 0x%x", KN(kind), r, c, lr, hr, lc, hc, f.e, f.mp);
    w = rm_sub(a, lr, lc, hr, hc);
    A = src("M", ff, &f, kind, a); C = dst_or_null("S", ff, &f, kind, hr - lr, hc - lc, &isnull, 1);
    op("submatrix");
    if (kind == PACKED) { mzed_t *x = mzed_submatrix(C ? C->M : NULL, A->M, lr, lc, hr, hc); RET_M(C, x, "S"); }
    else { mzd_slice_t *x = mzd_slice_submatrix(C ? C->S : NULL, A->S, lr, lc, hr, hc); RET_S(C, x, "S"); }
    gm_out(C, w); gm_check_const(A);
    if (what == 6) {
      op("window");
      if (kind == PACKED) {
        mzed_t *W = mzed_init_window(A->M, lr, lc, hr, hc);
        REQ(W->nrows == hr - lr && W->ncols == hc - lc && W->finite_field == ff && W->w == f.w, "window header");
        for (int i = 0; i < W->nrows; i++) for (int j = 0; j < W->ncols; j++) REQ(mzed_read_elem(W, i, j) == AT(w, i, j), "window element (%d,%d)", i, j);
        el nv = rf_rand(&f); int y = rnd(W->nrows), x = rnd(W->ncols); mzed_write_elem(W, y, x, nv); AT(a, lr + y, lc + x) = nv;
        mzed_free_window(W);
      } else {
        mzd_slice_t *W = mzd_slice_init_window(A->S, lr, lc, hr, hc);
        REQ(W->nrows == hr - lr && W->ncols == hc - lc && W->finite_field == ff && (int)W->depth == f.e, "window header");
        for (int i = 0; i < W->nrows; i++) for (int j = 0; j < W->ncols; j++) REQ(mzd_slice_read_elem(W, i, j) == AT(w, i, j), "window element (%d,%d)", i, j);
        el nv = rf_rand(&f); int y = rnd(W->nrows), x = rnd(W->ncols); mzd_slice_write_elem(W, y, x, nv); AT(a, lr + y, lc + x) = nv;
        mzd_slice_free_window(W);
      }
      gm_out(A, a); /* the write through the window is the only change of the matrix */
    }
    gm_free(C); gm_free(A); break; }
  case 7: { /* set to a scalar: diagonal matrix */
    el v = chance(30) ? 0 : rf_rand(&f); sig(v);
    desc("set to scalar %x, %s %dx%d degree %d poly 0x%x", v, KN(kind), r, c, f.e, f.mp);
    A = gm_new("A", ff, &f, kind, gm_mode_mask(), a); w = rm_new(r, c); for (int i = 0; i < r && i < c; i++) AT(w, i, i) = v;
    op("set_ui(%x)", v);
    if (kind == PACKED) mzed_set_ui(A->M, v); else mzd_slice_set_ui(A->S, v);
    gm_out(A, w); gm_free(A); break; }
  case 8: { /* comparison */
    int diff = rnd(3);
    desc("compare %s %dx%d degree %d poly 0x%x variant %d", KN(kind), r, c, f.e, f.mp, diff); sig(diff);
    b = rm_dup(a);
    if (diff) { int n = diff == 1 ? 1 : 1 + rnd(5); for (int i = 0; i < n; i++) { int y = rnd(r), x = chance(40) ? c - 1 : (int)rnd(c); AT(b, y, x) ^= (el)(1u << rnd(f.e)); } }
    int i, j, eq = rm_eq(a, b, &i, &j);
    A = src("A", ff, &f, kind, a); B = src("B", ff, &f, kind, b);
    op("cmp");
    int g = kind == PACKED ? mzed_cmp(A->M, B->M) : mzd_slice_cmp(A->S, B->S);
    int h = kind == PACKED ? mzed_cmp(B->M, A->M) : mzd_slice_cmp(B->S, A->S);
    REQ((g == 0) == eq && (h == 0) == eq, "comparison returned %d / %d, matrices are %s", g, h, eq ? "equal" : "different");
    REQ(g >= -1 && g <= 1, "comparison returned %d", g);
    if (kind == PACKED) REQ(g == -h, "comparison is not antisymmetric: %d / %d", g, h);
    gm_check_const(A); gm_check_const(B);
    /* differences in several places and coefficients at once must not hide each other */
    for (int it = 0; it < (vt_valgrind ? 4 : 30); it++) {
      int k = 1 + rnd(4), y = rnd(r), x = rnd(c);
      for (int q = 0; q < k; q++) {
        int onA = chance(50), y2 = chance(50) ? y : (int)rnd(r), x2 = chance(50) ? x : (int)rnd(c); GM *g1 = onA ? A : B; RM *v1 = onA ? a : b;
        el nv = AT(v1, y2, x2) ^ (el)(chance(50) ? 1u << rnd(f.e) : rf_rand(&f)); AT(v1, y2, x2) = nv;
        if (kind == PACKED) mzed_write_elem(g1->M, y2, x2, nv); else mzd_slice_write_elem(g1->S, y2, x2, nv);
      }
      eq = rm_eq(a, b, &i, &j);
      op("cmp after %d changes", k);
      g = kind == PACKED ? mzed_cmp(A->M, B->M) : mzd_slice_cmp(A->S, B->S);
      REQ((g == 0) == eq, "comparison returned %d, matrices are %s", g, eq ? "equal" : "different");
      ev("comparisons", 1);
      if (chance(60)) { memcpy(b->d, a->d, sizeof(el) * (size_t)r * c); for (int y2 = 0; y2 < r; y2++) for (int x2 = 0; x2 < c; x2++) if (kind == PACKED) mzed_write_elem(B->M, y2, x2, AT(a, y2, x2)); else mzd_slice_write_elem(B->S, y2, x2, AT(a, y2, x2)); }
    }
    gm_out(A, a); gm_out(B, b);
    gm_free(A); gm_free(B); break; }
  default: { /* fresh matrices are zero; zero test */
    desc("init %s %dx%d degree %d poly 0x%x", KN(kind), r, c, f.e, f.mp);
    op("init");
    if (kind == PACKED) { mzed_t *x = mzed_init(ff, r, c); A = gm_wrap_m("fresh", ff, &f, x); REQ(x->w == f.w && x->finite_field == ff, "header"); REQ(mzed_is_zero(x), "fresh matrix not zero by its own test"); }
    else { mzd_slice_t *x = mzd_slice_init(ff, r, c); A = gm_wrap_s("fresh", ff, &f, x); REQ((int)x->depth == f.e && x->finite_field == ff, "header"); REQ(mzd_slice_is_zero(x), "fresh matrix not zero by its own test"); }
    w = rm_new(r, c); gm_out(A, w);
    int y = rnd(r), x = chance(50) ? c - 1 : (int)rnd(c); AT(w, y, x) = (el)(1u << rnd(f.e));
    gm_set(A, w);
    op("is_zero of a matrix with one nonzero element");
    REQ(!(kind == PACKED ? mzed_is_zero(A->M) : mzd_slice_is_zero(A->S)), "zero test accepts a matrix with element (%d,%d) set", y, x);
    gm_check_const(A); gm_free(A); break; }
  }
  ev("structural operations", 1);
  ff_done(ff);
}

/* ---------------- P07 ---------------- */
void p07(u64 idx) {
  rf_t f; const gf2e *ff = case_field(&f, 2, 16);
  int kind = chance(60) ? PACKED : SLICED;
  int r = 1 + rnd(12), c = pick_dim(&f, maxdim(&f)); extreme(&r, &c); if (c > 4000) c = 4000;
  int mode = gm_mode_mask();
  sig(kind); sig(r); sig(c); sig(mode); nontrivial();
  RM *a = rm_gen(&f, r, c, chance(80) ? G_UNIFORM : -1), *b = rm_rand(&f, r, c);
  desc("row/column operations on %s %s %dx%d degree %d poly 0x%x", KN(kind), MN(mode), r, c, f.e, f.mp);
  GM *A = gm_new("A", ff, &f, kind, mode, a), *B = gm_new("B", ff, &f, kind, gm_mode_mask(), b);
  int n = vt_valgrind ? 8 : 40;
  el tmp[4096];
  for (int it = 0; it < n; it++) {
    int y = rnd(r), y2 = rnd(r), x = chance(30) ? 0 : chance(30) ? c - 1 - (int)rnd(c < 4 ? c : 4) : (int)rnd(c), x2 = rnd(c);
    el s = chance(10) ? 1 : chance(5) ? 0 : rf_rand(&f);
    int what = rnd(kind == PACKED ? 9 : 6);
    switch (what) {
    case 0: op("row_swap(%d,%d)", y, y2);
      if (kind == PACKED) mzed_row_swap(A->M, y, y2); else mzd_slice_row_swap(A->S, y, y2);
      if (y != y2) { memcpy(tmp, rm_at(a, y, 0), sizeof(el) * c); memcpy(rm_at(a, y, 0), rm_at(a, y2, 0), sizeof(el) * c); memcpy(rm_at(a, y2, 0), tmp, sizeof(el) * c); }
      break;
    case 1: op("col_swap(%d,%d)", x, x2);
      if (kind == PACKED) mzed_col_swap(A->M, x, x2); else mzd_slice_col_swap(A->S, x, x2);
      for (int i = 0; i < r; i++) { el t = AT(a, i, x); AT(a, i, x) = AT(a, i, x2); AT(a, i, x2) = t; }
      break;
    case 2: { int s0 = rnd(r), s1 = s0 + 1 + rnd(r - s0); op("col_swap_in_rows(%d,%d,rows %d..%d)", x, x2, s0, s1);
      if (kind == PACKED) mzed_col_swap_in_rows(A->M, x, x2, s0, s1); else mzd_slice_col_swap_in_rows(A->S, x, x2, s0, s1);
      for (int i = s0; i < s1; i++) { el t = AT(a, i, x); AT(a, i, x) = AT(a, i, x2); AT(a, i, x2) = t; }
      break; }
    case 3: if (y == y2) continue; op("row_add(%d -> %d)", y, y2);
      if (kind == PACKED) mzed_row_add(A->M, y, y2); else mzd_slice_row_add(A->S, y, y2);
      for (int j = 0; j < c; j++) AT(a, y2, j) ^= AT(a, y, j);
      break;
    case 4: { /* row copy, possibly from a narrower matrix */
      int c2 = chance(50) ? c : 1 + (int)rnd(c); RM *sv = c2 == c ? b : rm_rand(&f, r, c2);
      GM *S = c2 == c ? B : gm_new("source", ff, &f, kind, gm_mode_mask(), sv);
      op("copy_row(row %d <- row %d of %d columns)", y, y2, c2);
      if (kind == PACKED) mzed_copy_row(A->M, y, S->M, y2); else mzd_slice_copy_row(A->S, y, S->S, y2);
      memcpy(rm_at(a, y, 0), rm_at(sv, y2, 0), sizeof(el) * c2);
      if (S != B) { gm_check_const(S); gm_free(S); }
      break; }
    case 5: op("rescale_row(%d from %d by %x)", y, x, s);
      if (kind == PACKED) mzed_rescale_row(A->M, y, x, s); else mzd_slice_rescale_row(A->S, y, x, s);
      rm_scal(&f, tmp, rm_at(a, y, x), c - x, s); memcpy(rm_at(a, y, x), tmp, sizeof(el) * (c - x));
      break;
    case 6: { int self = chance(40); if (self && y == y2) continue;
      op("add_multiple_of_row(%d += %x * %s%d from %d)", y, s, self ? "own " : "", y2, x);
      mzed_add_multiple_of_row(A->M, y, self ? A->M : B->M, y2, s, x);
      rm_axpy(&f, rm_at(a, y, x), rm_at(self ? a : b, y2, x), c - x, s);
      break; }
    case 7: { int self = chance(40); if (self && y == y2) continue;
      op("add_row(%d += %s%d from %d)", y, self ? "own " : "", y2, x);
      mzed_add_row(A->M, y, self ? A->M : B->M, y2, x);
      rm_axpy(&f, rm_at(a, y, x), rm_at(self ? a : b, y2, x), c - x, 1);
      break; }
    default: { op("first_zero_row");
      RM *z = rm_dup(a); int nz = rnd(r + 1); for (int i = nz; i < r; i++) memset(rm_at(z, i, 0), 0, sizeof(el) * c);
      if (chance(30)) { int i = rnd(r); memset(rm_at(z, i, 0), 0, sizeof(el) * c); }
      gm_set(A, z); int want = r; for (int i = r - 1; i >= 0; i--) { int nzr = 0; for (int j = 0; j < c; j++) nzr |= AT(z, i, j); if (!nzr) want = i; }
      rci_t got = mzed_first_zero_row(A->M);
      REQ(got == want, "first zero row: got %d, expected %d", got, want);
      gm_check_const(A); gm_set(A, a); break; }
    }
    gm_out(A, a); gm_snap(A);
    ev("row/column operations", 1);
  }
  gm_check_const(B);
  gm_free(A); gm_free(B); ff_done(ff);
}

/* ---------------- P08 ---------------- */
void p08(u64 idx) {
  rf_t f; const gf2e *ff = case_field(&f, 2, 16);
  int kind = idx & 1, what = (int)((idx >> 1) % 5); if (what == 4) kind = SLICED;
  int r = pick_dim(&f, what == 4 ? 150 : 90), c = pick_dim(&f, maxdim(&f) < 150 ? maxdim(&f) : 150); extreme(&r, &c);
  RM *a = rm_gen(&f, r, c, chance(80) ? G_UNIFORM : -1), *w = rm_dup(a);
  int side = what < 2 ? r : c;
  int len = chance(70) || (kind == SLICED && what >= 2) ? side : 1 + (int)rnd(side); /* base library: right application of a short permutation is undefined */
  if (what == 4) len = side; /* the triangular variant needs one entry per column */
  mzp_t *P = mzp_init(len);
  int style = rnd(3);
  for (int i = 0; i < len; i++) P->values[i] = style == 0 ? i + (int)rnd(side - i) : style == 1 ? (chance(20) ? i + (int)rnd(side - i) : i) : (i + 1 < side ? i + 1 : i);
  if (len < side && what != 4) { for (int i = 0; i < len; i++) if (P->values[i] >= len && chance(50)) P->values[i] = i + rnd(len - i); }
  sig(kind); sig(what); sig(r); sig(c); sig(len); sig(style); nontrivial();
  static const char *nm[] = {"apply_p_left", "apply_p_left_trans", "apply_p_right", "apply_p_right_trans", "apply_p_right_trans_tri"};
  int mode = gm_mode_mask();
  desc("%s on %s %s %dx%d, %d transpositions, degree %d poly 0x%x", nm[what], KN(kind), MN(mode), r, c, len, f.e, f.mp);
  GM *A = gm_new("A", ff, &f, kind, mode, a);
  rci_t *pv = arena(sizeof(rci_t) * (len + 1)); memcpy(pv, P->values, sizeof(rci_t) * len);
  op("%s", nm[what]);
  for (int k = 0; k < len; k++) {
    int i = (what == 1 || what == 2) ? len - 1 - k : k, p = pv[i];
    if (i == p) continue;
    if (what < 2) for (int j = 0; j < c; j++) { el t = AT(w, i, j); AT(w, i, j) = AT(w, p, j); AT(w, p, j) = t; }
    else for (int y = 0; y < (what == 4 ? (i < r ? i : r) : r); y++) { el t = AT(w, y, i); AT(w, y, i) = AT(w, y, p); AT(w, y, p) = t; }
  }
  if (kind == PACKED) switch (what) { case 0: mzed_apply_p_left(A->M, P); break; case 1: mzed_apply_p_left_trans(A->M, P); break; case 2: mzed_apply_p_right(A->M, P); break; default: mzed_apply_p_right_trans(A->M, P); }
  else switch (what) { case 0: mzd_slice_apply_p_left(A->S, P); break; case 1: mzd_slice_apply_p_left_trans(A->S, P); break; case 2: mzd_slice_apply_p_right(A->S, P); break; case 3: mzd_slice_apply_p_right_trans(A->S, P); break; default: mzd_slice_apply_p_right_trans_tri(A->S, P); }
  REQ(!memcmp(pv, P->values, sizeof(rci_t) * len), "the permutation was modified");
  gm_out(A, w);
  if (what < 4) { /* the transposed application undoes it */
    gm_snap(A); op("undo %s", nm[what]);
    if (kind == PACKED) switch (what) { case 1: mzed_apply_p_left(A->M, P); break; case 0: mzed_apply_p_left_trans(A->M, P); break; case 3: mzed_apply_p_right(A->M, P); break; default: mzed_apply_p_right_trans(A->M, P); }
    else switch (what) { case 1: mzd_slice_apply_p_left(A->S, P); break; case 0: mzd_slice_apply_p_left_trans(A->S, P); break; case 3: mzd_slice_apply_p_right(A->S, P); break; default: mzd_slice_apply_p_right_trans(A->S, P); }
    gm_out(A, a);
  }
  ev("permutation applications", what < 4 ? 2 : 1);
  mzp_free(P); gm_free(A); ff_done(ff);
}
