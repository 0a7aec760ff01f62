/* P09 products, P10 accumulating products, P11 scalar multiples, P29 tuning parameters (products part) */
#include "vt.h"
#include "p_mul.h"

void pick_mul_shape(const rf_t *f, int *m, int *k, int *n) {
  int mx = vt_valgrind ? 24 : f->e >= 13 ? 24 : f->e >= 11 ? 70 : f->e >= 9 ? 110 : 180;
  *m = pick_dim(f, mx); *k = pick_dim(f, mx); *n = pick_dim(f, mx);
  if (f->e >= 13) { *n = 1 + rnd(40); if (chance(85)) { *m = 1 + rnd(15); } }
  if (extreme(m, k)) { *n = 1 + rnd(8); return; }
  if (chance(8)) *m = 1; if (chance(8)) *n = 1; if (chance(6)) *k = 1;
  if (vt_asan && f->e < 9 && chance(60)) { if (*m > 60) *m = 1 + *m % 60; if (*k > 90) *k = 1 + *k % 90; }
  /* blow one dimension up so that blocking loops see several blocks (cheap ones only) */
  if (!vt_valgrind && f->e > 4 && chance(5)) { int *p[3] = {m, k, n}, lim = f->e >= 12 ? 12 : f->e >= 9 ? 30 : 60; for (int i = 0; i < 3; i++) if (*p[i] > lim) *p[i] = 1 + *p[i] % lim; *p[rnd(3)] = 190 + rnd(vt_asan ? 120 : 400); ev("long shapes", 1); }
  if (!vt_valgrind && f->e <= 4 && chance(8)) { int *p[3] = {m, k, n}; *p[rnd(3)] = 200 + rnd(vt_asan ? 120 : 500); }
}

int freivalds(const rf_t *f, const RM *a, const RM *b, const RM *c0, const RM *c, int reps, int *row) {
  /* c == c0 + a*b ?  (c0 may be NULL) */
  for (int t = 0; t < reps; t++) {
    RM *x = rm_rand(f, b->c, 1), *y = rm_new(b->r, 1), *z = rm_new(a->r, 1), *u = rm_new(a->r, 1);
    for (int i = 0; i < b->r; i++) { el s = 0; for (int j = 0; j < b->c; j++) if (AT(b, i, j)) { s ^= AT(b, i, j) == 1 ? x->d[j] : rf_mul(f, AT(b, i, j), x->d[j]); } y->d[i] = s; }
    for (int i = 0; i < a->r; i++) { el s = 0; for (int j = 0; j < a->c; j++) if (AT(a, i, j)) s ^= rf_mul(f, AT(a, i, j), y->d[j]); z->d[i] = s; }
    for (int i = 0; i < c->r; i++) { el s = 0; for (int j = 0; j < c->c; j++) { el v = AT(c, i, j) ^ (c0 ? AT(c0, i, j) : 0); if (v) s ^= rf_mul(f, v, x->d[j]); } u->d[i] = s; }
    for (int i = 0; i < a->r; i++) if (z->d[i] != u->d[i]) { *row = i; return 0; }
    ev("randomized product verifications", 1);
  }
  return 1;
}

/* bilinear map for the explicit-map entry points */
static blm_t *some_blm(const gf2e *ff, const rf_t *f) {
  int *p = NULL; blm_t *b;
  if (chance(50)) { p = crt_init(f->e, f->e); b = blm_init_crt(ff, f->e, f->e, p, chance(70)); m4ri_mm_free(p); }
  else { p = m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int)); p[f->e] = 1; b = blm_init_crt(ff, f->e, f->e, p, chance(70)); m4ri_mm_free(p); }
  return b;
}

const char *ALG_P[NALG_P] = {"dispatch", "dispatch_", "naive", "newton-john", "strassen", "karatsuba", "blm", "strassen_", "newton-john0"};
const char *ALG_S[NALG_S] = {"dispatch", "karatsuba", "blm", "blm(explicit map)", "naive_"};

static int strassen_cutoff_pick(const rf_t *f) { (void)f; return chance(25) ? 0 : 65 + (int)rnd(chance(60) ? 30 : 400); }

mzed_t *run_packed(int alg, int acc, mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
  switch (alg) {
  case 0: return acc ? mzed_addmul(C, A, B) : mzed_mul(C, A, B);
  case 1: return acc ? _mzed_addmul(C, A, B) : _mzed_mul(C, A, B);
  case 2: return acc ? mzed_addmul_naive(C, A, B) : mzed_mul_naive(C, A, B);
  case 3: return acc ? mzed_addmul_newton_john(C, A, B) : mzed_mul_newton_john(C, A, B);
  case 4: return acc ? mzed_addmul_strassen(C, A, B, cutoff) : mzed_mul_strassen(C, A, B, cutoff);
  case 5: return acc ? mzed_addmul_karatsuba(C, A, B) : mzed_mul_karatsuba(C, A, B);
  case 6: return acc ? mzed_addmul_blm(C, A, B) : mzed_mul_blm(C, A, B);
  case 7: return acc ? _mzed_addmul_strassen(C, A, B, cutoff) : _mzed_mul_strassen(C, A, B, cutoff);
  default: return _mzed_mul_newton_john0(C, A, B); /* accumulating by its documentation */
  }
}
/* accumulating entry points without a destination create one and return the plain product */
static const char *FRESH[9] = {"addmul(NULL)", "addmul_naive(NULL)", "addmul_newton_john(NULL)", "addmul_strassen(NULL)", "_addmul_karatsuba(NULL)", "_addmul_blm(NULL)", "sliced _addmul_karatsuba(NULL)", "sliced _addmul_naive(NULL)", "sliced _mul_blm(NULL)"};
static mzed_t *fresh_packed(int k, const mzed_t *A, const mzed_t *B) {
  switch (k) {
  case 0: return mzed_addmul(NULL, A, B);
  case 1: return mzed_addmul_naive(NULL, A, B);
  case 2: return mzed_addmul_newton_john(NULL, A, B);
  case 3: return mzed_addmul_strassen(NULL, A, B, 65);
  case 4: return _mzed_addmul_karatsuba(NULL, A, B);
  default: return _mzed_addmul_blm(NULL, A, B);
  }
}
static mzd_slice_t *fresh_sliced(int k, const mzd_slice_t *A, const mzd_slice_t *B) {
  switch (k) {
  case 6: return _mzd_slice_addmul_karatsuba(NULL, A, B);
  case 7: return _mzd_slice_addmul_naive(NULL, A, B);
  default: return _mzd_slice_mul_blm(NULL, A, B, NULL);
  }
}
mzd_slice_t *run_sliced(int alg, int acc, mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B, blm_t *f) {
  switch (alg) {
  case 0: return acc ? mzd_slice_addmul(C, A, B) : mzd_slice_mul(C, A, B);
  case 1: return acc ? mzd_slice_addmul_karatsuba(C, A, B) : mzd_slice_mul_karatsuba(C, A, B);
  case 2: return acc ? mzd_slice_addmul_blm(C, A, B, NULL) : mzd_slice_mul_blm(C, A, B, NULL);
  case 3: return acc ? mzd_slice_addmul_blm(C, A, B, f) : mzd_slice_mul_blm(C, A, B, f);
  default: return _mzd_slice_addmul_naive(C, A, B);
  }
}

static void mul_case(u64 idx, int acc) {
  rf_t f; int e;
  if (vt_big) e = rng_range(2, vt_asan ? 8 : 16); else e = (int)(2 + idx % 15);
  u32 mp = poly_pick(e); op("field"); const gf2e *ff = ff_make(&f, e, mp);
  int kind = chance(65) ? PACKED : SLICED, alg, cutoff = 0, m, k, n;
  if (vt_big) {
    /* sizes that cross the dispatch thresholds (512) and the Strassen recursion */
    if (chance(60)) { kind = PACKED; alg = chance(70) ? (int)rnd(2) : 5; m = 512 + rnd(40); k = 512 + rnd(40); n = 512 + rnd(40); if (chance(25)) { int *p[3] = {&m, &k, &n}; *p[rnd(3)] = 505 + rnd(7); } if (e > 10 && (m < 512 || k < 512 || n < 512)) { m = 512 + m % 8; k = 512 + k % 8; n = 512 + n % 8; } }
    else if (chance(75)) { kind = PACKED; alg = chance(60) ? 4 : 7; if (e > 8) { ff_done(ff); e = rng_range(2, 8); ff = ff_make(&f, e, poly_pick(e)); } m = 130 + rnd(330); k = 130 + rnd(330); n = 130 + rnd(330); cutoff = 65 + rnd(160); }
    else { kind = SLICED; alg = rnd(3); m = 200 + rnd(300); k = 200 + rnd(300); n = 200 + rnd(300); }
  } else {
    pick_mul_shape(&f, &m, &k, &n);
    alg = kind == PACKED ? (int)rnd(acc ? NALG_P : NALG_P - 1) : (int)rnd(acc ? NALG_S : NALG_S - 1);
    if (kind == PACKED && alg == 8 && e > 10) alg = 3;
    if (kind == PACKED && (alg == 4 || alg == 7)) {
      cutoff = strassen_cutoff_pick(&f);
      if (alg == 7 && cutoff == 0) cutoff = 65;
      if (e <= 8 && !vt_valgrind && chance(50)) { m = 88 + rnd(vt_asan ? 60 : 160); k = 88 + rnd(vt_asan ? 60 : 160); n = 88 + rnd(vt_asan ? 60 : 160); }
    }
  }
  int share = chance(vt_big ? 8 : 12) ? 1 + (int)rnd(2) : 0; /* 1: the same object twice, 2: overlapping windows of one matrix */
  if (share && !vt_big && (k > 700 || m > 1000)) share = 0;
  if (share == 1) { if (e >= 13 && k > 30) k = 1 + k % 30; m = n = k; if (!vt_big && e <= 8 && (alg == 4 || alg == 7) && !vt_valgrind && k < 88) { m = n = k = 88 + k; } }
  if (share == 2 && kind == SLICED) n = k;
  int fresh = -1;
  if (!acc && !vt_big && chance(8)) { fresh = (int)rnd(9); kind = fresh < 6 ? PACKED : SLICED; if (share == 2) share = 0; if (fresh == 2 && e > 11) fresh = 1; }
  else if (!vt_big && !vt_valgrind && kind == PACKED && (alg == 3 || alg == 0) && e <= (vt_asan ? 4 : 8) && chance(vt_asan ? 2 : 3)) {
    share = 0;
    /* so many rows that the table methods work in several blocks of rows */
    alg = 3; m = f.w * 2048 * (e < 5 && chance(25) ? 2 : 1) + (int)rnd(chance(50) ? 40 : 700) - (chance(10) ? 3 : 0); k = 1 + rnd(40); n = 1 + rnd(40); ev("products in several row blocks", 1);
  }
  sig(fresh); sig(kind * 16 + alg); sig(f.mp); sig(m); sig(k); sig(n); sig(cutoff); nontrivial();
  desc("%s %s %s %dx%d * %dx%d degree %d poly 0x%x cutoff %d%s", acc ? "addmul" : "mul", KN(kind), fresh >= 0 ? FRESH[fresh] : kind == PACKED ? ALG_P[alg] : ALG_S[alg], m, k, k, n, f.e, f.mp, cutoff, share == 1 ? ", both factors the same object" : share == 2 ? ", factors are windows of one matrix" : "");
  RM *a = rm_gen(&f, m, k, vt_big ? G_UNIFORM : -1), *b = rm_gen(&f, k, n, vt_big ? G_UNIFORM : -1);
  int needC = acc || (kind == PACKED && (alg == 1 || alg == 7));
  RM *c0 = acc ? rm_gen(&f, m, n, chance(80) ? G_UNIFORM : -1) : rm_rand(&f, m, n);
  GM *parent = NULL; sig(share);
  vt_edge_aligned = kind == SLICED; /* base-library products of windows with a ragged right edge: see DESIGN.md */
  GM *A, *B, *C = NULL;
  if (share == 2) {
    /* both factors are windows of one matrix, usually overlapping */
    int al = kind == PACKED ? 64 / f.w : 64, ra = rnd(3), rb = chance(30) ? ra : (int)rnd(3), ca = al * (int)rnd(2), cb = kind == SLICED || chance(50) ? ca : al * (int)rnd(2);
    int R = ra + m > rb + k ? ra + m : rb + k, W = ca + k > cb + n ? ca + k : cb + n;
    GM *P = gm_new("parent of both factors", ff, &f, kind, OWNED, vt_big ? rm_rand(&f, R, W) : rm_gen(&f, R, W, -1)); RM *pv = gm_read(P);
    a = rm_sub(pv, ra, ca, ra + m, ca + k); b = rm_sub(pv, rb, cb, rb + k, cb + n);
    A = arena(sizeof *A); B = arena(sizeof *B); *A = *P; *B = *P;
    if (kind == PACKED) { A->M = mzed_init_window(P->M, ra, ca, ra + m, ca + k); B->M = mzed_init_window(P->M, rb, cb, rb + k, cb + n); }
    else { A->S = mzd_slice_init_window(P->S, ra, ca, ra + m, ca + k); B->S = mzd_slice_init_window(P->S, rb, cb, rb + k, cb + n); }
    parent = P; ev("factors that are windows of one matrix", 1);
  } else {
    A = gm_new("A", ff, &f, kind, gm_mode_mask(), a);
    if (share == 1 || (m == k && k == n && chance(20))) { B = A; b = a; ev("factors that are one object", 1); } else B = gm_new("B", ff, &f, kind, gm_mode_mask(), b);
  }
  if (fresh < 0 && (needC || chance(65))) C = gm_new("C", ff, &f, kind, gm_mode_mask(), c0);
  blm_t *bf = NULL;
  if (fresh < 0 && kind == SLICED && alg == 3) { op("blm_init_crt"); bf = some_blm(ff, &f); }
  op("%s %s", acc ? "addmul" : "mul", fresh >= 0 ? FRESH[fresh] : kind == PACKED ? ALG_P[alg] : ALG_S[alg]);
  if (fresh >= 0) { if (kind == PACKED) C = gm_wrap_m("C", ff, &f, fresh_packed(fresh, A->M, B->M)); else C = gm_wrap_s("C", ff, &f, fresh_sliced(fresh, A->S, B->S)); }
  else if (kind == PACKED) { mzed_t *r = run_packed(alg, acc, C ? C->M : NULL, A->M, B->M, cutoff); if (C) REQ(r == C->M, "destination not returned"); else C = gm_wrap_m("C", ff, &f, r); }
  else { mzd_slice_t *r = run_sliced(alg, acc, C ? C->S : NULL, A->S, B->S, bf); if (C) REQ(r == C->S, "destination not returned"); else C = gm_wrap_s("C", ff, &f, r); }
  op("verify");
  gm_check_frame(C); if (parent) gm_check_const(parent); else { gm_check_const(A); if (B != A) gm_check_const(B); }
  if (vt_big) {
    int row; RM *got = gm_read(C); REQ(got->r == m && got->c == n, "dimensions of the result");
    if (!freivalds(&f, a, b, acc ? c0 : NULL, got, f.e < 5 ? 12 : 4, &row)) viol("row %d of the product is wrong (random linear check of C - %sA*B)", row, acc ? "C0 - " : "");
  } else {
    RM *w = rm_mul(&f, a, b); if (acc) w = rm_add(w, c0);
    gm_check_val(C, w);
  }
  ev(kind == PACKED ? "packed products" : "sliced products", 1);
  if (bf) blm_free(bf);
  if (parent) {
    if (kind == PACKED) { mzed_free_window(A->M); mzed_free_window(B->M); } else { mzd_slice_free_window(A->S); mzd_slice_free_window(B->S); }
    gm_free(parent);
  } else { gm_free(A); if (B != A) gm_free(B); }
  gm_free(C); ff_done(ff);
}
void p09(u64 idx) { mul_case(idx, 0); }
void p10(u64 idx) { mul_case(idx, 1); }

/* ---------------- P11 ---------------- */
void p11(u64 idx) {
  rf_t f; int e = (int)(2 + idx % 15); u32 mp = poly_pick(e); op("field"); const gf2e *ff = ff_make(&f, e, mp);
  int what = (int)((idx / 15) % 3), r, c;
  int large = (vt_big || chance(6)) && !vt_valgrind && e <= 8 && what == 0;
  if (large) { /* the lookup-table path starts at 2^17 elements */
    c = chance(50) ? 300 + rnd(600) : 60 + rnd(200); r = (1 << 17) / c + (int)rnd(6) - 2; if (chance(30)) { int t = r; r = c; c = t; }
  } else { r = pick_dim(&f, 40); c = pick_dim(&f, vt_valgrind ? 40 : 200); extreme(&r, &c); }
  el s = chance(6) ? 0 : chance(6) ? 1 : chance(6) ? (el)((1u << e) - 1) : rf_rand(&f);
  sig(what); sig(mp); sig(r); sig(c); sig(s); nontrivial();
  int kind = what == 0 ? PACKED : SLICED;
  static const char *nm[] = {"mzed_mul_scalar", "mzd_slice_mul_scalar", "mzd_slice_addmul_scalar"};
  desc("%s by %x of %dx%d degree %d poly 0x%x", nm[what], s, r, c, e, mp);
  RM *b = rm_gen(&f, r, c, -1), *c0 = rm_rand(&f, r, c), *w = rm_new(r, c);
  for (int i = 0; i < r; i++) rm_scal(&f, rm_at(w, i, 0), rm_at(b, i, 0), c, s);
  if (what == 2) w = rm_add(w, c0);
  GM *B = gm_new("B", ff, &f, kind, gm_mode_mask(), b), *C = NULL;
  int alias = what == 0 && chance(15);
  if (alias) C = B; else if (what == 2 || chance(60)) C = gm_new("C", ff, &f, kind, gm_mode_mask(), c0);
  op("%s%s", nm[what], alias ? " in place" : "");
  if (what == 0) { mzed_t *x = mzed_mul_scalar(C ? C->M : NULL, s, B->M); if (C) REQ(x == C->M, "destination not returned"); else C = gm_wrap_m("C", ff, &f, x); }
  else { mzd_slice_t *x = what == 1 ? mzd_slice_mul_scalar(C ? C->S : NULL, s, B->S) : mzd_slice_addmul_scalar(C->S, s, B->S); if (C) REQ(x == C->S, "destination not returned"); else C = gm_wrap_s("C", ff, &f, x); }
  gm_out(C, w);
  if (!alias) { gm_check_const(B); gm_free(B); }
  gm_free(C);
  ev(large ? "table-path scalar products" : "scalar products", 1);
  ff_done(ff);
}
