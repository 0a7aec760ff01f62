/* P12 reduced echelon forms, P13 non-reduced echelon forms, P14 inversion, P15 triangular solving, P16 PLE, P17 PLUQ */
#include "vt.h"
#include "p_elim.h"

/* a matrix with a chosen rank profile: exactly these pivot columns */
RM *profile_matrix(const rf_t *f, int r, int c) {
  int mx = r < c ? r : c, rk = chance(40) ? mx : (int)rnd(mx + 1), n = 0;
  int *piv = arena(sizeof(int) * (c + 1)); char *is = arena(c + 1);
  switch (rnd(5)) {
  case 0: for (int i = 0; i < rk; i++) is[i] = 1; break;                            /* leading block */
  case 1: for (int i = 0; i < rk; i++) is[c - 1 - i] = 1; break;                    /* trailing block */
  case 2: { int lead = rnd(c); for (int i = 0; i < rk; i++) { int j; do j = rnd(c); while (is[j]); is[j] = 1; } for (int j = 0; j < lead; j++) if (is[j] && chance(80)) { is[j] = 0; rk--; } break; }
  case 3: { int at = c > 1 ? (int)rnd(c) : 0; int m = rk; rk = 0; for (int j = at; j < c && rk < m; j++) { is[j] = 1; rk++; if (chance(20)) j += rnd(70); } break; }
  default: for (int i = 0; i < rk; i++) { int j; do j = rnd(c); while (is[j]); is[j] = 1; } break;
  }
  for (int j = 0; j < c; j++) if (is[j]) piv[n++] = j;
  rk = n;
  RM *e = rm_new(rk, c);
  int sparse = chance(25);
  for (int i = 0; i < rk; i++) { AT(e, i, piv[i]) = rf_rand_nz(f); for (int j = piv[i] + 1; j < c; j++) if (!sparse || !rnd(6)) AT(e, i, j) = rf_rand(f); }
  if (chance(20)) for (int j = 0; j < c; j++) if (!is[j] && chance(50)) for (int i = 0; i < rk; i++) AT(e, i, j) = 0;
  RM *l;
  do { l = rm_rand(f, r, rk); if (chance(30)) for (int i = 0; i < r; i++) for (int j = 0; j < rk; j++) { if (j == i) AT(l, i, j) = rf_rand_nz(f); else if (j > i) AT(l, i, j) = 0; }
    if (chance(25) && r > 1) { int k = rnd(r); for (int j = 0; j < rk; j++) AT(l, k, j) = 0; }
  } while (0);
  return rm_mul(f, l, e);
}
RM *elim_matrix(const rf_t *f, int r, int c) { return chance(55) ? profile_matrix(f, r, c) : rm_gen(f, r, c, -1); }

/* dimension choice for eliminations; cost of table methods grows with 2^e */
void elim_dims(const rf_t *f, int *r, int *c) {
  int mx = vt_valgrind ? 20 : f->e >= 13 ? 24 : f->e >= 10 ? 80 : vt_asan ? 130 : 200;
  if (extreme(r, c)) { int *s = *r < *c ? r : c; if (f->e >= 12 && *s > 8) *s = 1 + *s % 8; else if (f->e >= 9 && *s > 20) *s = 1 + *s % 20; return; }
  *r = pick_dim(f, mx); *c = pick_dim(f, mx);
  if (chance(15)) *c = *r;
  if (!vt_valgrind && f->e <= 9 && chance(10)) { *c = 130 + (int)rnd(vt_asan ? 130 : 300); if (*r > 80) *r = 80; }
  if (!vt_valgrind && f->e <= 9 && chance(6)) { *r = 130 + (int)rnd(vt_asan ? 130 : 300); if (*c > 80) *c = 80; }
}

const char *ECH[6] = {"naive", "newton-john", "ple", "dispatch", "sliced", "sliced ple"};
rci_t run_echelon(int alg, GM *A, int full) {
  switch (alg) {
  case 0: return mzed_echelonize_naive(A->M, full);
  case 1: return mzed_echelonize_newton_john(A->M, full);
  case 2: return mzed_echelonize_ple(A->M, full);
  case 3: return mzed_echelonize(A->M, full);
  case 4: return mzd_slice_echelonize(A->S, full);
  default: return mzd_slice_echelonize_ple(A->S, full);
  }
}

static void echelon_case(u64 idx, int full) {
  rf_t f; int e = (int)(2 + idx % 15);
  int alg = (int)rnd(6);
  if (vt_big) { alg = (int)(2 + rnd(4)); if (chance(50)) alg = 3; }
  if (alg == 1 && e > 11 && chance(60)) alg = (int)rnd(6);
  u32 mp = poly_pick(e); op("field"); const gf2e *ff = ff_make(&f, e, mp);
  int kind = alg >= 4 ? SLICED : PACKED, r, c;
  elim_dims(&f, &r, &c);
  if (vt_big) { /* beyond the base-case bounds of the recursive algorithms */
    int t = f.w == 2 ? 1100 : f.w == 4 ? 740 : f.w == 8 ? 530 : 370; if (alg != 3 && chance(40)) t /= 2;
    r = t + rnd(60); c = t + rnd(60); if (chance(30)) { r = r / 2; c = c * 2 + 64; }
    if (alg == 3 && chance(55)) { /* the dispatcher switches from tables to PLE at nrows*ncols*w > 2^22 */
      t = f.w == 2 ? 1449 : f.w == 4 ? 1025 : f.w == 8 ? 725 : 513; r = t + rnd(30); c = t + rnd(30); ev("dispatches beyond the table limit", 1); }
    else if (e <= 8 && chance(15)) { alg = 1; kind = PACKED; r = 258 + rnd(60); c = 2740 + rnd(300); ev("wide eliminations", 1); }
  }
  else if (e >= 12 && (alg == 1 || alg == 3) && c > 60) c = 1 + c % 60;
  RM *a = vt_big ? (chance(50) ? profile_matrix(&f, r, c) : rm_rank_exact(&f, r, c, (int)rnd((r < c ? r : c) / (r + c > 1800 ? 3 : 1) + 1))) : elim_matrix(&f, r, c), *w = rm_dup(a);
  int rank = rm_rref(&f, w, 1);
  sig(alg); sig(f.mp); sig(r); sig(c); sig(rank); if (rank) nontrivial();
  desc("echelon form (full=%d) %s %dx%d rank %d degree %d poly 0x%x", full, ECH[alg], r, c, rank, f.e, f.mp);
  vt_edge_aligned = kind == SLICED;
  int mode = gm_mode_mask();
  GM *A = gm_new("A", ff, &f, kind, mode, a);
  op("echelonize %s full=%d", ECH[alg], full);
  rci_t got = run_echelon(alg, A, full);
  op("verify");
  gm_check_frame(A);
  REQ(got == rank, "returned rank %d, the rank is %d", (int)got, rank);
  if (full) gm_check_val(A, w);
  else {
    RM *g = gm_read(A); int last = -1;
    for (int i = 0; i < r; i++) {
      int p = 0; while (p < c && !AT(g, i, p)) p++;
      if (i < rank) { REQ(p < c, "row %d of the echelon form is zero although the rank is %d", i, rank); REQ(p > last, "leading entry of row %d in column %d is not right of the previous one (%d)", i, p, last); last = p; }
      else REQ(p == c, "row %d below the rank %d is not zero (column %d)", i, rank, p);
    }
    RM *gg = rm_dup(g); rm_rref(&f, gg, 1); int pi, pj;
    if (!rm_eq(gg, w, &pi, &pj)) viol("row space changed: reduced forms differ at (%d,%d)", pi, pj);
    ev("row spaces compared", 1);
  }
  ev(kind == PACKED ? "packed echelon forms" : "sliced echelon forms", 1);
  if (rank < r && rank < c) ev("rank-deficient inputs", 1);
  gm_free(A); ff_done(ff);
}
void p12(u64 idx) { echelon_case(idx, 1); }
void p13(u64 idx) { echelon_case(idx, 0); }

/* ---------------- P14 ---------------- */
void p14(u64 idx) {
  rf_t f; int e = (int)(2 + idx % 15); u32 mp = poly_pick(e); op("field"); const gf2e *ff = ff_make(&f, e, mp);
  int mx = vt_valgrind ? 16 : f.e >= 13 ? 12 : f.e >= 10 ? 50 : vt_asan ? 90 : 150, n = pick_dim(&f, mx);
  if (!vt_valgrind && chance(5)) n = 64 + (int)rnd(f.e >= 13 ? 10 : f.e >= 10 ? 60 : vt_asan ? 150 : 300);
  int singular = chance(22);
  RM *a;
  if (singular) { int t = 0; do { RM *x; if (n > 1 && chance(60)) { x = rm_rank_exact(&f, n, n, chance(60) ? n - 1 : (int)rnd(n)); } else x = chance(50) ? rm_gen(&f, n, n, G_DUP) : rm_gen(&f, n, n, G_LOWRANK); RM *y = rm_dup(x); if (rm_rref(&f, y, 1) < n) { a = x; break; } if (++t > 20) { a = rm_new(n, n); break; } } while (1); }
  else { switch (rnd(4)) {
    case 0: { a = rm_new(n, n); int *p = arena(sizeof(int) * n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) { int j = rnd(i + 1), t = p[i]; p[i] = p[j]; p[j] = t; } for (int i = 0; i < n; i++) AT(a, i, p[i]) = rf_rand_nz(&f); break; }
    case 1: { a = rm_new(n, n); int up = chance(50); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) AT(a, i, j) = i == j ? rf_rand_nz(&f) : ((j > i) == up) ? rf_rand(&f) : 0; break; }
    default: a = rm_invertible(&f, n); } }
  sig(f.mp); sig(n); sig(singular); nontrivial();
  desc("inversion %dx%d %s degree %d poly 0x%x", n, n, singular ? "singular" : "invertible", f.e, f.mp);
  GM *A = gm_new("A", ff, &f, PACKED, gm_mode_mask(), a), *B = NULL;
  vt_edge_aligned = 1;
  if (chance(60)) B = gm_new("B", ff, &f, PACKED, gm_mode_mask(), rm_rand(&f, n, n));
  op("mzed_invert_newton_john(%s)", B ? "B" : "NULL");
  if (singular) {
    int died = DIES(mzed_invert_newton_john(B ? B->M : NULL, A->M));
    REQ(died, "inverting a singular matrix returned normally");
    gm_check_const(A); if (B) gm_check_const(B);
    ev("singular inputs rejected", 1);
  } else {
    mzed_t *r = mzed_invert_newton_john(B ? B->M : NULL, A->M);
    if (B) REQ(r == B->M, "destination not returned"); else B = gm_wrap_m("B", ff, &f, r);
    gm_check_frame(B); gm_check_const(A);
    RM *g = gm_read(B); REQ(g->r == n && g->c == n, "dimensions of the inverse");
    RM *p = rm_mul(&f, a, g), *q = rm_mul(&f, g, a), *id = rm_identity(n); int pi, pj;
    if (!rm_eq(p, id, &pi, &pj)) viol("A * inverse(A) differs from the identity at (%d,%d)", pi, pj);
    if (!rm_eq(q, id, &pi, &pj)) viol("inverse(A) * A differs from the identity at (%d,%d)", pi, pj);
    ev("inverses verified", 1);
  }
  gm_free(A); if (B) gm_free(B); ff_done(ff);
}

/* ---------------- P15 ---------------- */
const char *TRSM[4] = {"naive", "newton-john", "recursive", "default"};
void run_trsm(int kind, int lower, int alg, GM *T, GM *B, int cutoff) {
  if (kind == PACKED) switch (alg) {
  case 0: if (lower) mzed_trsm_lower_left_naive(T->M, B->M); else mzed_trsm_upper_left_naive(T->M, B->M); break;
  case 1: if (lower) mzed_trsm_lower_left_newton_john(T->M, B->M); else mzed_trsm_upper_left_newton_john(T->M, B->M); break;
  case 2: if (lower) _mzed_trsm_lower_left(T->M, B->M, cutoff); else _mzed_trsm_upper_left(T->M, B->M, cutoff); break;
  default: if (lower) mzed_trsm_lower_left(T->M, B->M); else mzed_trsm_upper_left(T->M, B->M); break;
  } else switch (alg) {
  case 0: if (lower) mzd_slice_trsm_lower_left_naive(T->S, B->S); else mzd_slice_trsm_upper_left_naive(T->S, B->S); break;
  case 1: if (lower) mzd_slice_trsm_lower_left_newton_john(T->S, B->S); else mzd_slice_trsm_upper_left_newton_john(T->S, B->S); break;
  case 2: if (lower) _mzd_slice_trsm_lower_left(T->S, B->S, cutoff); else _mzd_slice_trsm_upper_left(T->S, B->S, cutoff); break;
  default: if (lower) mzd_slice_trsm_lower_left(T->S, B->S); else mzd_slice_trsm_upper_left(T->S, B->S); break;
  }
}
RM *rm_trsm(const rf_t *f, const RM *t, const RM *b, int lower) {
  RM *x = rm_dup(b); int n = t->r;
  for (int ii = 0; ii < n; ii++) {
    int i = lower ? ii : n - 1 - ii;
    for (int k = lower ? 0 : i + 1; k < (lower ? i : n); k++) if (AT(t, i, k)) rm_axpy(f, rm_at(x, i, 0), rm_at(x, k, 0), x->c, AT(t, i, k));
    rm_scal(f, rm_at(x, i, 0), rm_at(x, i, 0), x->c, rf_inv(f, AT(t, i, i)));
  }
  return x;
}
void p15(u64 idx) {
  rf_t f; int e = (int)(2 + idx % 15), kind = chance(50) ? PACKED : SLICED, lower = chance(50), alg = vt_big ? 2 + (int)rnd(2) : (int)rnd(4);
  u32 mp = poly_pick(e); op("field"); const gf2e *ff = ff_make(&f, e, mp);
  int n = pick_dim(&f, vt_valgrind ? 24 : vt_asan ? 150 : 200), m = pick_dim(&f, vt_valgrind ? 24 : f.e >= 12 ? 40 : 150), cutoff = 0;
  if (alg == 1 && e <= 7 && !vt_valgrind && chance(50)) n = (1 << e) + (int)rnd(30) - 3;   /* around the switch to the table method */
  if (n < 1) n = 1;
  if (alg == 2) {
    cutoff = 1 + (int)rnd(chance(60) ? 40 : 150);
    if (!vt_valgrind && chance(60)) { n = 64 + rnd(vt_asan ? 90 : 220); m = cutoff + 1 + rnd(60); }
    if (e >= 11) { if (n > 140) n = 64 + n % 70; if (m > 100) m = 1 + m % 100; }
    if (e >= 13) m = 1 + m % 50;
  }
  if (vt_big) { if (alg == 3) { n = 513 + rnd(120); m = 513 + rnd(60); } else { n = 300 + rnd(300); cutoff = 64 + rnd(150); m = cutoff + 1 + rnd(200); } if (e >= 12) { n = 513 + rnd(20); m = 513 + rnd(10); } }
  else if (!vt_valgrind && chance(2)) { if (chance(60)) { n = 1 + rnd(8); m = 300 + rnd(vt_asan ? 1500 : 5000); } else { n = 300 + rnd(vt_asan ? 100 : 500); m = 1 + rnd(3); } ev("extreme shapes", 1); }
  sig(kind * 8 + alg * 2 + lower); sig(f.mp); sig(n); sig(m); sig(cutoff); nontrivial();
  desc("%s triangular solve %s %s n=%d rhs columns %d cutoff %d degree %d poly 0x%x", lower ? "lower" : "upper", KN(kind), TRSM[alg], n, m, cutoff, f.e, f.mp);
  RM *t = chance(60) ? rm_rand(&f, n, n) : rm_gen(&f, n, n, -1), *b = rm_gen(&f, n, m, vt_big ? G_UNIFORM : -1);
  int unit = chance(25), junk = chance(70);
  for (int i = 0; i < n; i++) { AT(t, i, i) = unit ? 1 : AT(t, i, i) ? AT(t, i, i) : rf_rand_nz(&f); if (!junk) for (int j = 0; j < n; j++) if (j != i && ((j > i) == lower)) AT(t, i, j) = 0; }
  RM *w = rm_trsm(&f, t, b, lower);
  vt_edge_aligned = kind == SLICED;
  GM *T = gm_new("T", ff, &f, kind, gm_mode_mask(), t), *B = gm_new("B", ff, &f, kind, gm_mode_mask(), b);
  op("trsm %s", TRSM[alg]);
  run_trsm(kind, lower, alg, T, B, cutoff);
  op("verify");
  gm_check_const(T); gm_out(B, w);
  ev(kind == PACKED ? "packed triangular solves" : "sliced triangular solves", 1);
  if (junk) ev("solves with the other triangle filled", 1);
  gm_free(T); gm_free(B); ff_done(ff);
}

/* ---------------- P16 / P17 ---------------- */
const char *PLEN[6] = {"naive", "newton-john", "packed cutoff", "packed default", "sliced cutoff", "sliced default"};
rci_t run_ple(int alg, GM *A, mzp_t *P, mzp_t *Q, int cutoff) {
  switch (alg) {
  case 0: return mzed_ple_naive(A->M, P, Q);
  case 1: return mzed_ple_newton_john(A->M, P, Q);
  case 2: return _mzed_ple(A->M, P, Q, cutoff);
  case 3: return mzed_ple(A->M, P, Q);
  case 4: return _mzd_slice_ple(A->S, P, Q, cutoff);
  default: return mzd_slice_ple(A->S, P, Q);
  }
}
static void swap_rows(RM *a, int i, int j) { if (i != j) for (int k = 0; k < a->c; k++) { el t = AT(a, i, k); AT(a, i, k) = AT(a, j, k); AT(a, j, k) = t; } }
static void swap_cols(RM *a, int i, int j) { if (i != j) for (int k = 0; k < a->r; k++) { el t = AT(a, k, i); AT(a, k, i) = AT(a, k, j); AT(a, k, j) = t; } }
static void check_p(const mzp_t *P, int n, const char *nm) {
  REQ(P->length == n, "%s changed its length to %d", nm, (int)P->length);
  for (int i = 0; i < n; i++) REQ(P->values[i] >= i && P->values[i] < n, "%s[%d] = %d is not a transposition with a later index", nm, i, (int)P->values[i]);
}
static void ple_case(u64 idx, int pluq) {
  rf_t f; int e = (int)(2 + idx % 15); u32 mp = poly_pick(e); op("field"); const gf2e *ff = ff_make(&f, e, mp);
  int alg = pluq ? 4 + (int)rnd(2) : vt_big ? 2 + (int)rnd(4) : (int)rnd(6), kind = alg >= 4 ? SLICED : PACKED, r, c, cutoff = 0;
  elim_dims(&f, &r, &c);
  if (alg == 2 || alg == 4) {
    if (!vt_valgrind && f.e < 13 && chance(70)) c = 65 + rnd(vt_asan ? 200 : 330);
    if (f.e >= 10 && c > 140) c = 65 + c % 76;
    int64_t total = (int64_t)f.w * r * c;
    cutoff = chance(10) ? 0 : chance(30) ? 1 + (int)rnd(64) : 1 + (int)rnd((u32)(total < 100000 ? total : 100000));
  }
  if (vt_big) { int t = f.w == 2 ? 1100 : f.w == 4 ? 740 : f.w == 8 ? 530 : 370; r = t + rnd(60); c = t + rnd(60); if (alg == 2 || alg == 4) { r = r / 2; cutoff = 1000 + rnd(100000); } }
  RM *a = vt_big ? profile_matrix(&f, r, c) : elim_matrix(&f, r, c), *w = rm_dup(a);
  int rank = rm_rref(&f, w, 1);
  sig(alg); sig(f.mp); sig(r); sig(c); sig(rank); sig(cutoff); if (rank) nontrivial();
  desc("%s %s %dx%d rank %d cutoff %d degree %d poly 0x%x", pluq ? "PLUQ" : "PLE", PLEN[alg], r, c, rank, cutoff, f.e, f.mp);
  vt_edge_aligned = kind == SLICED;
  GM *A = gm_new("A", ff, &f, kind, gm_mode_mask(), a);
  mzp_t *P = mzp_init(r), *Q = mzp_init(c);
  if (chance(60)) { /* what the preallocated permutations held before does not matter */
    for (int i = 0; i < r; i++) P->values[i] = (rci_t)rnd((u32)r);
    for (int i = 0; i < c; i++) Q->values[i] = (rci_t)rnd((u32)c);
    ev("permutations that were not the identity before", 1);
  }
  op("%s %s", pluq ? "pluq" : "ple", PLEN[alg]);
  rci_t got = pluq ? (alg == 4 ? _mzd_slice_pluq(A->S, P, Q, cutoff) : mzd_slice_pluq(A->S, P, Q)) : run_ple(alg, A, P, Q, cutoff);
  op("verify");
  gm_check_frame(A);
  REQ(got == rank, "returned rank %d, the rank is %d", (int)got, rank);
  check_p(P, r, "P");
  RM *le = gm_read(A), *L = rm_new(r, rank), *E = rm_new(rank, c), *pa = rm_dup(a);
  for (int i = 0; i < rank; i++) {
    REQ(Q->values[i] >= i && Q->values[i] < c, "Q[%d] = %d out of range", i, (int)Q->values[i]);
    REQ(!i || Q->values[i] > Q->values[i - 1], "pivot columns Q[%d] = %d, Q[%d] = %d not increasing", i - 1, (int)Q->values[i - 1], i, (int)Q->values[i]);
    int p = 0; while (!AT(w, i, p)) p++;
    REQ(Q->values[i] == p, "pivot column %d reported for row %d, the rank profile has %d", (int)Q->values[i], i, p);
  }
  for (int j = 0; j < rank; j++) for (int i = j; i < r; i++) AT(L, i, j) = AT(le, i, j);
  for (int i = 0; i < rank; i++) REQ(AT(L, i, i), "diagonal entry %d of L is zero", i);
  if (pluq) {
    for (int i = 0; i < rank; i++) { AT(E, i, i) = 1; for (int j = i + 1; j < c; j++) AT(E, i, j) = AT(le, i, j); }
    for (int i = c - 1; i >= 0; i--) { REQ(Q->values[i] >= 0 && Q->values[i] < c, "Q[%d] = %d out of range", i, (int)Q->values[i]); }
    for (int i = c - 1; i >= 0; i--) swap_cols(E, i, Q->values[i]);
  } else for (int i = 0; i < rank; i++) { AT(E, i, Q->values[i]) = 1; for (int j = Q->values[i] + 1; j < c; j++) AT(E, i, j) = AT(le, i, j); }
  for (int i = 0; i < r; i++) swap_rows(pa, i, P->values[i]);
  RM *b = rank ? rm_mul(&f, L, E) : rm_new(r, c); int pi, pj;
  if (!rm_eq(b, pa, &pi, &pj)) viol("the product of the factors differs from the permuted input at (%d,%d)", pi, pj);
  ev(kind == PACKED ? "packed factorisations verified" : "sliced factorisations verified", 1);
  if (rank < r && rank < c) ev("rank-deficient inputs", 1);
  mzp_free(P); mzp_free(Q); gm_free(A); ff_done(ff);
}
void p16(u64 idx) { ple_case(idx, 0); }
void p17(u64 idx) { ple_case(idx, 1); }
