/* P23 results depend only on the operands, not on what ran before; P26 new objects, views and copies */
#include "vt.h"
#include "p_mul.h"
#include "p_elim.h"

/* ---------------- P23 ---------------- */
typedef struct { GM *g; RM *v; int fi; } ENT;
static ENT *pool; static int npool;
static ENT *pick(int fi, int kind, int r, int c, const ENT *n1, const ENT *n2) {
  /* r,c < 0: any */
  int off = rnd(npool);
  for (int i = 0; i < npool; i++) { ENT *x = &pool[(i + off) % npool]; if (x->fi == fi && x->g->kind == kind && (r < 0 || x->g->r == r) && (c < 0 || x->g->c == c) && x != n1 && x != n2) return x; }
  return NULL;
}
static void upd(ENT *x, RM *v) { gm_out(x->g, v); x->v = v; gm_snap(x->g); }
static void refresh(ENT *x) { gm_check_frame(x->g); x->v = gm_read(x->g); gm_snap(x->g); }
static void setv(ENT *x, RM *v) { gm_set(x->g, v); x->v = v; }

/* the same sequence of calls over fields that replace each other, usually at the same address */
static void replaced_fields(u64 idx) {
  int e = (int)(2 + idx % 15), o = rnd(9), rounds = 3, keep = chance(25), same = chance(80);
  int large = o == 0 && e <= 8 && !vt_valgrind && (!vt_asan || chance(30));
  int mx = vt_valgrind ? 12 : e >= 12 ? 20 : 70, n = 1 + rnd(mx), m = 1 + rnd(mx), k = 1 + rnd(mx), alg = rnd(64), kind = rnd(2), acc = rnd(2);
  if (large) { n = 340 + rnd(60); m = (1 << 17) / n + 1 + (int)rnd(3); }
  el sc = (el)(2 + rnd((1u << e) - 2)); u32 mp[3]; mp[0] = poly_pick(e); mp[1] = poly_pick(e); mp[2] = mp[0];
  if (e == 2 || chance(10)) mp[1] = poly_pick(rng_range(2, e < 10 ? 10 : 12));
  static const char *nm[] = {"scalar multiple", "packed product", "sliced product", "echelon form", "triangular solve", "inverse", "factorisation", "conversion", "field operations"};
  sig(o); sig(mp[0]); sig(mp[1]); sig(m); sig(n); sig(k); sig(alg * 4 + kind * 2 + acc); sig(keep); sig(sc); nontrivial();
  desc("%s over polynomials 0x%x, 0x%x, 0x%x in turn (%s), %dx%d, %d, scalar %x", nm[o], mp[0], mp[1], mp[2], keep ? "all alive" : "each released before the next", m, n, k, sc);
  u64 st[4]; memcpy(st, vt_s, sizeof st); const gf2e *old[3] = {0};
  for (int q = 0; q < rounds; q++) {
    rf_t f; int d = 31 - __builtin_clz(mp[q]); if (same) memcpy(vt_s, st, sizeof st);
    op("field"); const gf2e *ff = ff_make(&f, d, mp[q]); if (q && !keep) ev(ff == old[q - 1] ? "fields at a recycled address" : "fields at a new address", 1); old[q] = ff;
    vt_edge_aligned = 1; el a = sc & (el)((1u << d) - 1);
    op("round %d: %s", q, nm[o]);
    if (o == 0) { RM *b = rm_rand(&f, m, n), *w = rm_new(m, n); for (int i = 0; i < m; i++) rm_scal(&f, rm_at(w, i, 0), rm_at(b, i, 0), n, a); int kk = large ? PACKED : kind; GM *B = gm_new("B", ff, &f, kk, gm_mode_mask(), b), *C = gm_new("C", ff, &f, kk, gm_mode_mask(), b); if (kk == PACKED) mzed_mul_scalar(C->M, a, B->M); else mzd_slice_mul_scalar(C->S, a, B->S); gm_out(C, w); gm_check_const(B); gm_free(B); gm_free(C); }
    else if (o <= 2) { RM *x = rm_gen(&f, m, k, G_UNIFORM), *y = rm_gen(&f, k, n, G_UNIFORM), *z = rm_rand(&f, m, n), *w = rm_mul(&f, x, y); if (acc) w = rm_add(w, z); int kk = o == 1 ? PACKED : SLICED, al = o == 1 ? alg % 8 : (int[]){0, 1, 2, 4}[alg % (acc ? 4 : 3)]; if (o == 1 && al == 3 && d > 10) al = 2;
      GM *A = gm_new("A", ff, &f, kk, gm_mode_mask(), x), *B = gm_new("B", ff, &f, kk, gm_mode_mask(), y), *C = gm_new("C", ff, &f, kk, gm_mode_mask(), z); if (kk == PACKED) run_packed(al, acc, C->M, A->M, B->M, 65); else run_sliced(al, acc, C->S, A->S, B->S, NULL); gm_out(C, w); gm_check_const(A); gm_check_const(B); gm_free(A); gm_free(B); gm_free(C); }
    else if (o == 3) { int al = alg % 6; if (al == 1 && d > 10) al = 0; RM *x = rm_gen(&f, m, n, G_UNIFORM), *w = rm_dup(x); int rk = rm_rref(&f, w, 1); GM *A = gm_new("A", ff, &f, al >= 4 ? SLICED : PACKED, gm_mode_mask(), x); int g = run_echelon(al, A, 1); REQ(g == rk, "returned rank %d, the rank is %d", g, rk); gm_out(A, w); gm_free(A); }
    else if (o == 4) { RM *t = rm_rand(&f, m, m), *b = rm_rand(&f, m, n); for (int i = 0; i < m; i++) if (!AT(t, i, i)) AT(t, i, i) = 1; int al = alg % 4; if (al == 1 && d > 10) al = 0; RM *w = rm_trsm(&f, t, b, acc); GM *T = gm_new("T", ff, &f, kind, gm_mode_mask(), t), *B = gm_new("B", ff, &f, kind, gm_mode_mask(), b); run_trsm(kind, acc, al, T, B, 1 + alg); gm_out(B, w); gm_check_const(T); gm_free(T); gm_free(B); }
    else if (o == 5) { int s = d >= 12 ? 1 + m % 12 : 1 + m % 40; RM *x = rm_invertible(&f, s), *y; int i, j; GM *A = gm_new("A", ff, &f, PACKED, gm_mode_mask(), x), *B = gm_new("B", ff, &f, PACKED, gm_mode_mask(), rm_rand(&f, s, s)); mzed_invert_newton_john(B->M, A->M); gm_check_frame(B); gm_check_const(A); y = rm_mul(&f, x, gm_read(B)); REQ(rm_eq(y, rm_identity(s), &i, &j), "A * inverse(A) is not the identity at (%d,%d)", i, j); gm_free(A); gm_free(B); }
    else if (o == 6) { int al = alg % 6; if (al == 1 && d > 10) al = 0; RM *x = rm_gen(&f, m, n, G_UNIFORM), *w = rm_dup(x); int rk = rm_rref(&f, w, 1); mzp_t *P = mzp_init(m), *Q = mzp_init(n); GM *A = gm_new("A", ff, &f, al >= 4 ? SLICED : PACKED, gm_mode_mask(), x); int g = run_ple(al, A, P, Q, 1 + alg * 30); REQ(g == rk, "returned rank %d, the rank is %d", g, rk);
      RM *le = gm_read(A), *E = rm_new(m, n), *L = rm_new(m, rk); for (int y = 0; y < rk; y++) { int p = Q->values[y]; REQ(p >= y && p < n, "pivot column %d is %d", y, p); AT(E, y, p) = 1; for (int c = p + 1; c < n; c++) AT(E, y, c) = AT(le, y, c); }
      for (int y = 0; y < m; y++) for (int c = 0; c < rk && c <= y; c++) AT(L, y, c) = AT(le, y, c);
      RM *LE = rm_mul(&f, L, E), *px = rm_dup(x); for (int y = 0; y < m; y++) { int p = P->values[y]; REQ(p >= y && p < m, "row permutation %d is %d", y, p); if (p != y) for (int c = 0; c < n; c++) { el t = AT(px, y, c); AT(px, y, c) = AT(px, p, c); AT(px, p, c) = t; } }
      int i, j; if (!rm_eq(LE, px, &i, &j)) viol("L*E differs from the permuted input at (%d,%d)", i, j); mzp_free(P); mzp_free(Q); gm_free(A); }
    else if (o == 7) { RM *x = rm_rand(&f, m, n); GM *A = gm_new("A", ff, &f, kind, gm_mode_mask(), x), *B = gm_new("B", ff, &f, !kind, gm_mode_mask(), rm_rand(&f, m, n)); if (kind == PACKED) mzed_slice(B->S, A->M); else mzed_cling(B->M, A->S); gm_out(B, x); gm_check_const(A); gm_free(A); gm_free(B); }
    else { for (int t = 0; t < 500; t++) { el x = rf_rand(&f), y = rf_rand(&f); word p = ff->mul(ff, x, y); REQ(p == rf_mul(&f, x, y), "%x * %x = %llx", x, y, (unsigned long long)p); if (x) { p = gf2e_inv(ff, x); REQ(rf_mul(&f, x, (u32)p) == 1, "inverse of %x is %llx", x, (unsigned long long)p); } }
      word *T = gf2e_t16_init(ff, a); for (int t = 0; t < 65536; t += 1 + (int)rnd(40)) { u64 w = 0; for (int s = 0; s < 16 / f.w; s++) w |= (u64)rf_mul(&f, (t >> (s * f.w)) & ((1u << d) - 1), a) << (s * f.w); int ok = 1; for (int s = 0; s < 16 / f.w; s++) if (((t >> (s * f.w)) & ((1u << f.w) - 1)) >> d) ok = 0; if (ok) REQ(T[t] == w, "multiples table of %x at %x is %llx", a, t, (unsigned long long)T[t]); } gf2e_t16_free(T); }
    ev("operations over replaced fields", 1);
    if (!keep) ff_done(ff);
  }
  if (keep) for (int q = 0; q < rounds; q++) ff_done(old[q]);
}

void p23(u64 idx) {
  vt_recycle = !vt_valgrind && chance(70);
  if (chance(30)) { replaced_fields(idx); vt_recycle_off(); return; }
  enum { NF = 3 };
  rf_t f[NF]; const gf2e *ff[NF]; int e0 = (int)(2 + idx % 15);
  /* several fields alive at once: same degree with another polynomial, another degree */
  for (int i = 0; i < NF; i++) { int e = i == 2 ? rng_range(2, vt_asan ? 10 : 12) : e0; op("field"); ff[i] = ff_make(&f[i], e, poly_pick(e)); }
  int mx = vt_valgrind ? 12 : e0 >= 12 ? 20 : 40, d[3]; for (int i = 0; i < 3; i++) { d[i] = 1 + rnd(mx); if (!vt_valgrind && e0 < 12 && chance(12)) d[i] = 60 + rnd(12); }
  if (d[1] == d[0]) d[1]++;
  pool = arena(sizeof(ENT) * 128); npool = 0;
  vt_edge_aligned = 1; /* every operation must accept every operand: see DESIGN.md for windows with a ragged right edge */
  for (int fi = 0; fi < NF; fi++) for (int k = 0; k < 2; k++) for (int i = 0; i < 9; i++) {
    int r = d[i / 3], c = d[i % 3]; if (i / 3 == 2 || i % 3 == 2) if (chance(50)) continue;
    for (int q = 0; q < (r == c ? 2 : 1) + (i < 2); q++) { ENT *x = &pool[npool++]; x->fi = fi; x->v = rm_gen(&f[fi], r, c, -1); x->g = gm_new("pool", ff[fi], &f[fi], k, gm_mode_mask(), x->v); }
  }
  int steps = vt_valgrind ? 12 : vt_thorough ? 160 : 60, last = -1;
  desc("history of %d operations on %d matrices, degrees %d,%d,%d poly 0x%x,0x%x,0x%x, dimensions %d,%d,%d", steps, npool, f[0].e, f[1].e, f[2].e, f[0].mp, f[1].mp, f[2].mp, d[0], d[1], d[2]);
  for (int i = 0; i < NF; i++) sig(f[i].mp); for (int i = 0; i < 3; i++) sig(d[i]); nontrivial();
  for (int s = 0; s < steps; s++) {
    int o = rnd(20), fi = rnd(NF), k = rnd(2); rf_t *F = &f[fi];
    if (last >= 0 && chance(15)) o = last; last = o; sig(o * 8 + fi * 2 + k);
    ENT *A = pick(fi, k, -1, -1, NULL, NULL), *B, *C; if (!A) continue; int r = A->g->r, c = A->g->c;
    switch (o) {
    case 0: { B = pick(fi, k, r, c, NULL, NULL); C = pick(fi, k, r, c, NULL, NULL); RM *w = rm_add(A->v, B->v); op("step %d: add %s", s, KN(k)); if (k == PACKED) mzed_add(C->g->M, A->g->M, B->g->M); else mzd_slice_add(C->g->S, A->g->S, B->g->S); upd(C, w); break; }
    case 1: case 2: case 3: case 4: {
      int acc = o > 2; B = pick(fi, k, c, -1, NULL, NULL); if (!B) break; C = pick(fi, k, r, B->g->c, A, B); if (!C) break;
      int alg = k == PACKED ? (int)rnd(8) : (int[]){0, 1, 2, 4}[rnd(acc ? 4 : 3)]; if (k == PACKED && !acc && alg == 1) alg = 0; if (k == PACKED && alg == 7 && !acc) alg = 4;
      if (k == PACKED && alg == 3 && F->e > 10) alg = 2;
      RM *w = rm_mul(F, A->v, B->v); if (acc) w = rm_add(w, C->v);
      op("step %d: %s %s %s", s, acc ? "addmul" : "mul", KN(k), k == PACKED ? ALG_P[alg] : ALG_S[alg]);
      if (k == PACKED) run_packed(alg, acc, C->g->M, A->g->M, B->g->M, 65); else run_sliced(alg, acc, C->g->S, A->g->S, B->g->S, NULL);
      upd(C, w); break; }
    case 5: { int alg = k == PACKED ? (int)rnd(4) : 4 + (int)rnd(2); if (alg == 1 && F->e > 10) alg = 3; if (alg == 3 && F->e > 10 && F->e <= r) alg = 2; RM *w = rm_dup(A->v); int rk = rm_rref(F, w, 1); op("step %d: echelonize %s", s, ECH[alg]); int g = run_echelon(alg, A->g, 1); REQ(g == rk, "returned rank %d, the rank is %d", g, rk); upd(A, w); break; }
    case 6: { if (r != c) break; B = pick(fi, k, r, -1, A, NULL); if (!B) break; RM *t = rm_dup(A->v); int lower = chance(50), alg = rnd(4); if (alg == 1 && F->e > 10) alg = 0;
      for (int i = 0; i < r; i++) if (!AT(t, i, i)) AT(t, i, i) = rf_rand_nz(F); setv(A, t);
      RM *w = rm_trsm(F, t, B->v, lower); op("step %d: trsm %s %s", s, KN(k), TRSM[alg]); run_trsm(k, lower, alg, A->g, B->g, 1 + rnd(64)); upd(B, w); break; }
    case 7: { B = pick(fi, !k, r, c, NULL, NULL); if (!B) break; RM *w = rm_dup(A->v); op("step %d: convert %s to %s", s, KN(k), KN(!k)); if (k == PACKED) mzed_slice(B->g->S, A->g->M); else mzed_cling(B->g->M, A->g->S); upd(B, w); break; }
    case 8: { el a = rf_rand(F); B = k == PACKED && chance(30) ? A : pick(fi, k, r, c, A, NULL); if (!B) break; RM *w = rm_new(r, c); for (int i = 0; i < r; i++) rm_scal(F, rm_at(w, i, 0), rm_at(A->v, i, 0), c, a); op("step %d: mul_scalar %x", s, a); if (k == PACKED) mzed_mul_scalar(B->g->M, a, A->g->M); else mzd_slice_mul_scalar(B->g->S, a, A->g->S); upd(B, w); break; }
    case 9: { int x = rnd(r), y = rnd(r); RM *w = rm_dup(A->v); memcpy(rm_at(w, x, 0), rm_at(A->v, y, 0), sizeof(el) * c); memcpy(rm_at(w, y, 0), rm_at(A->v, x, 0), sizeof(el) * c); op("step %d: row swap", s); if (k == PACKED) mzed_row_swap(A->g->M, x, y); else mzd_slice_row_swap(A->g->S, x, y); upd(A, w); break; }
    case 10: { int x = rnd(r), y = rnd(c); el v = rf_rand(F); RM *w = rm_dup(A->v); int ad = chance(50); AT(w, x, y) = ad ? AT(w, x, y) ^ v : v; op("step %d: %s element", s, ad ? "add to" : "write"); if (k == PACKED) { if (ad) mzed_add_elem(A->g->M, x, y, v); else mzed_write_elem(A->g->M, x, y, v); } else { if (ad) mzd_slice_add_elem(A->g->S, x, y, v); else mzd_slice_write_elem(A->g->S, x, y, v); } upd(A, w); break; }
    case 11: { el v = chance(40) ? 0 : rf_rand(F); RM *w = rm_new(r, c); for (int i = 0; i < r && i < c; i++) AT(w, i, i) = v; op("step %d: set to scalar %x", s, v); if (k == PACKED) mzed_set_ui(A->g->M, v); else mzd_slice_set_ui(A->g->S, v); upd(A, w); break; }
    case 12: { B = pick(fi, k, r, c, A, NULL); if (!B) break; op("step %d: copy", s); RM *w = rm_dup(A->v); if (k == PACKED) mzed_copy(B->g->M, A->g->M); else mzd_slice_copy(B->g->S, A->g->S); upd(B, w); break; }
    case 13: { if (k != PACKED || r != c || F->e > 10) break; RM *t = rm_dup(A->v), *u = rm_dup(t); if (rm_rref(F, u, 1) < r) { t = rm_invertible(F, r); setv(A, t); } B = pick(fi, k, r, c, A, NULL); if (!B) break; op("step %d: invert", s); mzed_invert_newton_john(B->g->M, A->g->M); refresh(B); RM *pr = rm_mul(F, t, B->v); int i, j; REQ(rm_eq(pr, rm_identity(r), &i, &j), "A * inverse(A) is not the identity at (%d,%d)", i, j); break; }
    case 14: { int alg = k == PACKED ? (int)rnd(4) : 4 + (int)rnd(2); if (alg == 1 && F->e > 10) alg = 0; RM *w = rm_dup(A->v); int rk = rm_rref(F, w, 1); mzp_t *P = mzp_init(r), *Q = mzp_init(c); op("step %d: ple %s", s, PLEN[alg]); int g = run_ple(alg, A->g, P, Q, 1 + rnd(2000)); mzp_free(P); mzp_free(Q); REQ(g == rk, "returned rank %d, the rank is %d", g, rk); refresh(A); break; }
    case 15: { B = pick(fi, k, r, c, NULL, NULL); op("step %d: compare", s); int i, j, eq = rm_eq(A->v, B->v, &i, &j), g = k == PACKED ? mzed_cmp(A->g->M, B->g->M) : mzd_slice_cmp(A->g->S, B->g->S); REQ((g == 0) == eq, "comparison of %s matrices returned %d", eq ? "equal" : "different", g); break; }
    case 16: { mzp_t *P = mzp_init(r); RM *w = rm_dup(A->v); for (int i = 0; i < r; i++) { int p = P->values[i] = i + rnd(r - i); if (p != i) for (int j = 0; j < c; j++) { el t = AT(w, i, j); AT(w, i, j) = AT(w, p, j); AT(w, p, j) = t; } } op("step %d: apply_p_left", s); if (k == PACKED) mzed_apply_p_left(A->g->M, P); else mzd_slice_apply_p_left(A->g->S, P); mzp_free(P); upd(A, w); break; }
    case 17: { op("step %d: randomize", s); if (k == PACKED) mzed_randomize(A->g->M); else mzd_slice_randomize(A->g->S); refresh(A); break; }
    case 18: { if (k != PACKED) break; int x = rnd(r), y = rnd(r), sc = rnd(c); el a = rf_rand(F); RM *w = rm_dup(A->v); if (x == y) break; rm_axpy(F, rm_at(w, x, sc), rm_at(A->v, y, sc), c - sc, a); op("step %d: add multiple of row", s); mzed_add_multiple_of_row(A->g->M, x, A->g->M, y, a, sc); upd(A, w); break; }
    default: { /* temporaries come and go: replace a pool member by a fresh one */
      op("step %d: replace", s); RM *v = rm_gen(F, r, c, -1); gm_check_const(A->g); gm_check_val(A->g, A->v); gm_free(A->g); A->g = gm_new("pool", ff[fi], F, k, gm_mode_mask(), v); A->v = v; break; }
    }
    ev("steps", 1);
    if (s % 10 == 9 || s == steps - 1) { op("after step %d: operands that were not a destination", s); for (int i = 0; i < npool; i++) gm_check_const(pool[i].g); ev("pool checks", npool); }
  }
  op("final contents"); for (int i = 0; i < npool; i++) { gm_check_val(pool[i].g, pool[i].v); gm_free(pool[i].g); }
  for (int i = 0; i < NF; i++) ff_done(ff[i]);
  vt_recycle_off();
}

/* ---------------- P26 ---------------- */
static void zero_m(const mzd_t *m, const char *what) {
  for (int i = 0; i < m->nrows; i++) for (int j = 0; j < m->rowstride; j++) REQ(m->rows[i][j] == 0, "%s: row %d word %d of a new matrix is %016llx", what, i, j, (unsigned long long)m->rows[i][j]);
}
void p26(u64 idx) {
  vt_recycle = !vt_valgrind && chance(50);
  rf_t f; int e = (int)(2 + idx % 15), what = (int)(idx / 15 % 5); u32 mp = poly_pick(e); op("field"); const gf2e *ff = ff_make(&f, e, mp);
  int r = chance(85) ? 1 + (int)rnd(40) : 1 + (int)rnd(300), c = pick_dim(&f, vt_valgrind ? 60 : 300), kind = rnd(2); extreme(&r, &c);
  static const char *nm[] = {"new matrices", "nested windows", "independent copies", "auxiliary objects", "several fields"};
  sig(what); sig(kind); sig(mp); sig(r); sig(c); nontrivial();
  desc("%s %s %dx%d degree %d poly 0x%x", nm[what], KN(kind), r, c, e, mp);
  /* leave junk in freed memory */
  { void *j[8]; for (int i = 0; i < 8; i++) { size_t n = 8 * (size_t)(1 + rnd(4000)); j[i] = malloc(n); memset(j[i], 0xC3, n); } for (int i = 0; i < 8; i++) free(j[i]); mzed_t *t = mzed_init(ff, r, c); for (int i = 0; i < r; i++) memset(t->x->rows[i], 0xC3, 8 * (size_t)t->x->width); mzed_free(t); }
  if (what == 0) {
    op("init");
    if (kind == PACKED) { mzed_t *A = mzed_init(ff, r, c); REQ(A->nrows == r && A->ncols == c && A->w == f.w && A->finite_field == ff, "header is %dx%d w=%d", A->nrows, A->ncols, (int)A->w); REQ(A->x->nrows == r && A->x->ncols == c * f.w, "storage is %dx%d", A->x->nrows, A->x->ncols); zero_m(A->x, "mzed_init"); REQ(mzed_is_zero(A), "a new matrix is not zero"); mzed_free(A); }
    else { mzd_slice_t *A = mzd_slice_init(ff, r, c); REQ(A->nrows == r && A->ncols == c && A->depth == e && A->finite_field == ff, "header is %dx%d depth %d", A->nrows, A->ncols, (int)A->depth); for (int b = 0; b < e; b++) { REQ(A->x[b]->nrows == r && A->x[b]->ncols == c, "slice %d is %dx%d", b, A->x[b]->nrows, A->x[b]->ncols); zero_m(A->x[b], "mzd_slice_init"); } REQ(mzd_slice_is_zero(A), "a new matrix is not zero"); mzd_slice_free(A); }
    REQ((int)ff->degree == e && ff->minpoly == mp, "field has degree %d and polynomial 0x%x", (int)ff->degree, (unsigned)ff->minpoly);
    REQ((int)gf2e_degree_to_w(ff) == f.w, "element width is %d", (int)gf2e_degree_to_w(ff));
    ev("new matrices inspected", 1);
  } else if (what == 1) {
    /* window of a window of a window: all are live views of the same elements */
    int al = kind == PACKED ? 64 / f.w : 64; GM *P = gm_new("P", ff, &f, kind, OWNED, rm_rand(&f, r, c)); RM *v = gm_read(P);
    enum { D = 3 }; int r0[D + 1] = {0}, c0[D + 1] = {0}, nr[D + 1] = {r}, nc[D + 1] = {c}; mzed_t *M[D + 1] = {P->M}; mzd_slice_t *S[D + 1] = {P->S};
    for (int l = 1; l <= D; l++) {
      int a = rnd(nr[l - 1]), b = al * (int)rnd((nc[l - 1] - 1) / al + 1); nr[l] = 1 + rnd(nr[l - 1] - a); nc[l] = 1 + rnd(nc[l - 1] - b); r0[l] = r0[l - 1] + a; c0[l] = c0[l - 1] + b;
      op("window level %d", l);
      if (kind == PACKED) { M[l] = mzed_init_window(M[l - 1], a, b, a + nr[l], b + nc[l]); REQ(M[l]->nrows == nr[l] && M[l]->ncols == nc[l] && M[l]->finite_field == ff && M[l]->w == f.w, "window is %dx%d", M[l]->nrows, M[l]->ncols); }
      else { S[l] = mzd_slice_init_window(S[l - 1], a, b, a + nr[l], b + nc[l]); REQ(S[l]->nrows == nr[l] && S[l]->ncols == nc[l] && S[l]->finite_field == ff && S[l]->depth == e, "window is %dx%d", S[l]->nrows, S[l]->ncols); }
    }
    for (int s = 0; s < 60; s++) {
      int l = rnd(D + 1), y = rnd(nr[l]), x = rnd(nc[l]); el val = rf_rand(&f);
      op("write at level %d", l);
      if (kind == PACKED) mzed_write_elem(M[l], y, x, val); else mzd_slice_write_elem(S[l], y, x, val);
      AT(v, r0[l] + y, c0[l] + x) = val;
      for (int q = 0; q <= D; q++) { int Y = r0[l] + y - r0[q], X = c0[l] + x - c0[q]; if (Y < 0 || X < 0 || Y >= nr[q] || X >= nc[q]) continue; el g = kind == PACKED ? mzed_read_elem(M[q], Y, X) : mzd_slice_read_elem(S[q], Y, X); REQ(g == val, "written %x through level %d, level %d shows %x", val, l, q, g); }
    }
    gm_out(P, v); gm_snap(P);
    /* a whole-matrix operation through the innermost view */
    op("set the innermost view to zero"); if (kind == PACKED) mzed_set_ui(M[D], 0); else mzd_slice_set_ui(S[D], 0);
    for (int y = 0; y < nr[D]; y++) for (int x = 0; x < nc[D]; x++) AT(v, r0[D] + y, c0[D] + x) = 0;
    gm_out(P, v);
    op("release the views in some order"); int first = rnd(2);
    for (int q = 1; q <= D; q++) { int l = first ? q : D + 1 - q; if (kind == PACKED) mzed_free_window(M[l]); else mzd_slice_free_window(S[l]); }
    gm_check_val(P, v); gm_free(P); ev("nested views exercised", D);
  } else if (what == 2) {
    GM *A = gm_new("A", ff, &f, kind, gm_mode_mask(), rm_rand(&f, r, c)); RM *v = gm_read(A), *w = rm_rand(&f, r, c); GM *B = NULL; int how = rnd(3); sig(how);
    vt_edge_aligned = 1; if (how == 2 && A->mode == WINDOW) how = 0;
    op("copy variant %d", how);
    if (kind == PACKED) B = gm_wrap_m("copy", ff, &f, how == 0 ? mzed_copy(NULL, A->M) : how == 1 ? mzed_add(NULL, A->M, A->M) : mzed_submatrix(NULL, A->M, 0, 0, r, c));
    else B = gm_wrap_s("copy", ff, &f, how == 0 ? mzd_slice_copy(NULL, A->S) : how == 1 ? mzd_slice_add(NULL, A->S, A->S) : mzd_slice_submatrix(NULL, A->S, 0, 0, r, c));
    gm_check_val(B, how == 1 ? rm_new(r, c) : v); gm_check_const(A);
    gm_set(B, w); gm_check_const(A); gm_set(A, v); RM *z = rm_rand(&f, r, c); gm_set(A, z); gm_check_const(B); gm_check_val(B, w);
    gm_free(A); op("use the copy after the original is gone"); gm_check_val(B, w); gm_free(B); ev("copies compared", 1);
  } else if (what == 3) {
    int q = 1 << e; op("njt_mzed_init"); njt_mzed_t *T = njt_mzed_init(ff, c);
    REQ(T->T->nrows == q && T->T->ncols == c && T->M->nrows == e && T->M->ncols == c, "table is %dx%d, multiples %dx%d", T->T->nrows, T->T->ncols, T->M->nrows, T->M->ncols);
    zero_m(T->T->x, "njt_mzed_init"); zero_m(T->M->x, "njt_mzed_init"); for (int i = 0; i < q; i++) REQ(T->L[i] == 0, "index %d of a new table is %d", i, (int)T->L[i]); njt_mzed_free(T);
    int dg = (int)rnd(17); op("mzd_poly_init"); mzd_poly_t *P = mzd_poly_init(dg, r, c); REQ(P->depth == dg + 1 && P->nrows == r && P->ncols == c, "polynomial has %d coefficients %dx%d", (int)P->depth, (int)P->nrows, (int)P->ncols);
    for (int i = 0; i < P->depth; i++) { REQ(P->x[i]->nrows == r && P->x[i]->ncols == c, "coefficient %d is %dx%d", i, P->x[i]->nrows, P->x[i]->ncols); zero_m(P->x[i], "mzd_poly_init"); } mzd_poly_free(P);
    /* more and fewer slices of a bit-sliced matrix */
    { GM *A = gm_new("A", ff, &f, SLICED, OWNED, rm_rand(&f, r, c)); RM *v = gm_read(A); int up = e + (int)rnd(17 - e); op("_mzd_slice_adapt_depth to %d", up); mzd_slice_t *B = _mzd_slice_adapt_depth(A->S, up); REQ(B == A->S && (int)B->depth == up, "depth is %d", (int)B->depth);
      for (int i = e; i < up; i++) { REQ(B->x[i]->nrows == r && B->x[i]->ncols == c, "added slice %d is %dx%d", i, B->x[i]->nrows, B->x[i]->ncols); zero_m(B->x[i], "_mzd_slice_adapt_depth"); }
      gm_check_val(A, v); op("_mzd_slice_adapt_depth back to %d", e); _mzd_slice_adapt_depth(A->S, e); REQ((int)A->S->depth == e, "depth is %d", (int)A->S->depth); gm_check_const(A); gm_free(A); }
    ev("auxiliary objects inspected", 3);
  } else {
    /* fields are independent of each other and determined by their polynomial */
    enum { K = 4 }; rf_t g[K]; const gf2e *gg[K]; for (int i = 0; i < K; i++) { int d = chance(50) ? e : rng_range(2, vt_asan ? 10 : 12); op("field"); gg[i] = ff_make(&g[i], d, i == 0 ? mp : poly_pick(d)); if (i == 0) g[0].e = e, g[0].w = f.w; if (i == 0 && d != e) { ff_done(gg[0]); gg[0] = ff_make(&g[0], e, mp); } }
    int alive[K] = {1, 1, 1, 1};
    for (int rd = 0; rd < K; rd++) {
      for (int i = 0; i < K; i++) if (alive[i]) for (int t = 0; t < 200; t++) { el a = rf_rand(&g[i]), b = rf_rand(&g[i]); op("product in field 0x%x", g[i].mp); word p = gg[i]->mul(gg[i], a, b); REQ(p == rf_mul(&g[i], a, b), "%x * %x = %llx in the field 0x%x", a, b, (unsigned long long)p, g[i].mp); }
      for (int t = 0; t < 100; t++) { el a = rf_rand_nz(&f); op("inverse in field 0x%x", f.mp); word p = gf2e_inv(ff, a); REQ(rf_mul(&f, a, (u32)p) == 1, "inverse of %x is %llx", a, (unsigned long long)p); }
      int kll = rnd(K); if (alive[kll]) { alive[kll] = 0; ff_done(gg[kll]); }
    }
    for (int i = 0; i < K; i++) if (alive[i]) ff_done(gg[i]);
    ev("fields used side by side", K + 1);
  }
  ff_done(ff); vt_recycle_off();
}
