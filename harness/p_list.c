/* P30 operations on lists of matrices over GF(2): sums, reduction, Karatsuba, compiled linear maps */
#include "vt.h"

/* a matrix over GF(2), owned or a window of a bigger one, with its expected contents */
typedef struct { mzd_t *P, *m; int r, c, lr, lc, pr, pc; u64 *w, *snap; } LM;
static int wds(int c) { return (c + 63) / 64; }
static LM *lm_new(int r, int c) {
  LM *l = arena(sizeof *l); l->r = r; l->c = c; l->pr = r; l->pc = c;
  int win = chance(40);
  if (win) { l->lr = rnd(3); l->lc = 64 * (int)rnd(2); l->pr += l->lr + rnd(3); l->pc += l->lc; if (c % 64 == 0) l->pc += 64 * (int)rnd(2); ev("window coefficients", 1); }
  l->P = mzd_init(l->pr, l->pc);
  for (int i = 0; i < l->pr; i++) for (int j = 0; j < l->P->width; j++) l->P->rows[i][j] = rng() & (j == l->P->width - 1 ? l->P->high_bitmask : ~0ull);
  l->m = win ? mzd_init_window(l->P, l->lr, l->lc, l->lr + r, l->lc + c) : l->P;
  l->w = arena(8 * (size_t)r * wds(c)); l->snap = arena(8 * (size_t)l->pr * l->P->width);
  return l;
}
static void lm_read(const LM *l, u64 *o) { u64 hm = l->c % 64 ? (1ull << l->c % 64) - 1 : ~0ull; for (int i = 0; i < l->r; i++) for (int j = 0; j < wds(l->c); j++) o[i * wds(l->c) + j] = l->P->rows[l->lr + i][l->lc / 64 + j] & (j == wds(l->c) - 1 ? hm : ~0ull); }
static void lm_fill(LM *l, int kind) {
  u64 hm = l->c % 64 ? (1ull << l->c % 64) - 1 : ~0ull;
  for (int i = 0; i < l->r; i++) for (int j = 0; j < wds(l->c); j++) { u64 m = j == wds(l->c) - 1 ? hm : ~0ull, v = (kind == 0 ? 0 : kind == 1 ? rng() & rng() & rng() & rng() : rng()) & m, *p = &l->P->rows[l->lr + i][l->lc / 64 + j]; *p = (*p & ~m) | v; }
  lm_read(l, l->w);
  for (int i = 0; i < l->pr; i++) memcpy(l->snap + (size_t)i * l->P->width, l->P->rows[i], 8 * (size_t)l->P->width);
}
static LM *lm_rand(int r, int c) { LM *l = lm_new(r, c); int k = rnd(8); lm_fill(l, k > 2 ? 2 : k); return l; }
static void lm_check(const LM *l, const char *nm, int k) {
  u64 hm = l->c % 64 ? (1ull << l->c % 64) - 1 : ~0ull; int w = wds(l->c);
  for (int i = 0; i < l->pr; i++) for (int j = 0; j < l->P->width; j++) {
    int a = i - l->lr, b = j - l->lc / 64; u64 in = a >= 0 && a < l->r && b >= 0 && b < w ? (b == w - 1 ? hm : ~0ull) : 0, g = l->P->rows[i][j];
    REQ(((g ^ l->snap[(size_t)i * l->P->width + j]) & ~in) == 0, "%s %d: storage outside the matrix changed, row %d word %d", nm, k, i, j);
    if (in) REQ((g & in) == l->w[a * w + b], "%s %d, row %d word %d: %016llx, expected %016llx", nm, k, a, b, (unsigned long long)(g & in), (unsigned long long)l->w[a * w + b]);
  }
  ev("list matrices compared", 1);
}
static void lm_xor(LM *l, const LM *x) { for (size_t i = 0; i < (size_t)l->r * wds(l->c); i++) l->w[i] ^= x->w[i]; }
static void lm_zero(LM *l) { memset(l->w, 0, 8 * (size_t)l->r * wds(l->c)); }
static void lm_addmul(LM *c, const u64 *a, const LM *A, const LM *B) { int wa = wds(A->c), wb = wds(B->c); for (int i = 0; i < A->r; i++) for (int k = 0; k < A->c; k++) if (a[i * wa + k / 64] >> (k % 64) & 1) for (int j = 0; j < wb; j++) c->w[i * wb + j] ^= B->w[k * wb + j]; }
static void lm_free(LM *l) { if (l->m != l->P) mzd_free_window(l->m); mzd_free(l->P); }
static void list(LM **L, mzd_t **p, int n, int r, int c) { for (int i = 0; i < n; i++) { L[i] = lm_rand(r, c); p[i] = L[i]->m; } }

typedef void (*kfn)(const gf2e *, mzd_t **, const mzd_t **, const mzd_t **);
static const kfn KA[17] = {0, 0, _mzd_ptr_addmul_karatsuba2, _mzd_ptr_addmul_karatsuba3, _mzd_ptr_addmul_karatsuba4, _mzd_ptr_addmul_karatsuba5, _mzd_ptr_addmul_karatsuba6, _mzd_ptr_addmul_karatsuba7, _mzd_ptr_addmul_karatsuba8, _mzd_ptr_addmul_karatsuba9, _mzd_ptr_addmul_karatsuba10, _mzd_ptr_addmul_karatsuba11, _mzd_ptr_addmul_karatsuba12, _mzd_ptr_addmul_karatsuba13, _mzd_ptr_addmul_karatsuba14, _mzd_ptr_addmul_karatsuba15, _mzd_ptr_addmul_karatsuba16};

void p30(u64 idx) {
  int what = (int)(idx % 6), e = 2 + (int)(idx / 6 % 15), mx = vt_valgrind ? 16 : 70; rf_t f; const gf2e *ff = NULL;
  int withff = chance(70); if (withff) { op("field"); ff = ff_make(&f, e, poly_pick(e)); }
  int r = 1 + rnd(12), c = chance(70) ? 1 + (int)rnd(mx) : 1 + (int)rnd(3 * mx);
  static const char *nm[] = {"Karatsuba product of lists", "reduced addition", "addition to several coefficients", "sum of two lists", "sum of many matrices", "compiled linear map"};
  LM *A[64], *B[64], *X[64]; mzd_t *a[64], *b[64], *x[64]; int na = 0, nb = 0, nx = 0;
  sig(what); sig(withff ? f.mp : 0); sig(r); sig(c); nontrivial();
  if (what == 0) {
    int K = chance(withff ? 50 : 100) ? 2 + (int)rnd(withff ? e - 1 : 15) : e, k = 1 + rnd(vt_valgrind ? 8 : 40); na = nb = K; nx = withff ? e : 2 * K - 1; sig(K); sig(k);
    int sq = chance(15) && k == r && r == c; if (chance(10)) { r = c = k; sq = 1; }
    desc("%s of length %d, %dx%d * %dx%d, %s, both factors %s", nm[what], K, r, k, k, c, withff ? "reduced modulo a field polynomial" : "unreduced", sq ? "the same list" : "distinct");
    list(A, a, K, r, k); if (sq) { nb = 0; for (int i = 0; i < K; i++) B[i] = A[i], b[i] = a[i]; } else list(B, b, K, k, c);
    list(X, x, nx, r, c);
    op("karatsuba%d", K); KA[K](ff, x, (const mzd_t **)a, (const mzd_t **)b);
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
      if (!withff) { lm_addmul(X[i + j], A[i]->w, A[i], B[j]); continue; }
      el t = rf_pow(&f, 2, i + j); for (int q = 0; q < e; q++) if (t >> q & 1) lm_addmul(X[q], A[i]->w, A[i], B[j]);
    }
  } else if (what == 1 || what == 2) {
    int n = what == 1 ? 1 : 1 + (int)rnd(8), top = withff ? 2 * e - 1 : 31, t[8]; nx = withff ? e : 31; na = 1;
    for (int i = 0; i < n; i++) t[i] = chance(30) ? top - 1 - (int)rnd(2) : (int)rnd(top);
    desc("%s of x^%d (%d terms), %dx%d, %s", nm[what], t[0], n, r, c, withff ? "reduced" : "unreduced"); sig(t[0]); sig(n);
    list(A, a, 1, r, c); list(X, x, nx, r, c);
    op("%s", nm[what]);
    if (what == 1) _mzd_ptr_add_modred(ff, a[0], x, t[0]);
    else { mzd_t *y = NULL; switch (n) { case 1: y = _mzd_ptr_add_to_all(ff, a[0], x, 1, t[0]); break; case 2: y = _mzd_ptr_add_to_all(ff, a[0], x, 2, t[0], t[1]); break; case 3: y = _mzd_ptr_add_to_all(ff, a[0], x, 3, t[0], t[1], t[2]); break; case 4: y = _mzd_ptr_add_to_all(ff, a[0], x, 4, t[0], t[1], t[2], t[3]); break; case 5: y = _mzd_ptr_add_to_all(ff, a[0], x, 5, t[0], t[1], t[2], t[3], t[4]); break; case 6: y = _mzd_ptr_add_to_all(ff, a[0], x, 6, t[0], t[1], t[2], t[3], t[4], t[5]); break; case 7: y = _mzd_ptr_add_to_all(ff, a[0], x, 7, t[0], t[1], t[2], t[3], t[4], t[5], t[6]); break; default: y = _mzd_ptr_add_to_all(ff, a[0], x, 8, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]); } REQ(y == a[0], "the added matrix is not returned"); }
    for (int i = 0; i < n; i++) { if (!withff) { lm_xor(X[t[i]], A[0]); continue; } el p = rf_pow(&f, 2, t[i]); for (int q = 0; q < e; q++) if (p >> q & 1) lm_xor(X[q], A[0]); }
  } else if (what == 3) {
    int n = chance(80) ? (int)rnd(33) : (int)rnd(45), al = rnd(4); na = n; nb = al == 3 ? 0 : n; nx = al == 0 || al == 3 ? n : 0; sig(n); sig(al);
    desc("%s of length %d, %dx%d, %s", nm[what], n, r, c, al == 1 ? "into the first" : al == 2 ? "into the second" : al == 3 ? "with itself" : "distinct");
    list(A, a, na, r, c); if (al == 3) for (int i = 0; i < n; i++) B[i] = A[i], b[i] = a[i]; else list(B, b, nb, r, c); list(X, x, nx, r, c);
    mzd_t **d = al == 1 ? a : al == 2 ? b : x; LM **D = al == 1 ? A : al == 2 ? B : X;
    op("_mzd_ptr_add"); _mzd_ptr_add(d, (const mzd_t **)a, (const mzd_t **)b, n);
    for (int i = 0; i < n; i++) { if (al == 1) lm_xor(A[i], B[i]); else if (al == 2) lm_xor(B[i], A[i]); else { lm_zero(D[i]); lm_xor(D[i], A[i]); lm_xor(D[i], B[i]); } }
  } else if (what == 4) {
    int n = 2 + (int)rnd(11); na = n; nx = 1; sig(n); desc("%s, %d of %dx%d", nm[what], n, r, c);
    list(A, a, 12, r, c); na = 12; list(X, x, 1, r, c); op("mzd_sum of %d", n);
    mzd_t *y = mzd_sum(x[0], n, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); REQ(y == x[0], "the sum is not returned");
    lm_zero(X[0]); for (int i = 0; i < n; i++) lm_xor(X[0], A[i]);
  } else {
    int R = 1 + rnd(40), C = 1 + rnd(40), d = rnd(4); r = 1 + rnd(4); na = C; nx = R; sig(R); sig(C); sig(d);
    desc("%s %dx%d on matrices %dx%d", nm[what], R, C, r, c);
    u64 row[40]; mzd_t *M = mzd_init(R, C);
    for (int i = 0; i < R; i++) { row[i] = (d == 0 ? rng() & rng() & rng() : d == 1 ? 1ull << rnd(C) : rng()) & ((1ull << C) - 1); if (i && chance(15)) row[i] = row[rnd(i)]; if (chance(4)) row[i] = 0; M->rows[i][0] = row[i]; }
    list(A, a, C, r, c); list(X, x, R, r, c); for (int i = 0; i < R; i++) if (!row[i]) lm_fill(X[i], 0); /* rows without terms are not written */
    op("djb_compile"); djb_t *z = djb_compile(M); mzd_free(M); REQ(z->nrows == R && z->ncols == C, "compiled map is %dx%d", z->nrows, z->ncols);
    op("djb_apply_mzd_ptr"); djb_apply_mzd_ptr(z, x, (const mzd_t **)a); djb_free(z);
    for (int i = 0; i < R; i++) { lm_zero(X[i]); for (int j = 0; j < C; j++) if (row[i] >> j & 1) lm_xor(X[i], A[j]); }
    ev("compiled maps applied", 1);
  }
  op("verify"); for (int i = 0; i < nx; i++) lm_check(X[i], "result", i); for (int i = 0; i < na; i++) lm_check(A[i], "first operand", i); for (int i = 0; i < nb; i++) lm_check(B[i], "second operand", i);
  ev("list operations", 1);
  for (int i = 0; i < nx; i++) lm_free(X[i]); for (int i = 0; i < na; i++) lm_free(A[i]); for (int i = 0; i < nb; i++) lm_free(B[i]);
  if (ff) ff_done(ff);
}
