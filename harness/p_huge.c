/* P31 matrices whose size in bits or entries exceeds the range of an int. The operands have few nonzero columns, so the
   complete result is determined by the matrix of these columns; every other word of the result is compared with zero. */
#include "vt.h"
#include "p_mul.h"
#include "p_elim.h"

static int *HC, HN, HT;      /* interesting columns (ascending), their number, number of columns */
static int hcmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
static void cols_pick(int c, int w, int r) {
  int *p = arena(64 * sizeof(int)), n = 0; HT = c;
  for (int i = 0; i < 6; i++) p[n++] = rnd(5);
  for (int i = 0; i < 8; i++) p[n++] = c - 1 - (int)rnd(i < 3 ? 3 : 130);
  for (int i = 0; i < 6; i++) p[n++] = (int)rnd((u32)c);
  for (int i = 0; i < 6; i++) { long long x = (1ll << rng_range(20, 30)) / w + (int)rnd(5) - 2; if (x >= 0 && x < c) p[n++] = (int)x; }
  for (int i = 0; i < 6; i++) { long long x = ((1ll << 31) / w - (long long)rnd(r) * c) + (int)rnd(5) - 2; if (x >= 0 && x < c) p[n++] = (int)x; } /* where the running number of bits wraps */
  for (int i = 0; i < 4; i++) { int x = 64 * (int)rnd((u32)(c / 64)); p[n++] = x; if (x) p[n++] = x - 1; }
  qsort(p, n, sizeof *p, hcmp); int m = 0; for (int i = 0; i < n; i++) if (!m || p[m - 1] != p[i]) p[m++] = p[i];
  HC = p; HN = m;
}
static void zero_but(const word *row, int width, const int *wi, const u64 *wv, int n, int i, const char *nm, const char *what) {
  int k = 0;
  for (int j = 0; j < width; j++) {
    u64 x = 0; if (k < n && wi[k] == j) x = wv[k++];
    if (row[j] != x) viol("%s: %s row %d, word %d (of %d) is %016llx, expected %016llx", nm, what, i, j, width, (unsigned long long)row[j], (unsigned long long)x);
  }
}
static void check_row(const word *row, int width, int bits, int sh, const RM *v, int i, const char *nm, const char *what) {
  int wi[64], n = 0; u64 wv[64];
  for (int k = 0; k < HN; k++) {
    u64 b = (u64)HC[k] * bits; int q = (int)(b / 64); u64 e = bits == 1 ? (u64)(AT(v, i, k) >> sh & 1) : AT(v, i, k);
    if (!n || wi[n - 1] != q) wi[n] = q, wv[n++] = 0;
    wv[n - 1] |= e << (b % 64);
  }
  zero_but(row, width, wi, wv, n, i, nm, what);
}
static void hm_check(const mzed_t *M, const RM *v, const char *nm) {
  REQ(M->nrows == v->r && M->ncols == HT, "%s: %d x %d, expected %d x %d", nm, M->nrows, M->ncols, v->r, HT);
  for (int i = 0; i < v->r; i++) check_row(M->x->rows[i], M->x->width, (int)M->w, 0, v, i, nm, "packed");
  ev("very large matrices compared", 1);
}
static void hs_check(const mzd_slice_t *S, const RM *v, const char *nm) {
  REQ(S->nrows == v->r && S->ncols == HT, "%s: %d x %d, expected %d x %d", nm, S->nrows, S->ncols, v->r, HT);
  for (int d = 0; d < S->depth; d++) for (int i = 0; i < v->r; i++) check_row(S->x[d]->rows[i], S->x[d]->width, 1, d, v, i, nm, "slice");
  ev("very large matrices compared", 1);
}
static mzed_t *hm_new(const gf2e *ff, const RM *v) { mzed_t *M = mzed_init(ff, v->r, HT); for (int i = 0; i < v->r; i++) for (int k = 0; k < HN; k++) mz_put(M, i, HC[k], AT(v, i, k)); return M; }
static mzd_slice_t *hs_new(const gf2e *ff, const RM *v) { mzd_slice_t *S = mzd_slice_init(ff, v->r, HT); for (int i = 0; i < v->r; i++) for (int k = 0; k < HN; k++) sl_put(S, ff->degree, i, HC[k], AT(v, i, k)); return S; }
static mzed_t *sm_new(const gf2e *ff, const RM *v) { mzed_t *M = mzed_init(ff, v->r, v->c); for (int i = 0; i < v->r; i++) for (int k = 0; k < v->c; k++) mz_put(M, i, k, AT(v, i, k)); return M; }
static mzd_slice_t *ss_new(const gf2e *ff, const RM *v) { mzd_slice_t *S = mzd_slice_init(ff, v->r, v->c); for (int i = 0; i < v->r; i++) for (int k = 0; k < v->c; k++) sl_put(S, ff->degree, i, k, AT(v, i, k)); return S; }

/* ---- many rows: a few rows hold something, all others are zero; also matrices whose storage is split into several blocks ---- */
static int *RR, RN, RT;      /* interesting rows (ascending), their number, number of rows */
static void rows_add(int *p, int *n, long long x, int r) { if (x >= 0 && x < r) p[(*n)++] = (int)x; }
static void rows_pick(int r, int c, int w, int rows_per_block) {
  int *p = arena(80 * sizeof(int)), n = 0; RT = r;
  for (int i = 0; i < 6; i++) rows_add(p, &n, rnd(5), r);
  for (int i = 0; i < 6; i++) rows_add(p, &n, (long long)r - 1 - rnd(i < 3 ? 3 : 130), r);
  for (int i = 0; i < 8; i++) rows_add(p, &n, rnd((u32)r), r);
  for (int i = 0; i < 6; i++) rows_add(p, &n, (1ll << rng_range(10, 28)) + (int)rnd(3) - 1, r);
  for (int i = 0; i < 6; i++) rows_add(p, &n, (1ll << rng_range(29, 32)) / ((long long)c * (chance(50) ? w : 1)) + (int)rnd(4) - 1, r);
  if (rows_per_block) for (int i = 0; i < 8; i++) rows_add(p, &n, (long long)rows_per_block * rng_range(1, 3) + (int)rnd(3) - 1, r);
  qsort(p, n, sizeof *p, hcmp); int m = 0; for (int i = 0; i < n; i++) if (!m || p[m - 1] != p[i]) p[m++] = p[i];
  RR = p; RN = m;
}
static void zero_row(const word *row, int width, int i, const char *nm) { for (int j = 0; j < width; j++) if (row[j]) viol("%s: row %d, word %d (of %d) is %016llx, expected 0", nm, i, j, width, (unsigned long long)row[j]); }
static void full_row(const word *row, int width, int bits, int sh, const RM *v, int k, int i, const char *nm) {
  int q = 0; u64 x = 0;
  for (int j = 0; j < v->c; j++) { u64 b = (u64)j * bits; if ((int)(b / 64) != q) { REQ(row[q] == x, "%s: row %d, word %d (of %d) is %016llx, expected %016llx", nm, i, q, width, (unsigned long long)row[q], (unsigned long long)x); q = (int)(b / 64); x = 0; }
    x |= (bits == 1 ? (u64)(AT(v, k, j) >> sh & 1) : (u64)AT(v, k, j)) << (b % 64); }
  REQ(q == width - 1 && row[q] == x, "%s: row %d, word %d (of %d) is %016llx, expected %016llx", nm, i, q, width, (unsigned long long)row[q], (unsigned long long)x);
}
static void tall_check(const mzed_t *M, const mzd_slice_t *S, const RM *v, const char *nm) {
  int nr = M ? M->nrows : S->nrows, nc = M ? M->ncols : S->ncols;
  REQ(nr == RT && nc == v->c, "%s: %d x %d, expected %d x %d", nm, nr, nc, RT, v->c);
  for (int d = 0; d < (M ? 1 : (int)S->depth); d++) { const mzd_t *x = M ? M->x : S->x[d]; int k = 0;
    for (int i = 0; i < nr; i++) if (k < RN && RR[k] == i) { full_row(x->rows[i], x->width, M ? (int)M->w : 1, d, v, k, i, nm); k++; } else zero_row(x->rows[i], x->width, i, nm); }
  ev("very large matrices compared", 1);
}
static mzed_t *tm_new(const gf2e *ff, const RM *v) { mzed_t *M = mzed_init(ff, RT, v->c); for (int k = 0; k < RN; k++) for (int j = 0; j < v->c; j++) mz_put(M, RR[k], j, AT(v, k, j)); return M; }
static mzd_slice_t *ts_new(const gf2e *ff, const RM *v) { mzd_slice_t *S = mzd_slice_init(ff, RT, v->c); for (int k = 0; k < RN; k++) for (int j = 0; j < v->c; j++) sl_put(S, ff->degree, RR[k], j, AT(v, k, j)); return S; }

static void tall_case(int blocks) {
  static const char *nm[] = {"element access", "sums and copies", "scalar multiples", "conversion", "products", "echelon forms", "blocks and windows", "row and column operations", "permutations"};
  int what = rnd(blocks ? 4 : 9), kind = chance(50) ? PACKED : SLICED, e = rng_range(2, 16);
  if (blocks) { kind = PACKED; if (what >= 2) what = what == 2 ? 7 : 6; }
  if (kind == SLICED || what == 3) e = 2;
  if (what == 4 || what == 5) e = rng_range(2, kind == SLICED ? 2 : 4);
  rf_t f; op("field"); const gf2e *ff = ff_make(&f, e, poly_pick(e));
  int w = f.w, c, r, rpb = 0;
  if (blocks) { /* the base library stores 2^27 words per block */
    int width = 60 + (int)rnd(200); width += width & 1; c = (width * 64 - (int)rnd(64)) / w; if ((c * w + 63) / 64 != width) c = width * 64 / w;
    r = (int)((1ll << 27) / width) + 100 + (int)rnd(3000); rpb = 1; while (rpb * 2ll * width <= (1 << 27)) rpb *= 2;
  } else if (kind == PACKED && what != 3) { c = 64 / w * (1 + (int)rnd(2)) - (chance(60) ? (int)rnd(64 / w / 4 + 1) : 0); if (c * w < 48) c = 64 / w; r = (int)((1ll << 31) / ((long long)c * w)) + 1 + (int)rnd(200); }
  else { c = 40 + (int)rnd(89); r = (int)((1ll << 31) / ((long long)c * (chance(50) ? 2 : 1))) + 1 + (int)rnd(200); if (c <= 64 && r > 40000000) r = 40000000; }
  if (!blocks && chance(50)) r = (r >> rng_range(1, 8)) + (int)rnd(1000); /* below the limit */
  rows_pick(r, c, w, rpb);
  RM *v = what == 5 ? rm_gen(&f, RN, c, -1) : rm_rand(&f, RN, c), *u;
  desc("%s, %s, %d x %d over degree %d%s", nm[what], KN(kind), r, c, e, blocks ? ", several blocks of storage" : ", many rows");
  sig(20 + what); sig(kind); sig(f.mp); sig(r); sig((u64)c); nontrivial();
  mzed_t *M = NULL, *N = NULL, *O = NULL; mzd_slice_t *S = NULL, *T = NULL, *U = NULL;
  if (kind == PACKED) M = tm_new(ff, v); else S = ts_new(ff, v);
  switch (what) {
  case 0:
    op("element access");
    for (int t = 0; t < 600; t++) { int k = rnd(RN), j = rnd(c); el x = rf_rand(&f);
      if (chance(40)) { if (M) mzed_write_elem(M, RR[k], j, x); else mzd_slice_write_elem(S, RR[k], j, x); AT(v, k, j) = x; }
      else if (chance(50)) { if (M) mzed_add_elem(M, RR[k], j, x); else mzd_slice_add_elem(S, RR[k], j, x); AT(v, k, j) ^= x; }
      word g = M ? mzed_read_elem(M, RR[k], j) : mzd_slice_read_elem(S, RR[k], j);
      REQ(g == AT(v, k, j), "entry %d,%d reads %llx, expected %x", RR[k], j, (unsigned long long)g, AT(v, k, j)); }
    tall_check(M, S, v, "matrix");
    { int k = rnd(RN), j = rnd(c); for (int i = 0; i < RN; i++) for (int l = 0; l < c; l++) { AT(v, i, l) = i == k && l == j; if (M) mz_put(M, RR[i], l, AT(v, i, l)); else sl_put(S, e, RR[i], l, AT(v, i, l)); }
      op("is_zero"); REQ(!(M ? mzed_is_zero(M) : mzd_slice_is_zero(S)), "a matrix with entry %d,%d taken for zero", RR[k], j);
      if (M) { op("first_zero_row"); int z = mzed_first_zero_row(M); REQ(z == (RR[k] == 0 ? 1 : 0), "first zero row %d of a matrix with entry %d,%d", z, RR[k], j); } }
    break;
  case 1:
    u = rm_rand(&f, RN, c);
    if (M) { N = tm_new(ff, u); op("add in place"); mzed_add(N, N, M); u = rm_add(u, v); tall_check(N, NULL, u, "sum"); op("copy"); mzed_copy(N, M); tall_check(N, NULL, v, "copy"); op("cmp"); REQ(mzed_cmp(N, M) == 0, "copy differs");
      int k = rnd(RN), j = rnd(c); mz_put(N, RR[k], j, AT(v, k, j) ^ 1); REQ(mzed_cmp(N, M) != 0, "matrices differing in entry %d,%d compare equal", RR[k], j); }
    else { T = ts_new(ff, u); op("add in place"); mzd_slice_add(T, T, S); u = rm_add(u, v); tall_check(NULL, T, u, "sum"); op("copy"); mzd_slice_copy(T, S); tall_check(NULL, T, v, "copy"); op("cmp"); REQ(mzd_slice_cmp(T, S) == 0, "copy differs");
      int k = rnd(RN), j = rnd(c); sl_put(T, e, RR[k], j, AT(v, k, j) ^ 1); REQ(mzd_slice_cmp(T, S) != 0, "matrices differing in entry %d,%d compare equal", RR[k], j); }
    break;
  case 2: {
    el a = rf_rand(&f); RM *p = rm_new(RN, c); for (int i = 0; i < RN; i++) rm_scal(&f, &AT(p, i, 0), &AT(v, i, 0), c, a);
    op("mul_scalar"); if (M) { N = mzed_mul_scalar(NULL, a, M); tall_check(N, NULL, p, "product"); } else { T = mzd_slice_mul_scalar(NULL, a, S); tall_check(NULL, T, p, "product"); }
    break; }
  case 3:
    if (M) { op("slice"); T = mzed_slice(NULL, M); tall_check(NULL, T, v, "sliced"); } else { op("cling"); N = mzed_cling(NULL, S); tall_check(N, NULL, v, "clung"); }
    break;
  case 4: {
    int n = 1 + rnd(c < 70 ? c : 70), alg = rnd(3); RM *b = rm_rand(&f, c, n), *p = rm_mul(&f, v, b);
    op("product %d", alg);
    if (M) { N = sm_new(ff, b); O = alg == 0 ? mzed_mul(NULL, M, N) : alg == 1 ? mzed_mul_newton_john(NULL, M, N) : mzed_mul_strassen(NULL, M, N, 100); tall_check(O, NULL, p, "product"); }
    else { T = ss_new(ff, b); U = alg == 0 ? mzd_slice_mul(NULL, S, T) : alg == 1 ? mzd_slice_mul_karatsuba(NULL, S, T) : mzd_slice_mul_blm(NULL, S, T, NULL); tall_check(NULL, U, p, "product"); }
    ev("very large products", 1);
    break; }
  case 5: {
    RM *ref = rm_dup(v); int want = rm_rref(&f, ref, 1), alg = rnd(2), rk;
    op("echelonize %d", alg); if (M) rk = alg ? mzed_echelonize_newton_john(M, 1) : mzed_echelonize(M, 1); else rk = alg ? mzd_slice_echelonize_ple(S, 1) : mzd_slice_echelonize(S, 1);
    REQ(rk == want, "rank is %d, expected %d", rk, want);
    for (int i = 0; i < RN; i++) RR[i] = i; v = ref;
    ev("very large echelon forms", 1);
    break; }
  case 6: {
    int a = rnd(RN), b = rnd(RN), t; if (a > b) t = a, a = b, b = t;
    int lr = chance(30) ? 0 : RR[a], hr = chance(30) ? r : RR[b] + 1, *cr = RR, cn = RN, cr_t = RT; if (lr == 0) a = 0; if (hr == r) b = RN - 1;
    RM *w0 = rm_sub(v, a, 0, b + 1, c); int *nr = arena(sizeof(int) * 90); for (int k = a; k <= b; k++) nr[k - a] = cr[k] - lr;
    RR = nr; RN = b - a + 1; RT = hr - lr;
    if (M) { op("window"); N = mzed_init_window(M, lr, 0, hr, c); tall_check(N, NULL, w0, "window"); if (!blocks || RT < 100000) { op("copy of window"); O = mzed_copy(NULL, N); tall_check(O, NULL, w0, "copy of window"); } mzed_free_window(N); N = NULL; }
    else { op("window"); T = mzd_slice_init_window(S, lr, 0, hr, c); tall_check(NULL, T, w0, "window"); op("copy of window"); U = mzd_slice_copy(NULL, T); tall_check(NULL, U, w0, "copy of window"); mzd_slice_free_window(T); T = NULL; }
    RR = cr; RN = cn; RT = cr_t;
    if (!blocks && chance(50)) { u = rm_rand(&f, 3, c); RM *st = rm_new(RN + 3, c); memcpy(st->d, v->d, sizeof(el) * (size_t)RN * c); memcpy(&AT(st, RN, 0), u->d, sizeof(el) * 3 * (size_t)c);
      if (M) { if (O) mzed_free(O); N = sm_new(ff, u); op("stack"); O = mzed_stack(NULL, M, N); } else { if (U) mzd_slice_free(U); T = ss_new(ff, u); op("stack"); U = mzd_slice_stack(NULL, S, T); }
      nr = arena(sizeof(int) * 90); memcpy(nr, cr, sizeof(int) * cn); for (int k = 0; k < 3; k++) nr[cn + k] = r + k; RR = nr; RN = cn + 3; RT = r + 3; tall_check(O, U, st, "stack"); RR = cr; RN = cn; RT = cr_t; }
    break; }
  case 7:
    for (int t = 0; t < 8; t++) { int i = rnd(RN), j = rnd(RN), k = rnd(c), q = rnd(c), z = rnd(blocks ? 5 : 6); el x = rf_rand_nz(&f);
      if (z == 0) { op("row_swap"); if (M) mzed_row_swap(M, RR[i], RR[j]); else mzd_slice_row_swap(S, RR[i], RR[j]); for (int l = 0; l < c; l++) { el y = AT(v, i, l); AT(v, i, l) = AT(v, j, l); AT(v, j, l) = y; } }
      else if (z == 1 && M) { op("rescale_row"); mzed_rescale_row(M, RR[i], k, x); rm_scal(&f, &AT(v, i, k), &AT(v, i, k), c - k, x); }
      else if (z == 2 && M && i != j) { op("add_multiple_of_row"); mzed_add_multiple_of_row(M, RR[i], M, RR[j], x, k); rm_axpy(&f, &AT(v, i, k), &AT(v, j, k), c - k, x); }
      else if (z == 3 && M && i != j) { op("add_row"); mzed_add_row(M, RR[i], M, RR[j], k); rm_axpy(&f, &AT(v, i, k), &AT(v, j, k), c - k, 1); }
      else if (z == 4 && i != j) { op("copy_row"); if (M) mzed_copy_row(M, RR[i], M, RR[j]); else mzd_slice_copy_row(S, RR[i], S, RR[j]); memcpy(&AT(v, i, 0), &AT(v, j, 0), sizeof(el) * c); }
      else if (z == 5) { op("col_swap"); if (M) mzed_col_swap(M, k, q); else mzd_slice_col_swap(S, k, q); for (int l = 0; l < RN; l++) { el y = AT(v, l, k); AT(v, l, k) = AT(v, l, q); AT(v, l, q) = y; } } }
    break;
  case 8: {
    mzp_t *P = mzp_init(r); int n = RN, *to = arena(sizeof(int) * RN);
    for (int k = 0; k < n; k++) { to[k] = k + (int)rnd(n - k); P->values[RR[k]] = RR[to[k]]; }
    RM *p = rm_dup(v); for (int k = 0; k < n; k++) for (int l = 0; l < c; l++) { el y = AT(p, k, l); AT(p, k, l) = AT(p, to[k], l); AT(p, to[k], l) = y; }
    op("apply_p_left"); if (M) mzed_apply_p_left(M, P); else mzd_slice_apply_p_left(S, P); tall_check(M, S, p, "permuted");
    op("apply_p_left_trans"); if (M) mzed_apply_p_left_trans(M, P); else mzd_slice_apply_p_left_trans(S, P); mzp_free(P);
    break; }
  }
  tall_check(M, S, v, "result");
  if ((double)r * c * (kind == PACKED ? w : 1) > 2147483647.0) ev("operations on more than 2^31 bits", 1);
  ev(blocks ? "operations on storage of several blocks" : "operations on very many rows", 1);
  op("free"); if (M) mzed_free(M); if (N) mzed_free(N); if (O) mzed_free(O); if (S) mzd_slice_free(S); if (T) mzd_slice_free(T); if (U) mzd_slice_free(U);
  ff_done(ff);
}

void p31(u64 idx) {
  if (idx % 3 == 2) { tall_case(!vt_asan && chance(25)); return; }
  idx = idx / 3 * 2 + idx % 3;
  static const char *nm[] = {"element access", "sums and copies", "scalar multiples", "conversion", "products", "echelon forms", "blocks and windows", "row and column operations", "triangular solves", "scalar matrices"};
  int what = (int)((5 + idx + idx / 12) % 12), kind = chance(50) ? PACKED : SLICED, e = pick_e(2, 16), lim = chance(30), row1 = 0;
  int first = idx < 6 ? (int)idx : -1; /* the computations with sizes first: echelon forms by every algorithm, scalar multiples by table */
  if (first >= 0) { lim = 0; kind = first == 2 || first == 5 ? SLICED : PACKED; what = first == 4 ? 2 : 5; if (first == 4) e = rng_range(2, 8); }
  if (what > 9) what = 15 - what, kind = PACKED; else if (what == 5 && chance(50)) kind = PACKED;
  if (what == 5) e = 2; else if (what == 4) e = rng_range(2, kind == PACKED ? 3 : 4);
  if (lim) { e = 2; }            /* more than 2^31 entries, not only bits */
  rf_t f; op("field"); const gf2e *ff = ff_make(&f, e, poly_pick(e));
  int w = f.w, r = lim ? 4 + (int)rnd(5) : 2 + (int)rnd(7); if (what == 5 && !lim) r = 5 + rnd(4);
  if (what == 4) r = 4 + rnd(4);
  long long c = (1ll << 31) / ((lim ? 1 : w) * r) + 1 + (int)rnd(200);
  int mid = !lim && first < 0 && chance(what == 5 ? 15 : 50); if (mid) { int sh = rng_range(1, 9); c = (c >> sh) + (long long)(rnd(1u << 16)) * c / (1 << 20); } /* below the limit, where multiples of the size exceed it */
  if (!lim && !mid && first < 0 && what != 4 && what != 5 && chance(20)) { row1 = 1; r = 1 + rnd(2); c = ((1ll << 31) - 128 - 64 * (int)rnd(10)) / w - (int)rnd(70); } /* rows of nearly 2^31 bits */
  if (c * w > (1ll << 31) - 128) c = ((1ll << 31) - 128) / w;
  cols_pick((int)c, w, r);
  RM *v = rm_gen(&f, r, HN, -1), *u; if (what != 5) v = rm_rand(&f, r, HN);
  desc("%s, %s, %d x %d over degree %d (%.1f bits per int range%s)", nm[what], KN(kind), r, (int)c, e, (double)r * c * w / 2147483648.0, row1 ? ", longest rows" : "");
  sig(what); sig(kind); sig(f.mp); sig(r); sig((u64)c); nontrivial();
  mzed_t *M = NULL, *N = NULL, *O = NULL; mzd_slice_t *S = NULL, *T = NULL, *U = NULL;
  if (what != 8 && what != 9) { if (kind == PACKED) M = hm_new(ff, v); else S = hs_new(ff, v); }
  switch (what) {
  case 0:
    op("element access");
    for (int t = 0; t < 400; t++) {
      int i = rnd(r), k = rnd(HN); el x = rf_rand(&f);
      if (chance(40)) { if (M) mzed_write_elem(M, i, HC[k], x); else mzd_slice_write_elem(S, i, HC[k], x); AT(v, i, k) = x; }
      else if (chance(50)) { if (M) mzed_add_elem(M, i, HC[k], x); else mzd_slice_add_elem(S, i, HC[k], x); AT(v, i, k) ^= x; }
      word g = M ? mzed_read_elem(M, i, HC[k]) : mzd_slice_read_elem(S, i, HC[k]);
      REQ(g == AT(v, i, k), "entry %d,%d reads %llx, expected %x", i, HC[k], (unsigned long long)g, AT(v, i, k));
    }
    if (M) hm_check(M, v, "matrix"); else hs_check(S, v, "matrix");
    for (int i = 0; i < r; i++) for (int k = 0; k < HN; k++) { AT(v, i, k) = 0; if (M) mzed_write_elem(M, i, HC[k], 0); else mzd_slice_write_elem(S, i, HC[k], 0); }
    REQ(M ? mzed_is_zero(M) : mzd_slice_is_zero(S), "the zero matrix is not recognised");
    { int i = rnd(r), k = rnd(HN); if (M) mzed_write_elem(M, i, HC[k], 1); else mzd_slice_write_elem(S, i, HC[k], 1); AT(v, i, k) = 1;
      REQ(!(M ? mzed_is_zero(M) : mzd_slice_is_zero(S)), "a matrix with entry %d,%d taken for zero", i, HC[k]); }
    break;
  case 1:
    u = rm_rand(&f, r, HN);
    if (M) { N = hm_new(ff, u); op("add"); O = mzed_add(NULL, M, N); hm_check(O, rm_add(u, v), "sum"); mzed_free(O);
      op("copy"); O = mzed_copy(NULL, M); hm_check(O, v, "copy"); op("cmp"); REQ(mzed_cmp(O, M) == 0, "copy differs"); 
      int i = rnd(r), k = rnd(HN); mz_put(O, i, HC[k], AT(v, i, k) ^ 1); REQ(mzed_cmp(O, M) != 0, "matrices differing in entry %d,%d compare equal", i, HC[k]); mzed_free(O); O = NULL;
      op("add in place"); mzed_add(N, N, M); u = rm_add(u, v); hm_check(N, u, "sum in place"); }
    else { T = hs_new(ff, u); op("add"); U = mzd_slice_add(NULL, S, T); hs_check(U, rm_add(u, v), "sum"); mzd_slice_free(U);
      op("copy"); U = mzd_slice_copy(NULL, S); hs_check(U, v, "copy"); op("cmp"); REQ(mzd_slice_cmp(U, S) == 0, "copy differs");
      int i = rnd(r), k = rnd(HN); sl_put(U, e, i, HC[k], AT(v, i, k) ^ 1); REQ(mzd_slice_cmp(U, S) != 0, "matrices differing in entry %d,%d compare equal", i, HC[k]); mzd_slice_free(U); U = NULL; }
    break;
  case 2: {
    el a = first < 0 && chance(10) ? rnd(2) : rf_rand(&f); RM *p = rm_new(r, HN); for (int i = 0; i < r; i++) rm_scal(&f, &AT(p, i, 0), &AT(v, i, 0), HN, a);
    if (M) { op("mul_scalar"); N = mzed_mul_scalar(NULL, a, M); hm_check(N, p, "product"); }
    else { op("mul_scalar"); T = mzd_slice_mul_scalar(NULL, a, S); hs_check(T, p, "product"); op("addmul_scalar"); mzd_slice_addmul_scalar(T, a, S); hs_check(T, rm_new(r, HN), "product added to itself"); }
    break; }
  case 3:
    if (M) { op("slice"); T = mzed_slice(NULL, M); hs_check(T, v, "sliced"); op("cling"); O = mzed_cling(NULL, T); hm_check(O, v, "round trip"); }
    else { op("cling"); N = mzed_cling(NULL, S); hm_check(N, v, "clung"); op("slice"); U = mzed_slice(NULL, N); hs_check(U, v, "round trip"); }
    break;
  case 4: {
    int m = 3 + rnd(4), alg = rnd(M ? 3 : 3); RM *a = rm_rand(&f, m, r), *p = rm_mul(&f, a, v);
    if (M) { N = sm_new(ff, a); op("product, %s", alg == 0 ? "dispatching" : alg == 1 ? "newton_john" : "strassen");
      O = alg == 0 ? mzed_mul(NULL, N, M) : alg == 1 ? mzed_mul_newton_john(NULL, N, M) : mzed_mul_strassen(NULL, N, M, 100); hm_check(O, p, "product"); }
    else { T = ss_new(ff, a); op("product, %s", alg == 0 ? "dispatching" : alg == 1 ? "karatsuba" : "blm");
      U = alg == 0 ? mzd_slice_mul(NULL, T, S) : alg == 1 ? mzd_slice_mul_karatsuba(NULL, T, S) : mzd_slice_mul_blm(NULL, T, S, NULL); hs_check(U, p, "product");
      op("accumulating product"); mzd_slice_addmul(U, T, S); hs_check(U, rm_new(m, HN), "product added to itself"); }
    ev("very large products", 1);
    break; }
  case 5: {
    int alg = first == 0 ? 1 : first == 1 ? 0 : first == 3 ? 2 : first == 2 ? 0 : first == 5 ? 1 : chance(60) ? 1 : 2 * rnd(2), full = chance(50), rk; RM *ref = rm_dup(v); int want = rm_rref(&f, ref, 1);
    if (M) { op("echelonize, %s", alg == 0 ? "dispatching" : alg == 1 ? "newton_john" : "ple"); rk = alg == 0 ? mzed_echelonize(M, full) : alg == 1 ? mzed_echelonize_newton_john(M, full) : mzed_echelonize_ple(M, full); }
    else { op("echelonize, sliced"); rk = alg ? mzd_slice_echelonize_ple(S, full) : mzd_slice_echelonize(S, full); }
    REQ(rk == want, "rank is %d, expected %d", rk, want);
    if (!full) { RM *g = rm_new(r, HN); for (int i = 0; i < r; i++) for (int k = 0; k < HN; k++) AT(g, i, k) = M ? mz_get(M, i, HC[k]) : sl_get(S, e, i, HC[k]);
      v = g; if (M) hm_check(M, v, "echelon form"); else hs_check(S, v, "echelon form"); /* nothing outside */
      RM *g2 = rm_dup(g); int last = -1; for (int i = 0; i < r; i++) { int k = 0; while (k < HN && !AT(g, i, k)) k++; if (i < want) { REQ(k > last && k < HN, "row %d is not in echelon form", i); last = k; } else REQ(k == HN, "row %d is not zero", i); }
      rm_rref(&f, g2, 1); int pi, pj; REQ(rm_eq(g2, ref, &pi, &pj), "the row space changed"); }
    else v = ref;
    ev("very large echelon forms", 1);
    break; }
  case 6: {
    int a = rnd(HN), b = rnd(HN), t; if (a > b) t = a, a = b, b = t; if (b - a < 2) { a = 0; b = HN; }
    int lc = HC[a] / 64 * 64, hc = b == HN ? HT : HC[b]; while (a > 0 && HC[a - 1] >= lc) a--;
    int lr = rnd(r), hr = lr + 1 + (int)rnd(r - lr), full = HT; RM *w0 = rm_sub(v, lr, a, hr, b); int *cc = HC, cn = HN; int *nc = arena(sizeof(int) * 64); for (int k = a; k < b; k++) nc[k - a] = HC[k] - lc;
    if (M) { op("submatrix"); N = mzed_submatrix(NULL, M, lr, lc, hr, hc); HC = nc; HN = b - a; HT = hc - lc; hm_check(N, w0, "submatrix"); mzed_free(N);
      op("window"); N = mzed_init_window(M, lr, lc, hr, hc); for (int i = 0; i < w0->r; i++) for (int k = 0; k < w0->c; k++) REQ(mzed_read_elem(N, i, nc[k]) == AT(w0, i, k), "window shows a wrong entry %d,%d", i, nc[k]); mzed_free_window(N); N = NULL; }
    else { op("submatrix"); T = mzd_slice_submatrix(NULL, S, lr, lc, hr, hc); HC = nc; HN = b - a; HT = hc - lc; hs_check(T, w0, "submatrix"); mzd_slice_free(T);
      op("window"); T = mzd_slice_init_window(S, lr, lc, hr, hc); for (int i = 0; i < w0->r; i++) for (int k = 0; k < w0->c; k++) REQ(mzd_slice_read_elem(T, i, nc[k]) == AT(w0, i, k), "window shows a wrong entry %d,%d", i, nc[k]); mzd_slice_free_window(T); T = NULL; }
    HC = cc; HN = cn; HT = full;
    if (chance(50)) { /* two rows more below */
      u = rm_rand(&f, 1 + rnd(2), HN); RM *st = rm_new(r + u->r, HN); memcpy(st->d, v->d, sizeof(el) * (size_t)r * HN); memcpy(&AT(st, r, 0), u->d, sizeof(el) * (size_t)u->r * HN);
      if (M) { N = hm_new(ff, u); op("stack"); O = mzed_stack(NULL, M, N); hm_check(O, st, "stack"); } else { T = hs_new(ff, u); op("stack"); U = mzd_slice_stack(NULL, S, T); hs_check(U, st, "stack"); }
    } else if ((long long)HT * w + 100 * w < (1ll << 31) - 128) { /* a few columns to the right */
      int ex = 1 + rnd(90); u = rm_rand(&f, r, 6); if (ex < 6) ex = 6;
      RM *ct = rm_new(r, HN + 6); nc = arena(sizeof(int) * 80); memcpy(nc, HC, sizeof(int) * HN); RM *u2 = rm_new(r, ex);
      for (int k = 0; k < 6; k++) nc[HN + k] = HT + (k * (ex - 1)) / 5; for (int k = 1; k < 6; k++) if (nc[HN + k] == nc[HN + k - 1]) nc[HN + k]++;
      for (int i = 0; i < r; i++) { for (int k = 0; k < HN; k++) AT(ct, i, k) = AT(v, i, k); for (int k = 0; k < 6; k++) AT(ct, i, HN + k) = AT(u2, i, nc[HN + k] - HT) = AT(u, i, k); }
      if (M) { N = sm_new(ff, u2); op("concat"); O = mzed_concat(NULL, M, N); HC = nc; HN += 6; HT += ex; hm_check(O, ct, "concat"); } else { T = ss_new(ff, u2); op("concat"); U = mzd_slice_concat(NULL, S, T); HC = nc; HN += 6; HT += ex; hs_check(U, ct, "concat"); }
      HC = cc; HN = cn; HT = full;
    }
    break; }
  case 7:
    for (int t = 0; t < 6; t++) {
      int i = rnd(r), j = rnd(r), k = rnd(HN), q = rnd(HN), z = rnd(6); el x = rf_rand_nz(&f);
      if (z == 0) { op("row_swap"); if (M) mzed_row_swap(M, i, j); else mzd_slice_row_swap(S, i, j); for (int l = 0; l < HN; l++) { el y = AT(v, i, l); AT(v, i, l) = AT(v, j, l); AT(v, j, l) = y; } }
      else if (z == 1) { op("col_swap"); if (M) mzed_col_swap(M, HC[k], HC[q]); else mzd_slice_col_swap(S, HC[k], HC[q]); for (int l = 0; l < r; l++) { el y = AT(v, l, k); AT(v, l, k) = AT(v, l, q); AT(v, l, q) = y; } }
      else if (z == 2 && M) { op("rescale_row"); mzed_rescale_row(M, i, HC[k], x); rm_scal(&f, &AT(v, i, k), &AT(v, i, k), HN - k, x); }
      else if (z == 3 && M && i != j) { op("add_multiple_of_row"); mzed_add_multiple_of_row(M, i, M, j, x, HC[k]); rm_axpy(&f, &AT(v, i, k), &AT(v, j, k), HN - k, x); }
      else if (z == 4 && M && i != j) { op("add_row"); mzed_add_row(M, i, M, j, HC[k]); rm_axpy(&f, &AT(v, i, k), &AT(v, j, k), HN - k, 1); }
      else if (z == 5) { op("apply_p_left"); mzp_t *P = mzp_init(r); for (int l = 0; l < r; l++) P->values[l] = l + (int)rnd(r - l);
        for (int l = 0; l < r; l++) for (int m = 0; m < HN; m++) { el y = AT(v, l, m); AT(v, l, m) = AT(v, P->values[l], m); AT(v, P->values[l], m) = y; }
        if (M) mzed_apply_p_left(M, P); else mzd_slice_apply_p_left(S, P); mzp_free(P); }
    }
    break;
  case 8: {
    RM *t = rm_rand(&f, r, r); int lower = chance(50), nv = M == NULL && (w == 16 || chance(30)); (void)nv;
    for (int i = 0; i < r; i++) AT(t, i, i) = rf_rand_nz(&f);
    RM *tt = rm_dup(t); for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) if (lower ? j > i : j < i) AT(tt, i, j) = 0;
    u = rm_mul(&f, tt, v); /* right hand side with solution v */
    if (kind == PACKED) { M = hm_new(ff, u); N = sm_new(ff, t); op("trsm %s", lower ? "lower" : "upper"); int nj = e == 2; if (lower) { if (nj) mzed_trsm_lower_left(N, M); else mzed_trsm_lower_left_naive(N, M); } else { if (nj) mzed_trsm_upper_left(N, M); else mzed_trsm_upper_left_naive(N, M); } }
    else { S = hs_new(ff, u); T = ss_new(ff, t); op("trsm %s", lower ? "lower" : "upper"); if (lower) mzd_slice_trsm_lower_left_naive(T, S); else mzd_slice_trsm_upper_left_naive(T, S); }
    break; }
  case 9: {
    el a = rf_rand_nz(&f); int n = r < HT ? r : HT; HN = n; HC = arena(sizeof(int) * n); for (int k = 0; k < n; k++) HC[k] = k; v = rm_new(r, n); for (int i = 0; i < n; i++) AT(v, i, i) = a;
    op("set_ui"); if (kind == PACKED) { M = mzed_init(ff, r, (int)c); mzed_set_ui(M, a); } else { S = mzd_slice_init(ff, r, (int)c); mzd_slice_set_ui(S, a); }
    break; }
  }
  if (M) hm_check(M, v, what == 7 || what == 8 || what == 9 || what == 5 || what == 0 ? "result" : "operand");
  if (S) hs_check(S, v, what == 7 || what == 8 || what == 9 || what == 5 || what == 0 ? "result" : "operand");
  if ((double)r * c * w > 2147483647.0) ev("operations on more than 2^31 bits", 1);
  if ((double)r * c > 2147483647.0) ev("operations on more than 2^31 entries", 1);
  if (row1) ev("operations on rows of nearly 2^31 bits", 1);
  op("free"); if (M) mzed_free(M); if (N) mzed_free(N); if (O) mzed_free(O); if (S) mzd_slice_free(S); if (T) mzd_slice_free(T); if (U) mzd_slice_free(U);
  ff_done(ff);
}
