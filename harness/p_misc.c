/* P18 polynomials with matrix coefficients, P22 rejected operands, P24 Newton-John tables,
 * P25 randomisation, P27 printing, P28 bilinear maps, P29 tuning parameters */
#include "vt.h"
#include "p_mul.h"
#include "p_elim.h"
#include <unistd.h>
#include <sys/mman.h>

/* ---------- GF(2) reference matrices ---------- */
typedef struct { int r, c, wd; u64 *d; } BM;
static BM *bm_new(int r, int c) { BM *m = arena(sizeof *m); m->r = r; m->c = c; m->wd = (c + 63) / 64; m->d = arena(8 * ((size_t)r * m->wd + 1)); return m; }
static BM *bm_rand(int r, int c) {
  BM *m = bm_new(r, c); int k = rnd(8);
  for (int i = 0; i < r; i++) for (int j = 0; j < m->wd; j++) { u64 x = k == 0 ? 0 : k == 1 ? rng() & rng() & rng() : k == 2 ? ~0ull : rng(); if (j == m->wd - 1 && c % 64) x &= (1ull << (c % 64)) - 1; m->d[i * m->wd + j] = x; }
  return m;
}
static BM *bm_dup(const BM *a) { BM *m = bm_new(a->r, a->c); memcpy(m->d, a->d, 8 * (size_t)a->r * a->wd); return m; }
static void bm_xor(BM *a, const BM *b) { for (size_t i = 0; i < (size_t)a->r * a->wd; i++) a->d[i] ^= b->d[i]; }
static void bm_addmul(BM *c, const BM *a, const BM *b) {
  for (int i = 0; i < a->r; i++) for (int k = 0; k < a->c; k++) if (a->d[i * a->wd + k / 64] >> (k % 64) & 1) for (int j = 0; j < b->wd; j++) c->d[i * c->wd + j] ^= b->d[k * b->wd + j];
}
static int bm_zero(const BM *a) { for (size_t i = 0; i < (size_t)a->r * a->wd; i++) if (a->d[i]) return 0; return 1; }
static void bm_put(mzd_t *m, const BM *a) { for (int i = 0; i < a->r; i++) for (int j = 0; j < a->wd; j++) m->rows[i][j] = a->d[i * a->wd + j]; }
static void bm_is(const mzd_t *m, const BM *a, const char *what, int k) {
  REQ(m->nrows == a->r && m->ncols == a->c, "%s %d has dimensions %dx%d, expected %dx%d", what, k, m->nrows, m->ncols, a->r, a->c);
  for (int i = 0; i < a->r; i++) for (int j = 0; j < a->wd; j++)
    REQ(m->rows[i][j] == a->d[i * a->wd + j], "%s %d, row %d word %d: %016llx, expected %016llx", what, k, i, j, (unsigned long long)m->rows[i][j], (unsigned long long)a->d[i * a->wd + j]);
  ev("coefficient matrices compared", 1);
}

/* ---------------- P18 ---------------- */
typedef struct { int n; BM **x; } BP;
static BP *bp_rand(int n, int r, int c) { BP *p = arena(sizeof *p); p->n = n; p->x = arena(sizeof(BM *) * n); for (int i = 0; i < n; i++) p->x[i] = bm_rand(r, c); return p; }
static mzd_poly_t *bp_make(const BP *a) { mzd_poly_t *p = mzd_poly_init(a->n - 1, a->x[0]->r, a->x[0]->c); for (int i = 0; i < a->n; i++) bm_put(p->x[i], a->x[i]); return p; }
static void bp_is(const mzd_poly_t *p, const BP *a, const char *nm) {
  REQ(p->depth == a->n, "%s has %d coefficients, expected %d", nm, p->depth, a->n);
  for (int i = 0; i < a->n; i++) bm_is(p->x[i], a->x[i], nm, i);
}

void p18(u64 idx) {
  int what = (int)(idx % 10);
  int mx = vt_valgrind ? 10 : vt_asan ? 40 : 70;
  int r = 1 + rnd(mx), k = 1 + rnd(mx), c = 1 + rnd(mx);
  if (!vt_valgrind && chance(15)) { int *p[3] = {&r, &k, &c}; *p[rnd(3)] = 60 + rnd(80); }
  int da = 1 + rnd(16), db = 1 + rnd(16);
  if (what >= 7) {
    /* sums, comparison, change of length */
    int n = 1 + rnd(chance(80) ? 17 : 40), ext = rnd(4), off = rnd(4);
    BP *a = bp_rand(n, r, c), *b = bp_rand(n, r, c), *cc = bp_rand(n + off + ext, r, c);
    mzd_poly_t *A = bp_make(a), *B = bp_make(b), *C = bp_make(cc);
    sig(what); sig(n); sig(r); sig(c); nontrivial();
    if (what == 7) {
      int alias = rnd(3), pub = chance(50);
      if (pub) off = 0;
      desc("sum of two polynomials with %d coefficients %dx%d, offset %d, aliasing %d", n, r, c, off, alias); sig(off); sig(alias);
      op("mzd_poly_add");
      if (alias && off == 0) {
        mzd_poly_t *D = alias == 1 ? A : B, *R = pub ? mzd_poly_add(D, A, B) : _mzd_poly_add(D, A, B, 0);
        REQ(R == D, "destination not returned");
        BP *w = alias == 1 ? a : b; for (int i = 0; i < n; i++) bm_xor(w->x[i], (alias == 1 ? b : a)->x[i]);
        bp_is(A, a, "A"); bp_is(B, b, "B");
      } else {
        mzd_poly_t *R = pub ? mzd_poly_add(C, A, B) : _mzd_poly_add(C, A, B, off);
        REQ(R == C, "destination not returned");
        for (int i = 0; i < n; i++) { cc->x[off + i] = bm_dup(a->x[i]); bm_xor(cc->x[off + i], b->x[i]); }
        bp_is(C, cc, "C"); bp_is(A, a, "A"); bp_is(B, b, "B");
      }
    } else if (what == 8) {
      int v = rnd(3); BP *d = bp_rand(n, r, c); int n2 = n;
      desc("comparison of polynomials with %d coefficients %dx%d variant %d", n, r, c, v); sig(v);
      for (int i = 0; i < n; i++) memcpy(d->x[i]->d, a->x[i]->d, 8 * (size_t)r * a->x[i]->wd);
      int at = rnd(n), y = rnd(r), x = rnd(c);
      if (v == 1) d->x[at]->d[y * d->x[at]->wd + x / 64] ^= 1ull << (x % 64);
      if (v == 2 && n > 1) { n2 = n - 1; d->n = n2; }
      mzd_poly_t *D = bp_make(d);
      op("mzd_poly_cmp");
      int g = mzd_poly_cmp(A, D), h = mzd_poly_cmp(D, A), same = v == 0 || (v == 2 && n == 1);
      REQ((g == 0) == same && (h == 0) == same, "comparison returned %d and %d for %s polynomials", g, h, same ? "equal" : "different");
      if (n2 != n) REQ(g > 0 && h < 0, "comparison of lengths %d and %d returned %d and %d", n, n2, g, h);
      bp_is(A, a, "A"); bp_is(D, d, "D");
      /* differences in several coefficients at once, in both directions, must not hide each other */
      if (n2 == n) for (int it = 0; it < (vt_valgrind ? 4 : 40); it++) {
        int k = 1 + rnd(4), diff = 0, yy = rnd(r), xx = rnd(c);
        for (int q = 0; q < k; q++) { int co = rnd(n), y2 = chance(50) ? yy : rnd(r), x2 = chance(50) ? xx : rnd(c); mzd_t *m = chance(50) ? A->x[co] : D->x[co]; BM *s = m == A->x[co] ? a->x[co] : d->x[co]; s->d[y2 * s->wd + x2 / 64] ^= 1ull << (x2 % 64); m->rows[y2][x2 / 64] ^= 1ull << (x2 % 64); }
        for (int i = 0; i < n; i++) diff |= !!memcmp(a->x[i]->d, d->x[i]->d, 8 * (size_t)r * a->x[i]->wd);
        op("mzd_poly_cmp after %d changes", k);
        g = mzd_poly_cmp(A, D); h = mzd_poly_cmp(D, A);
        REQ((g != 0) == diff && (h != 0) == diff, "comparison returned %d and %d for %s polynomials", g, h, diff ? "different" : "equal");
        ev("polynomial comparisons", 1);
        if (chance(60)) for (int i = 0; i < n; i++) { memcpy(d->x[i]->d, a->x[i]->d, 8 * (size_t)r * a->x[i]->wd); mzd_copy(D->x[i], A->x[i]); }
      }
      mzd_poly_free(D);
    } else {
      int nd = 1 + rnd(chance(80) ? 17 : 40);
      desc("change the number of %dx%d coefficients from %d to %d and randomise", r, c, n, nd); sig(nd);
      op("_mzd_poly_adapt_depth");
      mzd_poly_t *R = _mzd_poly_adapt_depth(A, nd); A = R;
      BP *w = arena(sizeof *w); w->n = nd; w->x = arena(sizeof(BM *) * nd);
      for (int i = 0; i < nd; i++) w->x[i] = i < n ? a->x[i] : bm_new(r, c);
      bp_is(A, w, "A");
      op("mzd_poly_randomize"); mzd_poly_randomize(A);
      int ones = 0; for (int i = 0; i < nd; i++) for (int y = 0; y < r; y++) { for (int j = 0; j < A->x[i]->width; j++) ones += __builtin_popcountll(A->x[i]->rows[y][j]); REQ(!(A->x[i]->rows[y][A->x[i]->width - 1] & ~A->x[i]->high_bitmask), "random coefficient %d has bits beyond its last column", i); }
      double tot = (double)nd * r * c; if (tot > 2000) REQ(ones > 0.3 * tot && ones < 0.7 * tot, "random polynomial has %d ones of %.0f entries", ones, tot);
    }
    mzd_poly_free(A); mzd_poly_free(B); mzd_poly_free(C);
    ev("polynomial operations", 1);
    return;
  }
  /* products */
  static const char *nm[] = {"naive", "karatsuba", "karatsuba", "blm", "blm", "crt", "ext1"};
  int bal = what == 1 || what == 2 || chance(30), djb = 0;
  if (bal) db = da;
  if ((what == 0 || what == 5 || what == 6) && chance(8) && !vt_valgrind) { da = 1 + rnd(24); db = 1 + rnd(24); if (r > 30) r = 30; if (k > 30) k = 30; if (c > 30) c = 30; }
  if ((what == 0 || what == 3 || what == 5) && chance(5) && !vt_valgrind) { da = 1 + rnd(90); db = bal ? da : 1 + (int)rnd(90); r = 1 + r % 9; k = 1 + k % 9; c = 1 + c % 9; ev("long polynomial products", 1); }
  if (chance(3)) da = db = 1;
  if (what == 6) { if (da > 10 && vt_asan) da = 1 + da % 10; if (db > 10 && vt_asan) db = 1 + db % 10; }
  int cnull = what != 6 && chance(30), ext = rnd(3);
  sig(what); sig(da); sig(db); sig(r); sig(k); sig(c); nontrivial();
  BP *a = bp_rand(da, r, k), *b = bp_rand(db, k, c), *cc = bp_rand(da + db - 1 + ext, r, c);
  mzd_poly_t *A = bp_make(a), *B = bp_make(b), *C = cnull ? NULL : bp_make(cc);
  int sq = bal && r == k && k == c;
  desc("polynomial product %s, %d coefficients %dx%d times %d coefficients %dx%d, destination %s", nm[what], da, r, k, db, k, c, cnull ? "NULL" : "given");
  if (cnull) { for (int i = 0; i < cc->n; i++) cc->x[i] = bm_new(r, c); }
  for (int i = 0; i < da; i++) if (!bm_zero(a->x[i])) for (int j = 0; j < db; j++) bm_addmul(cc->x[i + j], a->x[i], b->x[j]);
  op("_mzd_poly_addmul %s", nm[what]); (void)sq;
  mzd_poly_t *R = NULL;
  switch (what) {
  case 0: R = _mzd_poly_addmul_naive(C, A, B); break;
  case 1: case 2: R = _mzd_poly_addmul_karatsubs_balanced(C, A, B); break;
  case 3: case 4: {
    int *p; djb = chance(50);
    int mxd = da > db ? da : db;
    if (mxd <= 16 && chance(40)) { p = m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int)); p[mxd] = 1; } else p = crt_init(da, db);
    op("blm_init_crt(djb=%d)", djb);
    blm_t *f = blm_init_crt(NULL, da, db, p, djb); m4ri_mm_free(p);
    op("_mzd_poly_addmul_blm(djb=%d)", djb);
    R = _mzd_poly_addmul_blm(C, A, B, f); blm_free(f); break; }
  case 5: R = _mzd_poly_addmul_crt(C, A, B); break;
  default: R = _mzd_poly_addmul_ext1(C, A, B); break;
  }
  REQ(R && (cnull || R == C), "destination not returned");
  REQ(R->depth >= da + db - 1 && R->nrows == r && R->ncols == c, "result has %d coefficients of size %dx%d", R->depth, R->nrows, R->ncols);
  if (!cnull) REQ(R->depth == cc->n, "the destination changed its length");
  for (int i = 0; i < R->depth; i++) bm_is(R->x[i], i < cc->n ? cc->x[i] : bm_new(r, c), "coefficient", i);
  bp_is(A, a, "A"); bp_is(B, b, "B");
  mzd_poly_free(A); mzd_poly_free(B); mzd_poly_free(R);
  ev("polynomial products", 1);
}

/* ---------------- P28 ---------------- */
void p28(u64 idx) {
  int fl, gl; rf_t f; const gf2e *ff = NULL;
  if (idx < 256) { fl = 1 + (int)(idx / 16); gl = 1 + (int)(idx % 16); }
  else { fl = 1 + rnd(16); gl = 1 + rnd(16); if (chance(4) && !vt_valgrind) { fl = 1 + rnd(24); gl = 1 + rnd(24); } }
  int withff = idx >= 256 && chance(55), own = rnd(3), djb = chance(60), full8 = 0;
  if (idx >= 256 && !vt_valgrind && chance(4)) { withff = 0; own = 0; fl = 1 + rnd(140); gl = 1 + rnd(140); if (chance(10)) { fl = 1 + rnd(3); gl = 1 + rnd(1200); } djb = chance(30); ev("maps for long operands", 1); } /* several words per row of the maps */
  else if (idx >= 256 && !vt_valgrind && chance(3)) { own = 2; full8 = 1; djb = chance(30); }
  if (withff) { int e = rng_range(2, 16); op("field"); ff = ff_make(&f, e, poly_pick(e)); if (chance(80)) fl = gl = e; else { fl = 1 + rnd(e); gl = 1 + rnd(e); } }
  int mxl = fl > gl ? fl : gl;
  int *p;
  desc("bilinear map for %d x %d coefficients, %s, %s map", fl, gl, withff ? "reduced modulo a field polynomial" : "unreduced", djb ? "compiled" : "matrix");
  op("crt_init(%d,%d)", fl, gl);
  if (own == 0 || mxl > 16) p = crt_init(fl, gl);
  else if (own == 1) { p = m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int)); p[mxl] = 1; }
  else { /* an own scheme: enough coprime moduli, not the cheapest */
    p = m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int)); int have = 0, need = fl + gl - 1;
    p[0] = rnd(4); have = p[0];
    if (full8) { p[0] = rnd(4); p[8] = 31 + rnd(6); have = need; ev("moduli that are powers", 1); if (p[8] > 34) ev("moduli that are eighth powers", 1); } /* more than needed: all irreducible polynomials of degree 8, then powers */
    int used[9] = {0}, sparse = chance(60); /* moduli may be powers of irreducible polynomials not used otherwise */
    for (int d = 1 + rnd(3); have < need && d < 9; d++) {
      int mxn = (int)irreducible_polynomials[d][0], n = (need - have + d - 1) / d;
      for (int q = 2; q <= 8 && d % q == 0; q *= 2) mxn += (int)irreducible_polynomials[d / q][0] - used[d / q];
      if (sparse && d < 3 && chance(70)) n = rnd(n + 1);
      if (n > mxn) n = mxn; p[d] = n; have += n * d;
      for (int k = 0; k < n; k++) { int q = 1; while (used[d / q] >= (int)irreducible_polynomials[d / q][0]) q *= 2; used[d / q]++; if (q > 1) ev("moduli that are powers", 1); }
    }
    if (have < need) { m4ri_mm_free(p); p = crt_init(fl, gl); own = 0; }
  }
  int cost = 0; for (int d = 0; d < M4RIE_CRT_LEN; d++) { REQ(p[d] >= 0, "scheme has %d polynomials of degree %d", p[d], d); cost += d ? p[d] * costs[d] : costs[p[0]]; }
  REQ(blm_cost_crt(p) == cost, "cost of the scheme is %d, reported %d", cost, blm_cost_crt(p));
  if (own == 0) { int deg = p[0]; for (int d = 1; d < M4RIE_CRT_LEN; d++) deg += d * p[d]; REQ(deg >= fl + gl - 1, "moduli of total degree %d cannot determine %d coefficients", deg, fl + gl - 1); }
  op("blm_init_crt(%d,%d)", fl, gl);
  blm_t *b = blm_init_crt(ff, fl, gl, p, djb); m4ri_mm_free(p);
  int hl = withff ? f.e : fl + gl - 1, m = b->F->nrows;
  sig(fl); sig(gl); sig(withff ? f.mp : 0); sig(own); sig(djb); nontrivial();
  REQ(m == cost, "the map uses %d products, its scheme costs %d", m, cost);
  REQ(b->G->nrows == m && b->F->ncols == fl && b->G->ncols == gl && b->H->ncols == m && b->H->nrows == hl, "dimensions of the maps: F %dx%d G %dx%d H %dx%d", m, b->F->ncols, b->G->nrows, b->G->ncols, b->H->nrows, b->H->ncols);
  REQ(!!b->f == !!djb && !!b->h == !!djb, "compiled forms present: %d %d, asked for %d", !!b->f, !!b->h, djb);
  /* complete check: every pair of unit coefficients */
  int mw = (m + 63) / 64; u64 *FT = arena(sizeof(u64) * mw * fl), *GT = arena(sizeof(u64) * mw * gl); memset(FT, 0, sizeof(u64) * mw * fl); memset(GT, 0, sizeof(u64) * mw * gl);
  for (int k = 0; k < m; k++) {
    for (int v = 0; v < fl; v++) FT[v * mw + k / 64] |= (u64)(b->F->rows[k][v / 64] >> (v % 64) & 1) << (k % 64);
    for (int w = 0; w < gl; w++) GT[w * mw + k / 64] |= (u64)(b->G->rows[k][w / 64] >> (w % 64) & 1) << (k % 64);
  }
  for (int v = 0; v < fl; v++) for (int w = 0; w < gl; w++) {
    u32 want = 0; el t = 0; if (withff) { t = rf_pow(&f, 2, v + w); }
    for (int i = 0; i < hl; i++) {
      u64 x = 0; for (int k = 0; k < mw; k++) { u64 h = b->H->rows[i][k]; if (k == mw - 1 && m % 64) h &= ((u64)1 << (m % 64)) - 1; x ^= h & FT[v * mw + k] & GT[w * mw + k]; }
      int s = __builtin_parityll(x);
      want = withff ? (t >> i & 1) : (i == v + w);
      REQ((u32)s == want, "x^%d * x^%d: coefficient %d of the result is %d, expected %u", v, w, i, s, want);
    }
    ev("monomial products checked", 1);
  }
  /* apply it, in every available form */
  int mx = vt_valgrind || fl * gl > 600 ? 8 : 24, r = 1 + rnd(mx), kk = 1 + rnd(mx), c = 1 + rnd(chance(80) || fl * gl > 600 ? mx : 70);
  BP *a = bp_rand(fl, r, kk), *g = bp_rand(gl, kk, c);
  mzd_poly_t *A = bp_make(a), *B = bp_make(g);
  BM **w = arena(sizeof(BM *) * hl); for (int i = 0; i < hl; i++) w[i] = bm_new(r, c);
  for (int v = 0; v < fl; v++) for (int u = 0; u < gl; u++) {
    BM *pr = bm_new(r, c); bm_addmul(pr, a->x[v], g->x[u]);
    if (withff) { el t = rf_pow(&f, 2, v + u); for (int i = 0; i < hl; i++) if (t >> i & 1) bm_xor(w[i], pr); } else bm_xor(w[v + u], pr);
  }
  for (int form = 0; form < 3; form++) {
    if (form == 1 && !djb) continue;
    mzd_poly_t *X = mzd_poly_init(hl - 1, r, c);
    op("apply the map, form %d", form);
    if (form == 0) _mzd_ptr_apply_blm_mzd(X->x, (const mzd_t **)A->x, (const mzd_t **)B->x, b);
    else if (form == 1) _mzd_ptr_apply_blm_djb(X->x, (const mzd_t **)A->x, (const mzd_t **)B->x, b);
    else _mzd_ptr_apply_blm(X->x, (const mzd_t **)A->x, (const mzd_t **)B->x, b);
    for (int i = 0; i < hl; i++) bm_is(X->x[i], w[i], "result coefficient", i);
    bp_is(A, a, "A"); bp_is(B, g, "B");
    mzd_poly_free(X); ev("map applications", 1);
  }
  mzd_poly_free(A); mzd_poly_free(B);
  op("blm_free"); blm_free(b);
  if (ff) ff_done(ff);
}

/* ---------------- P22 ---------------- */

static void p22_limits(void) { /* requests beyond what the library offers */
  int what = rnd(6), died = 0; sig(100 + what); nontrivial();
  if (what == 0) {
    int n = chance(30) ? 16 : 17 + (int)rnd(20), r = 1 + rnd(20), k = 1 + rnd(20), c = 1 + rnd(20); sig(n); sig(r); sig(k); sig(c);
    desc("balanced Karatsuba product of polynomials with %d coefficients", n);
    BP *a = bp_rand(n, r, k), *b = bp_rand(n, k, c), *cc = bp_rand(2 * n - 1, r, c); mzd_poly_t *A = bp_make(a), *B = bp_make(b), *C = bp_make(cc);
    op("_mzd_poly_addmul_karatsubs_balanced"); died = DIES(_mzd_poly_addmul_karatsubs_balanced(C, A, B));
    REQ(died == (n > 16), "polynomials of %d coefficients %s", n, died ? "rejected" : "accepted");
    bp_is(A, a, "A"); bp_is(B, b, "B"); if (died) bp_is(C, cc, "C");
    mzd_poly_free(A); mzd_poly_free(B); mzd_poly_free(C);
  } else if (what == 1) {
    int d = chance(30) ? 1 + (int)rnd(32) : 33 + (int)rnd(32); u64 r = 0; sig(d); desc("product of binary polynomials, bound %d on the degree", d);
    op("gf2x_mul"); died = DIES(r = gf2x_mul(1, 1, d)); REQ(died == (d > 32), "bound %d %s", d, died ? "rejected" : "accepted"); REQ(died || r == 1, "1*1 is %llx", (unsigned long long)r);
  } else if (what == 2) {
    op("field of degree 1"); gf2e *g = gf2e_init(2 + rnd(2)); int kind = rnd(2), r = 1 + rnd(9), c = 1 + rnd(9); sig(kind); desc("a packed matrix over a field of degree 1, which is not offered");
    if (kind) { died = DIES((void)gf2e_degree_to_w(g)); } else died = DIES(mzed_init(g, r, c)); REQ(died, "a field of degree 1 was accepted"); gf2e_free(g);
  } else { /* schemes with more moduli of a degree than there are, or of too small a degree in total */
    int fl = 2 + rnd(12), gl = 2 + rnd(12), *p = m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int)), few = chance(50); blm_t *b = NULL; sig(fl); sig(gl); sig(few);
    if (few) { p[0] = rnd(2); p[1] = rnd(2); p[2] = rnd(2); int have = p[0] + p[1] + 2 * p[2]; while (have >= fl + gl - 1) { fl++; have = p[0] + p[1] + 2 * p[2]; } if (have == 0) p[1] = 1; if (fl + gl - 1 <= 1) fl = 3; }
    else { static const int mx[] = {0, 2, 3, 2, 7}; int d = 1 + rnd(4); p[d] = mx[d] + 1 + (int)rnd(3); sig(d); sig(p[d]); }
    desc("a scheme for %d x %d coefficients with %s", fl, gl, few ? "moduli of too small a degree" : "more coprime moduli than there are"); op("blm_init_crt");
    died = DIES(b = blm_init_crt(NULL, fl, gl, p, 0)); 
    REQ(died || few, "the scheme was accepted");
    if (!died) { /* fewer points may do when all of the product's information is in the small products (Karatsuba); then the map must be right */
      for (int i = 0; i < fl; i++) for (int j = 0; j < gl; j++) for (int k = 0; k < fl + gl - 1; k++) {
        int t = 0; for (int m = 0; m < b->F->nrows; m++) t ^= mzd_read_bit(b->F, m, i) & mzd_read_bit(b->G, m, j) & mzd_read_bit(b->H, k, m);
        REQ(t == (k == i + j), "the scheme was accepted but its map does not compute the product: coefficient %d of x^%d * x^%d is %d", k, i, j, t);
      }
      blm_free(b);
    }
    m4ri_mm_free(p);
  }
  ev(died ? "requests beyond the limits rejected" : "requests at the limits accepted", 1);
}
void p22(u64 idx) {
  if (idx % 25 == 24) { p22_limits(); return; }
  rf_t f, f2; int e = (int)(2 + idx % 15), e2; do e2 = rng_range(2, 16); while (e2 == e);
  op("field"); const gf2e *ff = ff_make(&f, e, poly_pick(e)), *gg;
  { u32 q = poly_pick(e2); if (e > 2 && chance(40)) do q = poly_pick(e2 = e); while (q == f.mp); gg = ff_make(&f2, e2, q); } /* also another field of the same size */
  int what = (int)(idx / 15 % 8), kind = what == 2 || what == 3 || what == 5 ? SLICED : PACKED, acc = what == 1 || what == 3;
  int m = 1 + rnd(20), k = 1 + rnd(20), n = 1 + rnd(20), bad = rnd(6);
  /* 0 inner dimension, 1 field of B, 2 rows of C, 3 columns of C, 4 field of C, 5 nothing */
  int alg = 0, dB = 0, dr = 0, dc = 0; const gf2e *fb = ff, *fc = ff; rf_t *rb = &f, *rc = &f;
  static const int pk[] = {0, 2, 3, 4, 5, 6}, sk[] = {0, 1, 2, 3};
  if (what < 4) {
    alg = kind == PACKED ? pk[rnd(6)] : sk[rnd(4)];
    if (kind == PACKED && alg == 3 && e > 11) alg = 2;
  } else { k = m; if (what >= 6) k = m; }
  int delta = chance(50) || m < 3 ? 1 + (int)rnd(3) : -1;
  if (bad == 0) dB = delta > 0 || k < 2 ? 1 + (int)rnd(70) : -1; else if (bad == 1) fb = gg, rb = &f2; else if (bad == 2) dr = delta; else if (bad == 3) dc = n < 2 || chance(50) ? 1 + (int)rnd(70) : -1; else if (bad == 4) fc = gg, rc = &f2;
  if (bad == 2 && what < 6 && chance(40)) { /* both dimensions at once: transposed, same number of elements or same sum */
    int z = rnd(4); if (z == 0 && m != n) dr = n - m, dc = m - n; else if (z == 1 && m % 2 == 0) dr = -(m / 2), dc = n; else if (z == 2 && n > 1) dr = 1, dc = -1; else dr = dc = 1; }
  if (m + dr < 1) dr = 1;
  static const char *wn[] = {"mul", "addmul", "mul", "addmul", "add", "add", "copy", "concat/stack/submatrix"};
  static const char *bn[] = {"inner dimension", "field of B", "rows of C", "columns of C", "field of C", "nothing"};
  sig(what); sig(alg); sig(bad); sig(m); sig(k); sig(n); sig(f.mp); sig(f2.mp); nontrivial();
  int cn; /* C given */
  GM *A, *B = NULL, *C = NULL; int died = 0; void *ret = NULL;
  vt_edge_aligned = 1;
  if (what < 4) {
    desc("%s %s %s with mismatch in %s, %dx%d * %dx%d -> %dx%d degree %d/%d (other field: poly 0x%x)", wn[what], KN(kind), kind == PACKED ? ALG_P[alg] : ALG_S[alg], bn[bad], m, k, k + dB, n, m + dr, n + dc, e, rb->e, f2.mp);
    cn = acc || bad >= 2 || chance(50);
    A = gm_new("A", ff, &f, kind, gm_mode_mask(), rm_rand(&f, m, k)); B = gm_new("B", fb, rb, kind, gm_mode_mask(), rm_rand(rb, k + dB, n));
    if (cn) C = gm_new("C", fc, rc, kind, gm_mode_mask(), rm_rand(rc, m + dr, n + dc));
    op("%s with mismatching %s", wn[what], bn[bad]);
    blm_t *bf = NULL;
    if (kind == SLICED && alg == 3) { int *p = crt_init(e, e); bf = blm_init_crt(ff, e, e, p, chance(50)); m4ri_mm_free(p); }
    if (kind == PACKED) died = DIES(ret = run_packed(alg, acc, C ? C->M : NULL, A->M, B->M, 100)); else died = DIES(ret = run_sliced(alg, acc, C ? C->S : NULL, A->S, B->S, bf));
    if (bf) blm_free(bf);
  } else if (what < 6) {
    if (bad == 0) { dB = 0; if (chance(50)) dB = 1 + rnd(3); }
    desc("%s %s with mismatch in %s", wn[what], KN(kind), bn[bad]);
    int db2 = bad == 0 && !dB ? 1 + (int)rnd(70) : 0;
    if (bad == 0 && chance(30)) { if (m != n && chance(50)) dB = n - m, db2 = m - n; else if (n > 1) dB = 1, db2 = -1; }
    A = gm_new("A", ff, &f, kind, gm_mode_mask(), rm_rand(&f, m, n)); B = gm_new("B", fb, rb, kind, gm_mode_mask(), rm_rand(rb, m + dB, n + db2));
    cn = bad >= 2 || chance(50);
    if (cn) C = gm_new("C", fc, rc, kind, gm_mode_mask(), rm_rand(rc, m + dr, n + dc));
    op("add with mismatching %s", bn[bad]);
    if (kind == PACKED) died = DIES(ret = mzed_add(C ? C->M : NULL, A->M, B->M)); else died = DIES(ret = mzd_slice_add(C ? C->S : NULL, A->S, B->S));
  } else if (what == 6) {
    /* packed copies check dimensions and field */
    if (bad < 2) bad = 2 + rnd(4);
    dr = bad == 2 ? (m > 1 && chance(50) ? -1 : 1) : 0; dc = bad == 3 ? (n > 1 && chance(50) ? -1 : 1) : 0; fc = bad == 4 ? gg : ff; rc = bad == 4 ? &f2 : &f;
    desc("copy packed with mismatch in %s", bn[bad]);
    A = gm_new("A", ff, &f, kind, gm_mode_mask(), rm_rand(&f, m, n)); C = gm_new("C", fc, rc, kind, gm_mode_mask(), rm_rand(rc, m + dr, n + dc));
    op("copy with mismatching %s", bn[bad]);
    died = DIES(ret = mzed_copy(C->M, A->M));
  } else {
    int w = rnd(3), n2 = 1 + rnd(20); static const char *sn[] = {"concat", "stack", "submatrix"};
    if (bad == 1 || bad == 4) bad = 2;
    dr = bad == 2 ? (w == 2 ? -1 : delta) : 0; dc = bad == 3 ? 1 : 0;
    kind = chance(50) ? PACKED : SLICED;
    int ar = m, ac = n, br = w == 0 ? m : n2, bc = w == 0 ? n2 : n, cr = w == 1 ? m + n2 : m, cc = w == 0 ? n + n2 : n;
    if (w == 2) { if (bad == 0) bad = 5; if (bad == 2) { if (m < 2) bad = 5, dr = 0; } if (bad == 3) { if (n < 2) { bad = 5; dc = 0; } else dc = -1; } if (bad == 5) dr = dc = 0; }
    if (bad == 0) { if (w == 0) br += 1 + (int)rnd(3); else bc += 1 + (int)rnd(3); }
    if (cr + dr < 1) dr = 1;
    desc("%s %s with mismatch in %s", sn[w], KN(kind), bad == 0 ? "the operands' common dimension" : bn[bad]);
    sig(w); sig(kind);
    A = gm_new("A", ff, &f, kind, gm_mode_mask(), rm_rand(&f, ar, ac));
    if (w < 2) B = gm_new("B", ff, &f, kind, gm_mode_mask(), rm_rand(&f, br, bc));
    C = gm_new("C", ff, &f, kind, gm_mode_mask(), rm_rand(&f, cr + dr, cc + dc));
    op("%s with mismatching %s", sn[w], bn[bad]);
    if (kind == PACKED) died = DIES(ret = w == 0 ? mzed_concat(C->M, A->M, B->M) : w == 1 ? mzed_stack(C->M, A->M, B->M) : mzed_submatrix(C->M, A->M, 0, 0, m, n));
    else died = DIES(ret = w == 0 ? mzd_slice_concat(C->S, A->S, B->S) : w == 1 ? mzd_slice_stack(C->S, A->S, B->S) : mzd_slice_submatrix(C->S, A->S, 0, 0, m, n));
  }
  if (bad == 5) { REQ(!died, "operands that fit were rejected"); ev("fitting operands accepted", 1); }
  else {
    REQ(died, "mismatching operands (%s) were accepted", bn[bad]);
    gm_check_const(A); if (B) gm_check_const(B); if (C) gm_check_const(C);
    ev("mismatching operands rejected", 1);
  }
  if (!died && ret && !C) { if (kind == PACKED) mzed_free(ret); else mzd_slice_free(ret); }
  gm_free(A); if (B) gm_free(B); if (C) gm_free(C);
  ff_done(ff); ff_done(gg);
}

/* ---------------- P24 ---------------- */
void p24(u64 idx) {
  rf_t f; int e = (int)(2 + idx % 15); if (e > 12 && chance(70)) e = rng_range(2, 11);
  op("field"); const gf2e *ff = ff_make(&f, e, poly_pick(e));
  int epw = 64 / f.w, nt = 1 + rnd(6), q = 1 << e;
  while (nt * f.w > 64) nt--;
  int r = nt + (int)rnd(10), rm = 1 + rnd(30), c = nt + (int)rnd(e >= 11 ? 3 * epw : vt_valgrind ? 4 * epw : 12 * epw);
  if (vt_asan && e >= 9 && c > 40) c = nt + c % 40;
  sig(f.mp); sig(nt); sig(r); sig(c); sig(rm); nontrivial();
  desc("Newton-John tables: %d tables of %d columns, rows processed %d, degree %d poly 0x%x", nt, c, rm, e, f.mp);
  RM *a = rm_gen(&f, r, c, -1), *m = rm_gen(&f, rm, c, chance(70) ? G_UNIFORM : -1);
  GM *A = gm_new("A", ff, &f, PACKED, gm_mode_mask(), a), *M = gm_new("M", ff, &f, PACKED, gm_mode_mask(), m);
  njt_mzed_t *T[6]; for (int i = 0; i < nt; i++) { op("njt_mzed_init"); T[i] = chance(30) ? NULL : njt_mzed_init(ff, c); }
  int rounds = 1 + rnd(4), col = 0;
  for (int it = 0; it < rounds; it++) {
    col = rnd(c - nt + 1);
    int row0 = rnd(r - nt + 1);
    for (int t = 0; t < nt; t++) {
      op("mzed_make_table(row %d, column %d)", row0 + t, col + t);
      njt_mzed_t *R = mzed_make_table(T[t], A->M, row0 + t, col + t);
      REQ(R && (!T[t] || R == T[t]), "table not returned"); T[t] = R;
      REQ(R->T->nrows == q && R->T->ncols == c, "table dimensions %dx%d", R->T->nrows, R->T->ncols);
      int st = vt_valgrind ? 1 + q / 40 : vt_asan && q > 512 ? 1 + q / 300 : 1;
      unsigned char *seen = arena(q);
      for (int x = 0; x < q; x++) { int l = T[t]->L[x]; REQ(l >= 0 && l < q && !seen[l], "table index of %x is %d", x, l); seen[l] = 1; }
      el *w = arena(sizeof(el) * c);
      for (int x = 0; x < q; x += st) {
        for (int j = 0; j < col + t; j++) w[j] = 0;
        rm_scal(&f, w + col + t, rm_at(a, row0 + t, col + t), c - col - t, (el)x);
        /* words more than 8 to the left of the first column may hold leftovers of an earlier use (documented) */
        int j0 = ((col + t) * f.w / 64 - 8) * epw; if (j0 < 0) j0 = 0;
        for (int j = j0; j < c; j++) REQ(mz_get(T[t]->T, T[t]->L[x], j) == w[j], "table %d (use %d, from column %d): multiple by %x, column %d is %x, expected %x", t, it, col + t, x, j, mz_get(T[t]->T, T[t]->L[x], j), w[j]);
        ev("table rows checked", 1);
      }
    }
    int s0 = rnd(rm), s1 = s0 + (int)rnd(rm - s0 + 1);
    op("mzed_process_rows with %d tables, rows %d..%d from column %d", nt, s0, s1, col);
    for (int y = s0; y < s1; y++) {
      el x[6]; for (int t = 0; t < nt; t++) x[t] = AT(m, y, col + t);
      for (int t = 0; t < nt; t++) rm_axpy(&f, rm_at(m, y, col + t), rm_at(a, row0 + t, col + t), c - col - t, x[t]);
    }
    switch (nt) {
    case 1: mzed_process_rows(M->M, s0, s1, col, T[0]); break;
    case 2: mzed_process_rows2(M->M, s0, s1, col, T[0], T[1]); break;
    case 3: mzed_process_rows3(M->M, s0, s1, col, T[0], T[1], T[2]); break;
    case 4: mzed_process_rows4(M->M, s0, s1, col, T[0], T[1], T[2], T[3]); break;
    case 5: mzed_process_rows5(M->M, s0, s1, col, T[0], T[1], T[2], T[3], T[4]); break;
    default: mzed_process_rows6(M->M, s0, s1, col, T[0], T[1], T[2], T[3], T[4], T[5]); break;
    }
    gm_out(M, m); gm_snap(M); gm_check_const(A);
    ev("row processings", 1);
  }
  for (int t = 0; t < nt; t++) njt_mzed_free(T[t]);
  gm_free(A); gm_free(M); ff_done(ff);
}

/* ---------------- P25 ---------------- */
void p25(u64 idx) {
  rf_t f; int e = (int)(2 + idx % 15), kind = (int)(idx / 15 & 1); op("field"); const gf2e *ff = ff_make(&f, e, poly_pick(e));
  int r = 1 + rnd(30), c = pick_dim(&f, vt_valgrind ? 40 : 200); extreme(&r, &c);
  desc("randomise %s %dx%d degree %d poly 0x%x", KN(kind), r, c, e, f.mp);
  sig(kind); sig(f.mp); sig(r); sig(c); nontrivial();
  GM *A = gm_new("A", ff, &f, kind, gm_mode_mask(), rm_gen(&f, r, c, -1));
  op("randomize");
  size_t cnt = 0; u32 q = 1u << e; unsigned char *seen = arena(q); u64 tot[16] = {0};
  u64 need = (u64)q * 24; if (need > 4000) need = 4000; if (vt_valgrind && need > 400) need = 400;
  RM *prev = NULL; int reps = 0;
  u64 *pos = arena(sizeof(u64) * (size_t)r * c * 2);
  while (cnt < need || reps < 3) {
    if (kind == PACKED) mzed_randomize(A->M); else mzd_slice_randomize(A->S);
    gm_check_frame(A); RM *g = gm_read(A);
    for (size_t i = 0; i < (size_t)r * c; i++) { seen[g->d[i]] = 1; for (int b = 0; b < e; b++) tot[b] += g->d[i] >> b & 1; pos[2 * i] |= g->d[i]; pos[2 * i + 1] |= (el)~g->d[i]; }
    cnt += (size_t)r * c; reps++;
    if (prev && (size_t)r * c * e > 60) { int x, y; REQ(!rm_eq(prev, g, &x, &y), "two randomisations gave the same matrix"); }
    prev = g;
  }
  ev("random elements observed", cnt);
  if (cnt >= 400) for (int b = 0; b < e; b++) REQ(tot[b] > 0.3 * cnt && tot[b] < 0.7 * cnt, "bit %d of the random elements is set in %llu of %zu", b, (unsigned long long)tot[b], cnt);
  if (cnt >= (u64)q * 24) for (u32 x = 0; x < q; x++) REQ(seen[x], "element %x does not occur among %zu random elements", x, cnt);
  /* every position moves: repeat until the chance of a false alarm is negligible (2^-60 per bit) */
  if ((size_t)r * c <= 12000 && !vt_valgrind) {
    for (; reps < 64; reps++) { if (kind == PACKED) mzed_randomize(A->M); else mzd_slice_randomize(A->S); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { el x = kind == PACKED ? mz_get(A->M, i, j) : sl_get(A->S, e, i, j); size_t k = (size_t)i * c + j; pos[2 * k] |= x; pos[2 * k + 1] |= (el)~x; } }
    gm_check_frame(A);
    for (size_t k = 0; k < (size_t)r * c; k++) REQ((pos[2 * k] & (q - 1)) == q - 1 && (pos[2 * k + 1] & (q - 1)) == q - 1, "element (%zu,%zu) has a bit that never changed in %d randomisations", k / c, k % c, reps);
    ev("positions observed to vary", (u64)r * c);
  }
  /* no linear relation between the bits of the elements: the bits of B+1+64 draws span everything
   * (a random matrix of that shape has full rank but for 2^-64) */
  if (!vt_valgrind && (size_t)r * c * e <= 20000 && chance(30)) {
    size_t all = (size_t)r * c * e; int nb = all < 180 ? (int)all : 180; u32 *at = arena(sizeof(u32) * nb); size_t st = rnd((u32)(all - nb + 1));
    int spread = chance(40); for (int k = 0; k < nb; k++) at[k] = spread ? (u32)((all * (u64)k + rnd((u32)all)) / nb % all) : (u32)(st + k);
    if (spread) { int n = 0; for (int k = 0; k < nb; k++) if (!n || at[n - 1] < at[k]) at[n++] = at[k]; nb = n; }
    int D = nb + 65; u64 (*v)[3] = arena(sizeof(u64) * 3 * D);
    op("repeated randomisations");
    for (int d = 0; d < D; d++) { if (kind == PACKED) mzed_randomize(A->M); else mzd_slice_randomize(A->S); v[d][nb / 64] |= 1ull << nb % 64;
      for (int k = 0; k < nb; k++) { int q = at[k] / e, b = at[k] % e; el x = kind == PACKED ? mz_get(A->M, q / c, q % c) : sl_get(A->S, e, q / c, q % c); if (x >> b & 1) v[d][k / 64] ^= 1ull << k % 64; } }
    gm_check_frame(A); int rank = 0;
    for (int k = 0; k <= nb; k++) { int p = rank; while (p < D && !(v[p][k / 64] >> k % 64 & 1)) p++; if (p == D) viol("bit %d of element (%zu,%zu) is an affine combination of other element bits in each of %d randomisations", k < nb ? (int)(at[k] % e) : -1, k < nb ? at[k] / e / c : 0, k < nb ? at[k] / e % c : 0, D);
      for (int w = 0; w < 3; w++) { u64 t = v[p][w]; v[p][w] = v[rank][w]; v[rank][w] = t; }
      for (int q = rank + 1; q < D; q++) if (v[q][k / 64] >> k % 64 & 1) for (int w = 0; w < 3; w++) v[q][w] ^= v[rank][w];
      rank++; }
    ev("bit positions shown independent", nb);
  }
  gm_free(A); ff_done(ff);
}

/* ---------------- P27 ---------------- */
void p27(u64 idx) {
  rf_t f; int e = (int)(2 + idx % 15), kind = (int)(idx / 15 & 1); op("field"); const gf2e *ff = ff_make(&f, e, poly_pick(e));
  int r = 1 + rnd(12), c = pick_dim(&f, 70); extreme(&r, &c);
  desc("print %s %dx%d degree %d poly 0x%x", KN(kind), r, c, e, f.mp);
  sig(kind); sig(f.mp); sig(r); sig(c); nontrivial();
  RM *a = rm_gen(&f, r, c, -1); GM *A = gm_new("A", ff, &f, kind, gm_mode_mask(), a);
  fflush(stdout);
  int fd = memfd_create("out", 0), save = dup(1); if (fd < 0 || save < 0) { fprintf(stderr, "HARNESS: memfd\n"); _exit(9); }
  dup2(fd, 1); op("print");
  if (kind == PACKED) mzed_print(A->M); else mzd_slice_print(A->S);
  fflush(stdout); dup2(save, 1); close(save);
  off_t n = lseek(fd, 0, SEEK_END); char *s = arena(n + 1); if (pread(fd, s, n, 0) != n) _exit(9); close(fd);
  char *p = s;
  for (int i = 0; i < r; i++) {
    REQ(*p == '[', "row %d does not start with [ in: %.60s", i, p); p++;
    for (int j = 0; j < c; j++) { char *q; while (*p == ' ') p++; unsigned long v = strtoul(p, &q, 16); REQ(q > p && v == AT(a, i, j), "element (%d,%d) printed as %.*s, it is %x", i, j, (int)(q - p), p, AT(a, i, j)); REQ(*q == (j < c - 1 ? ' ' : ']'), "element (%d,%d) is followed by '%c'", i, j, *q); p = q; }
    REQ(*p == ']', "row %d does not end with ]", i); p++; REQ(*p == '\n', "no newline after row %d", i); p++;
  }
  REQ(!*p, "text after the last row: %.40s", p);
  gm_check_const(A);
  ev("printed elements compared", (u64)r * c);
  gm_free(A); ff_done(ff);
}

/* ---------------- P29 ---------------- */
void p29(u64 idx) {
  rf_t f; int e = (int)(2 + idx % 15), what = (int)(idx / 15 % 4); op("field"); const gf2e *ff = ff_make(&f, e, poly_pick(e));
  int big = !vt_valgrind;
  sig(what); sig(f.mp); nontrivial();
  if (what == 0) { /* Strassen */
    int lim = e >= 12 ? 40 : e >= 9 ? 100 : 180; if (vt_asan && lim > 110) lim = 110;
    int m = 1 + rnd(lim), k = 1 + rnd(lim), n = 1 + rnd(lim), acc = chance(50); if (big && e <= 8 && chance(60)) { m = 90 + rnd(110); k = 90 + rnd(110); n = 90 + rnd(110); }
    int sq = chance(12); if (sq) k = n = m; sig(m); sig(k); sig(n); sig(sq);
    desc("Strassen product %dx%d * %dx%d acc %d with several cutoffs, degree %d poly 0x%x", m, k, k, n, acc, e, f.mp);
    RM *a = rm_rand(&f, m, k), *b = sq ? a : rm_rand(&f, k, n), *c0 = rm_rand(&f, m, n), *w = rm_mul(&f, a, b); if (acc) w = rm_add(w, c0);
    GM *A = gm_new("A", ff, &f, PACKED, gm_mode_mask(), a), *B = sq ? A : gm_new("B", ff, &f, PACKED, gm_mode_mask(), b), *C = gm_new("C", ff, &f, PACKED, gm_mode_mask(), c0);
    int cut[5] = {0, 65, 65 + (int)rnd(40), 65 + (int)rnd(200), 1000000};
    for (int i = 0; i < 5; i++) {
      gm_set(C, c0); op("strassen with cutoff %d", cut[i]); sig(cut[i]);
      mzed_t *x = acc ? mzed_addmul_strassen(C->M, A->M, B->M, cut[i]) : mzed_mul_strassen(C->M, A->M, B->M, cut[i]);
      REQ(x == C->M, "destination not returned"); gm_out(C, w); gm_check_const(A); gm_check_const(B); ev("parameter settings compared", 1);
    }
    op("_mzed_strassen_cutoff"); rci_t d = _mzed_strassen_cutoff(C->M, A->M, B->M); REQ(d >= 1, "default cutoff is %d", (int)d);
    gm_free(A); if (!sq) gm_free(B); gm_free(C);
  } else if (what == 1) { /* triangular solves */
    int kind = chance(50) ? PACKED : SLICED, lower = chance(50), n = 1 + rnd(big ? 150 : 24), m = 1 + rnd(big ? 100 : 24); if (e >= 11) { n = 1 + n % 80; m = 1 + m % 40; }
    sig(kind); sig(lower); sig(n); sig(m);
    desc("%s triangular solve %s n=%d, %d right hand sides with several cutoffs, degree %d poly 0x%x", lower ? "lower" : "upper", KN(kind), n, m, e, f.mp);
    RM *t = rm_rand(&f, n, n), *b = rm_rand(&f, n, m); for (int i = 0; i < n; i++) if (!AT(t, i, i)) AT(t, i, i) = rf_rand_nz(&f);
    RM *w = rm_trsm(&f, t, b, lower); vt_edge_aligned = kind == SLICED;
    GM *T = gm_new("T", ff, &f, kind, gm_mode_mask(), t), *B = gm_new("B", ff, &f, kind, gm_mode_mask(), b);
    int cut[6] = {1, 2 + (int)rnd(20), 64, 65, 1 + (int)rnd(200), 1000000};
    for (int i = 0; i < 6; i++) { gm_set(B, b); op("solve with cutoff %d", cut[i]); run_trsm(kind, lower, 2, T, B, cut[i]); gm_out(B, w); gm_check_const(T); ev("parameter settings compared", 1); }
    gm_free(T); gm_free(B);
  } else { /* PLE and the echelon forms built on it */
    int kind = what == 2 ? PACKED : SLICED, r, c; elim_dims(&f, &r, &c); if (big && e <= 8 && chance(60)) c = 65 + rnd(150); if (r > 100) r = 1 + r % 100; if (e > 10 && c > 80) c = 1 + c % 80;
    RM *a = elim_matrix(&f, r, c), *w = rm_dup(a); int rank = rm_rref(&f, w, 1);
    sig(kind); sig(r); sig(c); sig(rank);
    desc("PLE %s %dx%d rank %d with several cutoffs, degree %d poly 0x%x", KN(kind), r, c, rank, e, f.mp);
    vt_edge_aligned = kind == SLICED; GM *A = gm_new("A", ff, &f, kind, gm_mode_mask(), a); vt_edge_aligned = 0;
    u64 tot = (u64)f.w * r * c; int cut[5] = {0, 1 + (int)rnd(64), 1 + (int)rnd(tot < 100000 ? tot : 100000), 100000000, -1}; RM *E0 = NULL;
    for (int i = 0; i < 5; i++) {
      gm_set(A, a); mzp_t *P = mzp_init(r), *Q = mzp_init(c);
      op("ple with cutoff %d", cut[i]); sig(cut[i]);
      rci_t g = cut[i] < 0 ? run_ple(kind == PACKED ? 3 : 5, A, P, Q, 0) : run_ple(kind == PACKED ? 2 : 4, A, P, Q, cut[i]);
      REQ(g == rank, "cutoff %d: rank %d, the rank is %d", cut[i], (int)g, rank);
      gm_check_frame(A);
      /* the pivot columns do not depend on the cutoff */
      for (int y = 0; y < rank; y++) { int p = 0; while (!AT(w, y, p)) p++; REQ(Q->values[y] == p, "cutoff %d: pivot column %d is %d, the rank profile has %d", cut[i], y, (int)Q->values[y], p); }
      /* E spans the row space: reducing it gives the unique reduced form */
      RM *le = gm_read(A), *E = rm_new(r, c); for (int y = 0; y < rank; y++) { AT(E, y, Q->values[y]) = 1; for (int x = Q->values[y] + 1; x < c; x++) AT(E, y, x) = AT(le, y, x); }
      rm_rref(&f, E, 1); int pi, pj; if (!rm_eq(E, w, &pi, &pj)) viol("cutoff %d: the echelon part does not span the row space of the input, (%d,%d) of its reduced form", cut[i], pi, pj);
      (void)E0; mzp_free(P); mzp_free(Q); ev("parameter settings compared", 1);
    }
    gm_free(A);
  }
  ff_done(ff);
}
