#include "vt.h"
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <errno.h>
#include <time.h>

u64 vt_s[4];
u64 vt_idx, vt_seed;
int vt_thorough, vt_asan, vt_valgrind, vt_big, vt_edge_aligned;
sigjmp_buf vt_jb;
volatile int vt_armed;

static u64 splitmix(u64 *x) { u64 z = (*x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
void rng_seed(u64 s) { for (int i = 0; i < 4; i++) vt_s[i] = splitmix(&s); }

/* ---------- arena ---------- */
static char *ar_base; static size_t ar_off, ar_cap = (size_t)3 << 30, ar_high;
void *arena(size_t n) {
  n = (n + 31) & ~(size_t)31;
  if (ar_off + n > ar_cap) { fprintf(stderr, "HARNESS: arena exhausted\n"); _exit(9); }
  void *p = ar_base + ar_off; ar_off += n; if (ar_off > ar_high) ar_high = ar_off;
  memset(p, 0, n);
  return p;
}
static void arena_reset(void) {
  if (ar_high > (64 << 20)) { madvise(ar_base, ar_high, MADV_DONTNEED); ar_high = 0; }
  ar_off = 0;
}

/* ---------- counters ---------- */
typedef struct { const char *name; u64 n; } ctr_t;
static ctr_t ctrs[256]; static int nctr;
void ev(const char *name, u64 n) {
  for (int i = 0; i < nctr; i++) if (ctrs[i].name == name || !strcmp(ctrs[i].name, name)) { ctrs[i].n += n; return; }
  if (nctr < 256) { ctrs[nctr].name = name; ctrs[nctr++].n = n; }
}
static u64 case_sig; static int case_nt;
void sig(u64 x) { u64 s = case_sig ^ (x + 0x9e3779b97f4a7c15ULL + (case_sig << 6) + (case_sig >> 2)); case_sig = splitmix(&s); }
void nontrivial(void) { case_nt = 1; }

/* ---------- progress / violations ---------- */
typedef struct { u64 idx; char desc[700]; char op[300]; char msg[1000]; int state; } prog_t;
static prog_t *prog; static prog_t prog_local;
void op(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(prog->op, sizeof prog->op, fmt, a); va_end(a); }
void desc(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(prog->desc, sizeof prog->desc, fmt, a); va_end(a); }
/* meta modes: run the workload of other properties and judge only one kind of event */
int vt_only; int vt_died; static int viol_kind; static sigjmp_buf skip_jb; static int skip_armed;
static void skip_case(void) { skip_armed = 0; vt_armed = 0; siglongjmp(skip_jb, 1); }
void viol(const char *fmt, ...) {
  if (skip_armed && ((vt_only == ONLY_FRAME && viol_kind != 1) || vt_only == ONLY_MEM || vt_only == ONLY_LEAK)) { viol_kind = 0; skip_case(); }
  va_list a; va_start(a, fmt); vsnprintf(prog->msg, sizeof prog->msg, fmt, a); va_end(a);
  prog->state = 3;
  fprintf(stderr, "VIOL case=%llu desc=[%s] op=[%s] msg=[%s]\n", (unsigned long long)prog->idx, prog->desc, prog->op, prog->msg);
  fflush(stderr);
  _exit(3);
}

/* ---------- allocation monitor ---------- */
static long a_blocks, a_bytes; static u64 a_total; static int a_in;
/* Recycling allocator (fast build only, off unless a workload asks for it): the most recently
 * released block of a fitting size is handed out again at once, so that state keyed by the address
 * of an object that is gone meets a new object at that address. */
int vt_recycle;
#ifdef VT_WRAP
#include <malloc.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
enum { NREC = 1024 };
static struct { void *p; size_t n; } rec[NREC]; static int nrec;
static void *rec_get(size_t n, int align) {
  for (int i = nrec - 1; i >= 0; i--) if (rec[i].n >= n && rec[i].n < n + 32 + align && (uintptr_t)rec[i].p % align == 0) { void *p = rec[i].p; nrec--; memmove(&rec[i], &rec[i + 1], sizeof rec[0] * (nrec - i)); ev("blocks recycled at once", 1); return p; }
  return NULL;
}
void *__wrap_malloc(size_t n) { void *p; if (vt_recycle && (p = rec_get(n, 16))) return p; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { void *p; if (vt_recycle && a * b < (1u << 22) && (p = rec_get(a * b, 16))) { memset(p, 0, a * b); return p; } return __real_calloc(a, b); }
int __real_posix_memalign(void **, size_t, size_t);
int __wrap_posix_memalign(void **q, size_t al, size_t n) { void *p; if (vt_recycle && (p = rec_get(n, (int)al))) { *q = p; return 0; } return __real_posix_memalign(q, al, n); }
void __wrap_free(void *p) {
  if (!p || !vt_recycle) { __real_free(p); return; }
  if (nrec == NREC) { for (int i = 0; i < NREC / 2; i++) __real_free(rec[i].p); nrec -= NREC / 2; memmove(rec, rec + NREC / 2, sizeof rec[0] * nrec); }
  rec[nrec].p = p; rec[nrec++].n = malloc_usable_size(p);
}
void vt_recycle_off(void) { vt_recycle = 0; for (int i = 0; i < nrec; i++) __real_free(rec[i].p); nrec = 0; }
#else
static void *rec_get(size_t n, int align) { (void)n; (void)align; return NULL; }
void vt_recycle_off(void) { vt_recycle = 0; }
#endif
#ifdef VT_ASAN
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern size_t __sanitizer_get_allocated_size(const volatile void *p);
static void h_malloc(const volatile void *p, size_t n) { (void)n; if (p && a_in == 0) { a_blocks++; a_bytes += (long)__sanitizer_get_allocated_size(p); a_total++; } }
static void h_free(const volatile void *p) { if (p && a_in == 0) { a_blocks--; a_bytes -= (long)__sanitizer_get_allocated_size(p); } }
void *m4ri_mmc_malloc(size_t s) { void *p = malloc(s ? s : 1); if (!p) { fprintf(stderr, "HARNESS: out of memory\n"); _exit(9); } return p; }
void m4ri_mmc_free(void *p, size_t s) { (void)s; free(p); }
#else
void *m4ri_mmc_malloc(size_t s) {
  void *p = vt_recycle ? rec_get(s, 64) : NULL;
  if (!p && posix_memalign(&p, 64, s ? s : 1)) { fprintf(stderr, "HARNESS: out of memory\n"); _exit(9); }
  a_blocks++; a_bytes += (long)s; a_total++;
  if (!vt_valgrind) memset(p, (int)(0xA5 ^ (a_total * 37)), s);
  return p;
}
void m4ri_mmc_free(void *p, size_t s) {
  if (p) { a_blocks--; a_bytes -= (long)s; if (!vt_valgrind) memset(p, 0x5A, s); }
  free(p);
}
#endif
void m4ri_mmc_cleanup(void) {}
long live_blocks(void) { return a_blocks; }
long live_bytes(void) { return a_bytes; }
u64 total_allocs(void) { return a_total; }

/* ---------- reference field ---------- */
static u32 rmod(u64 a, u32 p) {
  int d = 31 - __builtin_clz(p);
  while (a >> d) { int k = 63 - __builtin_clzll(a); a ^= (u64)p << (k - d); }
  return (u32)a;
}
static u64 rclmul(u32 a, u32 b) { u64 r = 0; for (int i = 0; i < 32; i++) if (b >> i & 1) r ^= (u64)a << i; return r; }
int poly_irreducible(u32 p) {
  /* p of degree d is irreducible iff it has no divisor of degree 1..d/2 */
  if (p < 2) return 0;
  int d = 31 - __builtin_clz(p);
  if (d == 1) return 1;
  for (u32 q = 2; (31 - __builtin_clz(q)) <= d / 2; q++) if (rmod(p, q) == 0) return 0;
  return 1;
}
u32 poly_pick(int e) {
  for (;;) { u32 p = (1u << e) | rnd(1u << e) | 1; if (poly_irreducible(p)) return p; }
}
static u32 *irr[17]; static int nirr[17];
static void irr_build(int e) {
  if (irr[e]) return;
  irr[e] = mmap(NULL, sizeof(u32) << 13, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (u32 p = 1u << e; p < 2u << e; p++) if (poly_irreducible(p)) irr[e][nirr[e]++] = p;
}
u32 poly_nth(int e, int n) { irr_build(e); return n < nirr[e] ? irr[e][n] : 0; }
int poly_count(int e) { irr_build(e); return nirr[e]; }
el rf_mul(const rf_t *f, u32 a, u32 b) { return (el)rmod(rclmul(a, b), f->mp); }
el rf_pow(const rf_t *f, u32 a, u64 n) { u32 r = 1; while (n) { if (n & 1) r = rf_mul(f, r, a); a = rf_mul(f, a, a); n >>= 1; } return (el)r; }
el rf_inv(const rf_t *f, u32 a) { return rf_pow(f, a, (1ull << f->e) - 2); }
el rf_rand_nz(const rf_t *f) { el x; do x = rf_rand(f); while (!x); return x; }
int f_w(int e) { return e <= 2 ? 2 : e <= 4 ? 4 : e <= 8 ? 8 : 16; }

/* ---------- reference matrices ---------- */
RM *rm_new(int r, int c) { RM *m = arena(sizeof *m); m->r = r; m->c = c; m->d = arena(sizeof(el) * ((size_t)r * c + 1)); return m; }
RM *rm_dup(const RM *a) { RM *m = rm_new(a->r, a->c); memcpy(m->d, a->d, sizeof(el) * (size_t)a->r * a->c); return m; }
RM *rm_rand(const rf_t *f, int r, int c) { RM *m = rm_new(r, c); size_t n = (size_t)r * c; for (size_t i = 0; i < n; i++) m->d[i] = rf_rand(f); return m; }
RM *rm_identity(int n) { RM *m = rm_new(n, n); for (int i = 0; i < n; i++) AT(m, i, i) = 1; return m; }
static void nib(const rf_t *f, el a, el T[4][16]) {
  u32 pw[16]; pw[0] = a;
  for (int i = 1; i < 16; i++) pw[i] = rmod((u64)pw[i - 1] << 1, f->mp);
  for (int k = 0; k < 4; k++) for (int v = 0; v < 16; v++) { u32 x = 0; for (int b = 0; b < 4; b++) if (v >> b & 1) x ^= pw[4 * k + b]; T[k][v] = (el)x; }
}
void rm_axpy(const rf_t *f, el *dst, const el *src, int n, el a) {
  if (!a) return;
  if (a == 1) { for (int j = 0; j < n; j++) dst[j] ^= src[j]; return; }
  el T[4][16]; nib(f, a, T);
  if (f->e <= 4) for (int j = 0; j < n; j++) dst[j] ^= T[0][src[j]];
  else if (f->e <= 8) for (int j = 0; j < n; j++) dst[j] ^= T[0][src[j] & 15] ^ T[1][src[j] >> 4];
  else for (int j = 0; j < n; j++) { el s = src[j]; dst[j] ^= T[0][s & 15] ^ T[1][s >> 4 & 15] ^ T[2][s >> 8 & 15] ^ T[3][s >> 12]; }
}
void rm_scal(const rf_t *f, el *dst, const el *src, int n, el a) {
  el T[4][16]; nib(f, a, T);
  for (int j = 0; j < n; j++) { el s = src[j]; dst[j] = T[0][s & 15] ^ T[1][s >> 4 & 15] ^ T[2][s >> 8 & 15] ^ T[3][s >> 12]; }
}
RM *rm_mul(const rf_t *f, const RM *a, const RM *b) {
  RM *m = rm_new(a->r, b->c);
  for (int i = 0; i < a->r; i++) for (int k = 0; k < a->c; k++) rm_axpy(f, rm_at(m, i, 0), rm_at(b, k, 0), b->c, AT(a, i, k));
  ev("reference products", 1);
  return m;
}
RM *rm_add(const RM *a, const RM *b) { RM *m = rm_dup(a); size_t n = (size_t)a->r * a->c; for (size_t i = 0; i < n; i++) m->d[i] ^= b->d[i]; return m; }
int rm_eq(const RM *a, const RM *b, int *pi, int *pj) {
  if (a->r != b->r || a->c != b->c) { *pi = *pj = -1; return 0; }
  for (int i = 0; i < a->r; i++) for (int j = 0; j < a->c; j++) if (AT(a, i, j) != AT(b, i, j)) { *pi = i; *pj = j; return 0; }
  return 1;
}
RM *rm_sub(const RM *a, int r0, int c0, int r1, int c1) {
  RM *m = rm_new(r1 - r0, c1 - c0);
  for (int i = 0; i < m->r; i++) memcpy(rm_at(m, i, 0), rm_at(a, r0 + i, c0), sizeof(el) * m->c);
  return m;
}
int rm_rref(const rf_t *f, RM *a, int full) {
  int r = 0;
  el *tmp = arena(sizeof(el) * (a->c + 1));
  for (int c = 0; c < a->c && r < a->r; c++) {
    int p = r; while (p < a->r && !AT(a, p, c)) p++;
    if (p == a->r) continue;
    if (p != r) { size_t n = sizeof(el) * a->c; memcpy(tmp, rm_at(a, p, 0), n); memcpy(rm_at(a, p, 0), rm_at(a, r, 0), n); memcpy(rm_at(a, r, 0), tmp, n); }
    el iv = rf_inv(f, AT(a, r, c));
    rm_scal(f, tmp, rm_at(a, r, 0), a->c, iv); memcpy(rm_at(a, r, 0), tmp, sizeof(el) * a->c);
    for (int i = full ? 0 : r + 1; i < a->r; i++) if (i != r && AT(a, i, c)) rm_axpy(f, rm_at(a, i, 0), rm_at(a, r, 0), a->c, AT(a, i, c));
    r++;
  }
  return r;
}
RM *rm_invertible(const rf_t *f, int n) {
  /* product of unit lower, diagonal and unit upper with a row permutation: invertible by construction */
  RM *l = rm_new(n, n), *u = rm_new(n, n);
  for (int i = 0; i < n; i++) { AT(l, i, i) = 1; AT(u, i, i) = rf_rand_nz(f); for (int j = 0; j < i; j++) AT(l, i, j) = rf_rand(f); for (int j = i + 1; j < n; j++) AT(u, i, j) = rf_rand(f); }
  RM *m = rm_mul(f, l, u);
  for (int i = n - 1; i > 0; i--) { int k = rnd(i + 1); for (int j = 0; j < n; j++) { el t = AT(m, i, j); AT(m, i, j) = AT(m, k, j); AT(m, k, j) = t; } }
  return m;
}
RM *rm_rank_exact(const rf_t *f, int r, int c, int rank) {
  /* L (r x rank) with an invertible rank x rank row-block times R (rank x c) likewise */
  if (rank == 0) return rm_new(r, c);
  RM *L = rm_rand(f, r, rank), *R = rm_rand(f, rank, c);
  RM *li = rm_invertible(f, rank), *ri = rm_invertible(f, rank);
  /* choose rank distinct rows of L / columns of R for the invertible block */
  int *pr = arena(sizeof(int) * r), *pc = arena(sizeof(int) * c);
  for (int i = 0; i < r; i++) pr[i] = i;
  for (int i = 0; i < c; i++) pc[i] = i;
  for (int i = 0; i < rank; i++) { int k = i + rnd(r - i); int t = pr[i]; pr[i] = pr[k]; pr[k] = t; k = i + rnd(c - i); t = pc[i]; pc[i] = pc[k]; pc[k] = t; }
  for (int i = 0; i < rank; i++) for (int j = 0; j < rank; j++) { AT(L, pr[i], j) = AT(li, i, j); AT(R, j, pc[i]) = AT(ri, j, i); }
  return rm_mul(f, L, R);
}
RM *rm_gen(const rf_t *f, int r, int c, int kind) {
  if (kind < 0) { kind = chance(45) ? G_UNIFORM : (int)rnd(G_NKINDS); }
  RM *m;
  switch (kind) {
  case G_SPARSE: { m = rm_new(r, c); size_t n = (size_t)r * c; u32 den = 2 + rnd(40); for (size_t i = 0; i < n; i++) if (!rnd(den)) m->d[i] = rf_rand(f); return m; }
  case G_LOWRANK: { int mx = r < c ? r : c; if (!mx) return rm_new(r, c); int k = rnd(mx + 1); if (k > 24 && chance(70)) k = rnd(24); RM *a = rm_rand(f, r, k), *b = rm_rand(f, k, c); return rm_mul(f, a, b); }
  case G_ZERO: return rm_new(r, c);
  case G_BITS: { m = rm_new(r, c); size_t n = (size_t)r * c; int b = rnd(f->e); for (size_t i = 0; i < n; i++) m->d[i] = (el)((rng() >> 60 & 1) << b); return m; }
  case G_STAIR: { /* echelon staircase with gaps, then row mixing */
    m = rm_new(r, c); int row = 0; for (int j = 0; j < c && row < r; j++) if (chance(60)) { AT(m, row, j) = rf_rand_nz(f); for (int k = j + 1; k < c; k++) AT(m, row, k) = rf_rand(f); row++; }
    for (int i = 1; i < r; i++) { int k = rnd(r); if (k != i) rm_axpy(f, rm_at(m, i, 0), rm_at(m, k, 0), c, rf_rand(f)); }
    return m; }
  case G_DUP: { m = rm_rand(f, r, c); for (int i = 1; i < r; i++) if (chance(50)) { int k = rnd(i); rm_scal(f, rm_at(m, i, 0), rm_at(m, k, 0), c, rf_rand(f)); }
    for (int j = 0; j < c; j++) if (chance(15)) { int k = rnd(c); for (int i = 0; i < r; i++) AT(m, i, j) = chance(50) ? 0 : AT(m, i, k); } return m; }
  case G_ONESCALAR: { m = rm_new(r, c); el v = chance(50) ? (el)((1u << f->e) - 1) : rf_rand_nz(f); size_t n = (size_t)r * c; for (size_t i = 0; i < n; i++) m->d[i] = v; return m; }
  case G_BLOCK: { m = rm_new(r, c); if (!r || !c) return m; for (int k = 0; k < 3; k++) { int r0 = rnd(r), c0 = rnd(c), r1 = r0 + 1 + rnd(r - r0), c1 = c0 + 1 + rnd(c - c0); for (int i = r0; i < r1; i++) for (int j = c0; j < c1; j++) AT(m, i, j) = rf_rand(f); } return m; }
  default: return rm_rand(f, r, c);
  }
}

/* ---------- raw access ---------- */
el mz_get(const mzed_t *A, int i, int j) {
  int w = f_w(A->finite_field->degree); size_t bit = (size_t)j * w; u64 x = A->x->rows[i][bit / 64];
  return (el)(x >> (bit % 64) & ((1ull << w) - 1));
}
void mz_put(mzed_t *A, int i, int j, el v) {
  int w = f_w(A->finite_field->degree); size_t bit = (size_t)j * w; u64 *p = (u64 *)&A->x->rows[i][bit / 64];
  u64 mask = ((1ull << w) - 1) << (bit % 64);
  *p = (*p & ~mask) | ((u64)v << (bit % 64));
}
el sl_get(const mzd_slice_t *A, int depth, int i, int j) {
  el v = 0; for (int b = 0; b < depth; b++) v |= (el)((A->x[b]->rows[i][j / 64] >> (j % 64) & 1) << b); return v;
}
void sl_put(mzd_slice_t *A, int depth, int i, int j, el v) {
  for (int b = 0; b < depth; b++) { word *p = &A->x[b]->rows[i][j / 64]; *p = (*p & ~(1ull << (j % 64))) | ((u64)(v >> b & 1) << (j % 64)); }
}

/* ---------- guarded operands ---------- */
static int gm_nmats(const GM *g) { return g->kind == PACKED ? 1 : g->depth; }
static mzd_t *gm_par(const GM *g, int k) { return g->kind == PACKED ? g->Mp->x : g->Sp->x[k]; }
static size_t gm_words(const GM *g) { mzd_t *p = gm_par(g, 0); return (size_t)p->nrows * p->rowstride; }
void gm_snap(GM *g) {
  size_t n = gm_words(g);
  if (!g->snap) g->snap = arena(8 * (n * gm_nmats(g) + 1));
  for (int k = 0; k < gm_nmats(g); k++) { mzd_t *p = gm_par(g, k); for (int i = 0; i < p->nrows; i++) memcpy(g->snap + k * n + (size_t)i * p->rowstride, p->rows[i], 8 * (size_t)p->rowstride); }
}
GM *gm_new(const char *name, const gf2e *ff, const rf_t *f, int kind, int mode, const RM *v) {
  GM *g = arena(sizeof *g);
  g->name = name; g->kind = kind; g->mode = mode; g->r = v->r; g->c = v->c; g->ff = ff; g->f = *f; g->depth = f->e;
  int align = kind == PACKED ? 64 / f->w : 64;
  int pr = v->r, pc = v->c;
  if (mode == WINDOW) {
    g->lr = rnd(4); g->lc = align * (int)rnd(3);
    pr += g->lr + rnd(4); pc += g->lc;
    if (vt_edge_aligned) { if (v->c % align == 0) pc += align * (int)rnd(3); }
    else if (chance(70)) pc += 1 + rnd(2 * align);
    /* a 0x0-sized parent is not interesting */
  }
  if (kind == PACKED) {
    g->Mp = mzed_init(ff, pr, pc);
    if (mode == WINDOW) {
      for (int i = 0; i < pr; i++) for (int j = 0; j < pc; j++) mz_put(g->Mp, i, j, rf_rand(f));
      g->M = mzed_init_window(g->Mp, g->lr, g->lc, g->lr + g->r, g->lc + g->c);
    } else g->M = g->Mp;
    for (int i = 0; i < g->r; i++) for (int j = 0; j < g->c; j++) mz_put(g->Mp, g->lr + i, g->lc + j, AT(v, i, j));
  } else {
    g->Sp = mzd_slice_init(ff, pr, pc);
    if (mode == WINDOW) {
      for (int i = 0; i < pr; i++) for (int j = 0; j < pc; j++) sl_put(g->Sp, g->depth, i, j, rf_rand(f));
      g->S = mzd_slice_init_window(g->Sp, g->lr, g->lc, g->lr + g->r, g->lc + g->c);
    } else g->S = g->Sp;
    for (int i = 0; i < g->r; i++) for (int j = 0; j < g->c; j++) sl_put(g->Sp, g->depth, g->lr + i, g->lc + j, AT(v, i, j));
  }
  gm_snap(g);
  ev(mode == WINDOW ? "guarded window operands" : "guarded owned operands", 1);
  return g;
}
GM *gm_wrap_m(const char *name, const gf2e *ff, const rf_t *f, mzed_t *M) {
  GM *g = arena(sizeof *g); g->name = name; g->kind = PACKED; g->mode = OWNED; g->r = M->nrows; g->c = M->ncols; g->ff = ff; g->f = *f; g->depth = f->e; g->M = g->Mp = M;
  gm_snap(g); return g;
}
GM *gm_wrap_s(const char *name, const gf2e *ff, const rf_t *f, mzd_slice_t *S) {
  GM *g = arena(sizeof *g); g->name = name; g->kind = SLICED; g->mode = OWNED; g->r = S->nrows; g->c = S->ncols; g->ff = ff; g->f = *f; g->depth = f->e; g->S = g->Sp = S;
  gm_snap(g); return g;
}
RM *gm_read(const GM *g) {
  RM *m = rm_new(g->r, g->c);
  for (int i = 0; i < g->r; i++) for (int j = 0; j < g->c; j++) AT(m, i, j) = g->kind == PACKED ? mz_get(g->M, i, j) : sl_get(g->S, g->depth, i, j);
  return m;
}
void gm_set(GM *g, const RM *v) {
  for (int i = 0; i < g->r; i++) for (int j = 0; j < g->c; j++) { if (g->kind == PACKED) mz_put(g->M, i, j, AT(v, i, j)); else sl_put(g->S, g->depth, i, j, AT(v, i, j)); }
  gm_snap(g);
}
void gm_check_const(const GM *g) {
  size_t n = gm_words(g);
  for (int k = 0; k < gm_nmats(g); k++) {
    mzd_t *p = gm_par(g, k);
    for (int i = 0; i < p->nrows; i++) {
      const u64 *s = g->snap + k * n + (size_t)i * p->rowstride;
      if (memcmp(s, p->rows[i], 8 * (size_t)p->rowstride)) {
        int j = 0; while (s[j] == p->rows[i][j]) j++;
        viol_kind = 1;
        viol("operand %s (%s %s %dx%d) must be left untouched but row %d word %d of its storage changed %016llx -> %016llx", g->name, KN(g->kind), MN(g->mode), g->r, g->c, i - g->lr, j, (unsigned long long)s[j], (unsigned long long)p->rows[i][j]);
      }
    }
  }
  ev("input operands verified unchanged", 1);
}
void gm_check_frame(const GM *g) {
  size_t n = gm_words(g);
  int w = g->kind == PACKED ? g->f.w : 1, vb = g->kind == PACKED ? g->f.e : 1;
  u64 em = 0; for (int b = 0; b < 64; b += w) em |= ((1ull << vb) - 1) << b; /* valid element bits */
  size_t b0 = (size_t)g->lc * w, b1 = (size_t)(g->lc + g->c) * w;
  for (int k = 0; k < gm_nmats(g); k++) {
    mzd_t *p = gm_par(g, k);
    for (int i = 0; i < p->nrows; i++) {
      const u64 *s = g->snap + k * n + (size_t)i * p->rowstride; const word *q = p->rows[i];
      int inrow = i >= g->lr && i < g->lr + g->r;
      for (int j = 0; j < p->rowstride; j++) {
        u64 in = 0; size_t wb = (size_t)j * 64;
        if (inrow && b1 > wb && b0 < wb + 64 && b0 < b1) {
          in = ~0ull; if (b0 > wb) in &= ~0ull << (b0 - wb); if (b1 < wb + 64) in &= ~0ull >> (wb + 64 - b1);
        }
        if ((s[j] ^ q[j]) & ~in) viol_kind = 1, viol("write outside the destination view of %s (%s %s %dx%d at +%d+%d): row %d word %d changed %016llx -> %016llx, view bits %016llx", g->name, KN(g->kind), MN(g->mode), g->r, g->c, g->lr, g->lc, i, j, (unsigned long long)s[j], (unsigned long long)q[j], (unsigned long long)in);
        if (q[j] & in & ~em) viol("result element of %s (%s %dx%d) is not reduced: row %d word %d = %016llx has bits above degree %d", g->name, KN(g->kind), g->r, g->c, i, j, (unsigned long long)q[j], g->f.e);
      }
    }
  }
  ev("destination frames verified", 1);
}
void gm_check_val(const GM *g, const RM *want) {
  int i, j;
  REQ(g->r == want->r && g->c == want->c, "result %s has dimensions %dx%d, expected %dx%d", g->name, g->r, g->c, want->r, want->c);
  if (g->kind == PACKED) REQ(g->M->nrows == g->r && g->M->ncols == g->c, "header of %s changed", g->name);
  else REQ(g->S->nrows == g->r && g->S->ncols == g->c, "header of %s changed", g->name);
  RM *got = gm_read(g);
  if (!rm_eq(got, want, &i, &j)) viol("result %s (%s %s %dx%d) differs from the reference at (%d,%d): got %x, expected %x", g->name, KN(g->kind), MN(g->mode), g->r, g->c, i, j, AT(got, i, j), AT(want, i, j));
  ev("result elements compared", (u64)g->r * g->c);
}
void gm_free(GM *g) {
  if (g->kind == PACKED) { if (g->mode == WINDOW) mzed_free_window(g->M); mzed_free(g->Mp); }
  else { if (g->mode == WINDOW) mzd_slice_free_window(g->S); mzd_slice_free(g->Sp); }
}
int gm_mode_mask(void) { return chance(vt_only == ONLY_FRAME ? 80 : 45) ? WINDOW : OWNED; }

/* ---------- fields and shapes ---------- */
const gf2e *ff_make(rf_t *f, int e, u32 poly) { f->e = e; f->w = f_w(e); f->mp = poly; return gf2e_init(poly); }
void ff_done(const gf2e *ff) { gf2e_free((gf2e *)ff); }
int pick_e(int lo, int hi) { return rng_range(lo, hi); }
int extreme(int *a, int *b) {
  if (vt_valgrind) return 0;
  int x = rnd(100);
  if (x >= 7) return 0;
  if (x >= 2) { /* one dimension of several words or row blocks, the other one moderate */
    int d = 64 + (int)rnd(chance(50) ? 200 : 600), o = 1 + (int)rnd(chance(50) ? 10 : 60);
    if (chance(40)) d = 64 * (2 + d / 64) + (int)rnd(3) - 1;
    if (chance(50)) { *a = o; *b = d; } else { *a = d; *b = o; }
    ev("long shapes", 1); return 1;
  }
  int big = 300 + rnd(vt_asan ? 2200 : 6000), small = 1 + rnd(6);
  if (chance(40)) big = 64 * (big / 64) + (int)rnd(3) - 1;
  if (chance(65)) { *a = small; *b = big; } else { *a = big; *b = small; }
  ev("extreme shapes", 1); return 1;
}
int pick_dim(const rf_t *f, int max) {
  int epw = 64 / f->w, d;
  switch (rnd(8)) {
  case 0: d = 1 + rnd(4); break;
  case 1: d = 1 + rnd(20); break;
  case 2: d = epw * (1 + (int)rnd(4)) + (int)rnd(3) - 1; break;
  case 3: d = 64 * (1 + (int)rnd(3)) + (int)rnd(3) - 1; break;
  case 4: d = 1 + rnd(70); break;
  case 5: d = 1 + rnd(max); break;
  case 6: d = max - (int)rnd(3); break;
  default: d = 1 + rnd(max < 130 ? max : 130); break;
  }
  if (d < 1) d = 1;
  if (d > max) d = 1 + d % max;
  return d;
}

/* ---------- driver ---------- */
static void on_abrt(int s) {
  (void)s;
  if (vt_armed) { vt_armed = 0; vt_died = 1; siglongjmp(vt_jb, 1); }
  if (skip_armed && (vt_only == ONLY_FRAME || vt_only == ONLY_LEAK)) skip_case();
  prog->state = 6;
  snprintf(prog->msg, sizeof prog->msg, "the library called abort() (fatal error or failed assertion) on operands that satisfy the documented preconditions");
  _exit(6);
}
static void on_prof(int s) { (void)s; prog->state = 4; snprintf(prog->msg, sizeof prog->msg, "no result within the CPU budget of the case (endless loop or recursion)"); _exit(4); }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static u64 case_seed(const char *id, u64 i) {
  u64 h = 1469598103934665603ULL; for (const char *c = id; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ULL;
  return h ^ (vt_seed * 0x9e3779b97f4a7c15ULL) ^ (i * 0xd1342543de82ef95ULL) ^ (vt_big ? 0x5bd1e995u : 0);
}
/* returns 0 if the case was left because of an event that another check judges */
static int one_case(case_fn fn, const char *id, u64 i, int cpu) {
  rng_seed(case_seed(id, i));
  srandom((unsigned)rng()); srand((unsigned)rng());
  arena_reset(); case_sig = 0; case_nt = 0; vt_edge_aligned = 0; vt_died = 0; viol_kind = 0;
  if (vt_only) { for (const char *c = id; *c; c++) sig((u64)*c); }
  struct itimerval it = {{0, 0}, {cpu, 0}}; setitimer(ITIMER_PROF, &it, NULL);
  if (vt_only) {
    if (sigsetjmp(skip_jb, 1)) { ev("cases left to another check", 1); return 0; }
    skip_armed = 1; fn(i); skip_armed = 0;
  } else fn(i);
  return 1;
}
/* the same case again and again must leave the number of live allocations where it was */
static void leak_case(case_fn fn, const char *id, u64 i, int cpu) {
  long b0, b1, b2;
  for (int k = 0; k < 2; k++) if (!one_case(fn, id, i, cpu) || vt_died) { ev("cases ending in a fatal error (not judged)", 1); return; }
  b0 = live_blocks(); if (!one_case(fn, id, i, cpu)) return;
  b1 = live_blocks(); ev("repetitions compared", 1); if (b1 <= b0) return;
  /* growth: caches may grow once, a leak grows every time */
  for (int k = 0; k < 40; k++) if (!one_case(fn, id, i, cpu)) return;
  b2 = live_blocks();
  if (b2 - b0 >= 40) { snprintf(prog->op, sizeof prog->op, "repeating the whole case, every object released in between"); vt_only = 0; viol("memory leak: %ld blocks are live before, %ld after one more repetition and %ld after 41 repetitions of the case", b0, b1, b2); }
}

int main(int argc, char **argv) {
  const char *id = NULL, *mix = NULL, *progf = NULL, *out = NULL; u64 start = 0, stride = 1, count = 1; double deadline = 1e9; int cpu = 150;
  for (int i = 1; i < argc; i++) {
    char *a = argv[i]; char *v = i + 1 < argc ? argv[i + 1] : "";
    if (!strcmp(a, "--prop")) id = v, i++;
    else if (!strcmp(a, "--seed")) vt_seed = strtoull(v, 0, 10), i++;
    else if (!strcmp(a, "--start")) start = strtoull(v, 0, 10), i++;
    else if (!strcmp(a, "--stride")) stride = strtoull(v, 0, 10), i++;
    else if (!strcmp(a, "--count")) count = strtoull(v, 0, 10), i++;
    else if (!strcmp(a, "--deadline")) deadline = atof(v), i++;
    else if (!strcmp(a, "--cpu")) cpu = atoi(v), i++;
    else if (!strcmp(a, "--progress")) progf = v, i++;
    else if (!strcmp(a, "--out")) out = v, i++;
    else if (!strcmp(a, "--thorough")) vt_thorough = 1;
    else if (!strcmp(a, "--mix")) mix = v, i++;
    else if (!strcmp(a, "--only")) { vt_only = !strcmp(v, "frame") ? ONLY_FRAME : !strcmp(v, "mem") ? ONLY_MEM : !strcmp(v, "leak") ? ONLY_LEAK : 0; i++; if (!vt_only) return 9; }
    else if (!strcmp(a, "--big")) vt_big = 1;
    else if (!strcmp(a, "--valgrind")) vt_valgrind = 1;
    else { fprintf(stderr, "bad arg %s\n", a); return 9; }
  }
#ifdef VT_ASAN
  vt_asan = 1;
  __sanitizer_install_malloc_and_free_hooks(h_malloc, h_free);
#endif
  struct { case_fn fn; const char *id; char ev[40]; } fns[64]; int nfn = 0;
  for (char *q = strdup(mix ? mix : id ? id : ""), *t; (t = strsep(&q, ",")) && nfn < 64;) {
    for (const prop_t *p = PROPS; p->id; p++) if (!strcmp(p->id, t)) { fns[nfn].fn = p->fn; fns[nfn].id = p->id; snprintf(fns[nfn].ev, 40, "workload %s: cases", p->id); nfn++; t = NULL; break; }
    if (t) { fprintf(stderr, "unknown property %s\n", t); return 9; }
  }
  if (!nfn) return 9;
  prog = &prog_local;
  if (progf) { int fd = open(progf, O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, sizeof(prog_t))) return 9; prog = mmap(NULL, sizeof(prog_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
  if (vt_valgrind) ar_cap = (size_t)512 << 20;
  ar_base = mmap(NULL, ar_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (ar_base == MAP_FAILED) return 9;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_abrt; sa.sa_flags = SA_NODEFER; sigaction(SIGABRT, &sa, NULL);
  sa.sa_handler = on_prof; sigaction(SIGPROF, &sa, NULL);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (vt_only == ONLY_LEAK) { /* fill m4ri's cache of matrix headers, so that every further header is a malloc() of its own */
    mzd_t *d = mzd_init(1, 64); for (int i = 0; i < 3000; i++) mzd_init_window(d, 0, 0, 1, 64);
    long b = live_blocks(); mzd_t *w = mzd_init_window(d, 0, 0, 1, 64);
    if (live_blocks() <= b) { fprintf(stderr, "HARNESS: header allocations are not observable\n"); return 9; }
    mzd_free(w);
  }
  u64 *sigs = NULL; size_t nsig = 0, capsig = 0; u64 done = 0, nt = 0; double t0 = now();
  for (u64 i = start; i < count; i += stride) {
    if (now() - t0 > deadline) break;
    prog->idx = i; prog->desc[0] = prog->op[0] = 0; prog->state = 1;
    int k = (int)(i % nfn); u64 ci = i / nfn; vt_idx = ci;
    if (nfn > 1) ev(fns[k].ev, 1);
    if (vt_only == ONLY_LEAK) leak_case(fns[k].fn, fns[k].id, ci, cpu); else one_case(fns[k].fn, fns[k].id, ci, cpu);
    done++;
    if (case_nt) { nt++; if (nsig == capsig) { a_in = 1; capsig = capsig ? 2 * capsig : 1024; sigs = realloc(sigs, 8 * capsig); a_in = 0; } sigs[nsig++] = case_sig; }
  }
  prog->state = 2;
  if (out) {
    FILE *f = fopen(out, "w");
    fprintf(f, "{\"done\":%llu,\"nontrivial\":%llu,\"wall\":%.3f,\"events\":{", (unsigned long long)done, (unsigned long long)nt, now() - t0);
    for (int i = 0; i < nctr; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", ctrs[i].name, (unsigned long long)ctrs[i].n);
    fprintf(f, "},\"last\":\"%s\"}\n", prog->desc);
    fclose(f);
    char b[600]; snprintf(b, sizeof b, "%s.sig", out); f = fopen(b, "wb"); fwrite(sigs, 8, nsig, f); fclose(f);
  }
  exit(0);
}
