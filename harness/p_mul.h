#ifndef P_MUL_H
#define P_MUL_H
#define NALG_P 9
#define NALG_S 5
extern const char *ALG_P[NALG_P], *ALG_S[NALG_S];
mzed_t *run_packed(int alg, int acc, mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff);
mzd_slice_t *run_sliced(int alg, int acc, mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B, blm_t *f);
int freivalds(const rf_t *f, const RM *a, const RM *b, const RM *c0, const RM *c, int reps, int *row);
void pick_mul_shape(const rf_t *f, int *m, int *k, int *n);
#endif
