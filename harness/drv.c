/* Thin C wrappers around the package's libraries, so that a Python process (running under the
   sanitizers) can drive them without knowing structure layouts.  No logic of its own beyond
   marshalling: the oracles are elsewhere. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "config.h"
#include <check.h>
#include <mpiglue.h>
#include <mpi_utils.h>
#include <matrices.h>
#include <blasglue.h>
#include <eigensolver.h>
#include <linmin.h>
#include <matrixio.h>
#include <maxwell.h>
#include <verbosity.h>

int drv_scalar_size(void) { return (int) (sizeof(scalar) / sizeof(real)); }
int drv_hermitian(void) {
#ifdef WITH_HERMITIAN_EPSILON
     return 1;
#else
     return 0;
#endif
}
void drv_verbosity(int v) { mpb_verbosity = v; }

/* ---------------------------------------------------------------- band sets */
evectmatrix *drv_ev_create(int N, int c, int p, int localN, int Nstart, int allocN) {
     evectmatrix *e = (evectmatrix *) malloc(sizeof(evectmatrix));
     *e = create_evectmatrix(N, c, p, localN, Nstart, allocN);
     return e;
}
void drv_ev_destroy(evectmatrix *e) { destroy_evectmatrix(*e); free(e); }
int drv_ev_info(evectmatrix *e, int *out) {
     out[0] = e->N; out[1] = e->localN; out[2] = e->Nstart; out[3] = e->allocN;
     out[4] = e->c; out[5] = e->n; out[6] = e->p; out[7] = e->alloc_p;
     return 8;
}
void drv_ev_set(evectmatrix *e, const double *v) { memcpy(e->data, v, sizeof(scalar) * e->n * e->p); }
void drv_ev_get(evectmatrix *e, double *v) { memcpy(v, e->data, sizeof(scalar) * e->n * e->p); }
void drv_ev_resize(evectmatrix *e, int p, int preserve) { evectmatrix_resize(e, p, (short) preserve); }
void drv_ev_copy(evectmatrix *x, evectmatrix *y) { evectmatrix_copy(*x, *y); }
void drv_ev_copy_slice(evectmatrix *x, evectmatrix *y, int ix, int iy, int p) { evectmatrix_copy_slice(*x, *y, ix, iy, p); }
void drv_ev_aXpbY(double a, evectmatrix *x, double b, evectmatrix *y) { evectmatrix_aXpbY(a, *x, b, *y); }

sqmatrix *drv_sq_create(int p) { sqmatrix *s = (sqmatrix *) malloc(sizeof(sqmatrix)); *s = create_sqmatrix(p); return s; }
void drv_sq_destroy(sqmatrix *s) { destroy_sqmatrix(*s); free(s); }
void drv_sq_set(sqmatrix *s, const double *v) { memcpy(s->data, v, sizeof(scalar) * s->p * s->p); }
void drv_sq_get(sqmatrix *s, double *v) { memcpy(v, s->data, sizeof(scalar) * s->p * s->p); }
int drv_sq_p(sqmatrix *s) { return s->p; }
void drv_sq_resize(sqmatrix *s, int p, int preserve) { sqmatrix_resize(s, p, (short) preserve); }

void drv_ev_aXpbYS_sub(double a, evectmatrix *x, double b, evectmatrix *y, sqmatrix *s, int so, int dag) { evectmatrix_aXpbYS_sub(a, *x, b, *y, *s, so, (short) dag); }
void drv_ev_XeYS(evectmatrix *x, evectmatrix *y, sqmatrix *s, int sherm) { evectmatrix_XeYS(*x, *y, *s, (short) sherm); }
void drv_ev_XpaYS(evectmatrix *x, double a, evectmatrix *y, sqmatrix *s, int dag) { evectmatrix_XpaYS(*x, a, *y, *s, (short) dag); }
void drv_ev_XtX(sqmatrix *u, evectmatrix *x, sqmatrix *s) { evectmatrix_XtX(*u, *x, *s); }
void drv_ev_XtY(sqmatrix *u, evectmatrix *x, evectmatrix *y, sqmatrix *s) { evectmatrix_XtY(*u, *x, *y, *s); }
void drv_ev_XtY_slice(sqmatrix *u, evectmatrix *x, evectmatrix *y, int ix, int iy, int p, sqmatrix *s) { evectmatrix_XtY_slice(*u, *x, *y, ix, iy, p, *s); }
void drv_ev_XtY_slice2(sqmatrix *u, evectmatrix *x, evectmatrix *y, int ix, int iy, int p, int q, int iu, sqmatrix *s1, sqmatrix *s2) { evectmatrix_XtY_slice2(*u, *x, *y, ix, iy, p, q, iu, *s1, *s2); }
void drv_ev_XtY_sub(sqmatrix *u, int uo, evectmatrix *x, evectmatrix *y, sqmatrix *s) { evectmatrixXtY_sub(*u, uo, *x, *y, *s); }
void drv_ev_XtY_diag(evectmatrix *x, evectmatrix *y, double *d, double *scr) { evectmatrix_XtY_diag(*x, *y, (scalar *) d, (scalar *) scr); }
void drv_ev_XtY_diag_real(evectmatrix *x, evectmatrix *y, double *d, double *scr) { evectmatrix_XtY_diag_real(*x, *y, d, scr); }
void drv_ev_XtX_diag_real(evectmatrix *x, double *d, double *scr) { evectmatrix_XtX_diag_real(*x, d, scr); }
void drv_ev_traceXtY(evectmatrix *x, evectmatrix *y, double *out) {
     scalar t = evectmatrix_traceXtY(*x, *y); out[0] = SCALAR_RE(t); out[1] = SCALAR_IM(t);
}

void drv_sq_copy(sqmatrix *a, sqmatrix *b) { sqmatrix_copy(*a, *b); }
void drv_sq_copy_upper2full(sqmatrix *f, sqmatrix *u) { sqmatrix_copy_upper2full(*f, *u); }
void drv_sq_symmetrize(sqmatrix *f, sqmatrix *u) { sqmatrix_symmetrize(*f, *u); }
void drv_sq_trace(sqmatrix *u, double *o) { scalar t = sqmatrix_trace(*u); o[0] = SCALAR_RE(t); o[1] = SCALAR_IM(t); }
void drv_sq_traceAtB(sqmatrix *a, sqmatrix *b, double *o) { scalar t = sqmatrix_traceAtB(*a, *b); o[0] = SCALAR_RE(t); o[1] = SCALAR_IM(t); }
void drv_sq_AeBC(sqmatrix *a, sqmatrix *b, int bd, sqmatrix *c, int cd) { sqmatrix_AeBC(*a, *b, (short) bd, *c, (short) cd); }
void drv_sq_ApaBC(sqmatrix *a, double x, sqmatrix *b, int bd, sqmatrix *c, int cd) { sqmatrix_ApaBC(*a, x, *b, (short) bd, *c, (short) cd); }
void drv_sq_ApaB(sqmatrix *a, double x, sqmatrix *b) { sqmatrix_ApaB(*a, x, *b); }
void drv_sq_aApbB(double a, sqmatrix *A, double b, sqmatrix *B) { sqmatrix_aApbB(a, *A, b, *B); }
int drv_sq_invert(sqmatrix *u, int pd, sqmatrix *w) { return sqmatrix_invert(*u, (short) pd, *w); }
void drv_sq_eigensolve(sqmatrix *u, double *e, sqmatrix *w) { sqmatrix_eigensolve(*u, e, *w); }
void drv_sq_gen_eigensolve(sqmatrix *u, sqmatrix *b, double *e, sqmatrix *w) { sqmatrix_gen_eigensolve(*u, *b, e, *w); }
void drv_sq_eigenvalues(sqmatrix *a, double *e) { sqmatrix_eigenvalues(*a, (scalar_complex *) e); }
void drv_sq_sqrt(sqmatrix *us, sqmatrix *u, sqmatrix *w) { sqmatrix_sqrt(*us, *u, *w); }

/* diagonal kernels; arrays of scalars are passed as arrays of doubles */
void drv_XtY_diag(double *x, double *y, int n, int p, double *d) { matrix_XtY_diag((scalar *) x, (scalar *) y, n, p, (scalar *) d); }
void drv_XtY_diag_real(double *x, double *y, int n, int p, double *d) { matrix_XtY_diag_real((scalar *) x, (scalar *) y, n, p, d); }
void drv_XtX_diag_real(double *x, int n, int p, double *d) { matrix_XtX_diag_real((scalar *) x, n, p, d); }
void drv_XpaY_diag(double *x, double a, double *y, double *d, int n, int p) { matrix_XpaY_diag((scalar *) x, a, (scalar *) y, (scalar *) d, n, p); }
void drv_XpaY_diag_real(double *x, double a, double *y, double *d, int n, int p) { matrix_XpaY_diag_real((scalar *) x, a, (scalar *) y, d, n, p); }
void drv_X_diag_pY_diag(double *x, double *d1, double *y, double *d2, int n, int p) { matrix_X_diag_real_pY_diag_real((scalar *) x, d1, (scalar *) y, d2, n, p); }
double drv_re_trace_A_diag(double *a, double *d, int p) { return matrix_re_trace_A_diag_real((scalar *) a, d, p); }
void drv_diag_trace(double *d, int p, double *o) { scalar t = matrix_diag_trace((scalar *) d, p); o[0] = SCALAR_RE(t); o[1] = SCALAR_IM(t); }
double drv_diag_real_trace(double *d, int p) { return matrix_diag_real_trace(d, p); }

/* BLAS glue */
void drv_axpy(int n, double a, double *x, int incx, double *y, int incy) { blasglue_axpy(n, a, (scalar *) x, incx, (scalar *) y, incy); }
void drv_scal(int n, double ar, double ai, double *x, int incx) { scalar a; ASSIGN_SCALAR(a, ar, ai); (void) ai; blasglue_scal(n, a, (scalar *) x, incx); }
void drv_rscal(int n, double a, double *x, int incx) { blasglue_rscal(n, a, (scalar *) x, incx); }
void drv_copy(int n, double *x, int incx, double *y, int incy) { blasglue_copy(n, (scalar *) x, incx, (scalar *) y, incy); }
void drv_dotc(int n, double *x, int incx, double *y, int incy, double *o) { scalar t = blasglue_dotc(n, (scalar *) x, incx, (scalar *) y, incy); o[0] = SCALAR_RE(t); o[1] = SCALAR_IM(t); }
void drv_gemm(int ta, int tb, int m, int n, int k, double a, double *A, int fa, double *B, int fb, double b, double *C, int fc) {
     blasglue_gemm(ta, tb, m, n, k, a, (scalar *) A, fa, (scalar *) B, fb, b, (scalar *) C, fc);
}
void drv_herk(int uplo, int trans, int n, int k, double a, double *A, int fa, double b, double *C, int fc) {
     blasglue_herk((char) uplo, (char) trans, n, k, a, (scalar *) A, fa, b, (scalar *) C, fc);
}
int drv_potrf(int uplo, int n, double *A, int fa) { return lapackglue_potrf((char) uplo, n, (scalar *) A, fa); }
int drv_potri(int uplo, int n, double *A, int fa) { return lapackglue_potri((char) uplo, n, (scalar *) A, fa); }

/* ---------------------------------------------------------------- Maxwell data */
maxwell_data *drv_md_create(int nx, int ny, int nz, int nb, int nfft, int *o) {
     return create_maxwell_data(nx, ny, nz, o, o + 1, o + 2, nb, nfft);
}
void drv_md_destroy(maxwell_data *d) { destroy_maxwell_data(d); }
void drv_md_info(maxwell_data *d, int *o) {
     o[0] = d->nx; o[1] = d->ny; o[2] = d->nz; o[3] = d->local_nx; o[4] = d->local_ny;
     o[5] = d->local_x_start; o[6] = d->local_y_start; o[7] = d->last_dim_size; o[8] = d->other_dims;
     o[9] = d->fft_output_size; o[10] = d->N; o[11] = d->local_N; o[12] = d->N_start; o[13] = d->alloc_N;
     o[14] = d->parity; o[15] = d->zero_k; o[16] = d->num_bands; o[17] = d->max_fft_bands;
}
void drv_md_num_bands(maxwell_data *d, int nb) { maxwell_set_num_bands(d, nb); }
void drv_md_set_k(maxwell_data *d, double *k, double *G) { update_maxwell_data_k(d, k, G, G + 3, G + 6); }
void drv_md_set_parity(maxwell_data *d, int p) { set_maxwell_data_parity(d, p); }

static void put_sm(symmetric_matrix *m, const double *v) { /* v: m00 m11 m22 re,im of m01 m02 m12 */
     m->m00 = v[0]; m->m11 = v[1]; m->m22 = v[2];
     ASSIGN_ESCALAR(m->m01, v[3], v[4]); ASSIGN_ESCALAR(m->m02, v[5], v[6]); ASSIGN_ESCALAR(m->m12, v[7], v[8]);
}
static void get_sm(const symmetric_matrix *m, double *v) {
     v[0] = m->m00; v[1] = m->m11; v[2] = m->m22;
     v[3] = ESCALAR_RE(m->m01); v[4] = ESCALAR_IM(m->m01);
     v[5] = ESCALAR_RE(m->m02); v[6] = ESCALAR_IM(m->m02);
     v[7] = ESCALAR_RE(m->m12); v[8] = ESCALAR_IM(m->m12);
}
void drv_md_put_inv(maxwell_data *d, int mu, const double *v, double mean) {
     int i;
     if (mu && !d->mu_inv) d->mu_inv = (symmetric_matrix *) malloc(sizeof(symmetric_matrix) * d->fft_output_size);
     for (i = 0; i < d->fft_output_size; ++i) put_sm((mu ? d->mu_inv : d->eps_inv) + i, v + 9 * i);
     if (mu) d->mu_inv_mean = mean; else d->eps_inv_mean = mean;
}
double drv_md_get_inv(maxwell_data *d, int mu, double *v) {
     int i;
     if (mu && !d->mu_inv) return NAN;
     for (i = 0; i < d->fft_output_size; ++i) get_sm((mu ? d->mu_inv : d->eps_inv) + i, v + 9 * i);
     return mu ? d->mu_inv_mean : d->eps_inv_mean;
}

/* dielectric given by callbacks working on plain arrays */
typedef void (*cb_eps)(double *eps9, double *inv9, const double *r);
typedef int (*cb_mean)(double *meps9, double *minv9, double *n, double d1, double d2, double d3, double tol, const double *r);
static cb_eps g_eps; static cb_mean g_mean;
static void eps_tr(symmetric_matrix *e, symmetric_matrix *ei, const real r[3], void *data) {
     double a[9], b[9]; (void) data;
     g_eps(a, b, r); put_sm(e, a); put_sm(ei, b);
}
static int mean_tr(symmetric_matrix *e, symmetric_matrix *ei, real n[3], real d1, real d2, real d3, real tol, const real r[3], void *data) {
     double a[9], b[9]; int ok; (void) data;
     ok = g_mean(a, b, n, d1, d2, d3, tol, r);
     if (ok) { put_sm(e, a); put_sm(ei, b); }
     return ok;
}
void drv_set_dielectric(maxwell_data *d, int mu, const int *mesh, double *R, double *G, cb_eps e, cb_mean m) {
     g_eps = e; g_mean = m;
     (mu ? set_maxwell_mu : set_maxwell_dielectric)(d, mesh, (real (*)[3]) R, (real (*)[3]) G, eps_tr, m ? mean_tr : 0, 0);
}
void drv_sm_eigs(const double *v, double *e) { symmetric_matrix m; put_sm(&m, v); maxwell_sym_matrix_eigs(e, &m); }
void drv_sm_invert(const double *v, double *o) { symmetric_matrix m, r; put_sm(&m, v); maxwell_sym_matrix_invert(&r, &m); get_sm(&r, o); }
void drv_sm_invert_inplace(const double *v, double *o) { symmetric_matrix m; put_sm(&m, v); maxwell_sym_matrix_invert(&m, &m); get_sm(&m, o); }
void drv_sm_rotate(const double *v, double *R, double *o) { symmetric_matrix m, r; put_sm(&m, v); maxwell_sym_matrix_rotate(&r, &m, (double (*)[3]) R); get_sm(&r, o); }
int drv_sm_posdef(const double *v) { symmetric_matrix m; put_sm(&m, v); return maxwell_sym_matrix_positive_definite(&m); }
void drv_rotmat(double *R, double *n) { maxwell_rotation_matrix((double (*)[3]) R, n[0], n[1], n[2]); }
void drv_sm_vec(const double *v, double *x, double *y) { symmetric_matrix m; put_sm(&m, v); assign_symmatrix_vector((scalar_complex *) y, m, (scalar_complex *) x); }
int drv_check_dielectric(maxwell_data *d, int neg) { return check_maxwell_dielectric(d, neg); }

/* operators: 0 Maxwell, 1 1/mu */
void drv_op(maxwell_data *d, int op, evectmatrix *x, evectmatrix *y, evectmatrix *w, double target) {
     maxwell_target_data *t;
     switch (op) {
     case 0: maxwell_operator(*x, *y, d, 0, *w); break;
     case 1: maxwell_muinv_operator(*x, *y, d, 0, *w); break;
     case 2: t = create_maxwell_target_data(d, target); maxwell_target_operator(*x, *y, t, 0, *w); destroy_maxwell_target_data(t); break;
     case 3: t = create_maxwell_target_data(d, target); maxwell_target_operator1(*x, *y, t, 0, *w); destroy_maxwell_target_data(t); break;
     }
}
void drv_ucross(maxwell_data *d, evectmatrix *x, evectmatrix *y, double *u) { maxwell_ucross_op(*x, *y, d, u); }
void drv_precond(maxwell_data *d, int which, evectmatrix *x, evectmatrix *y, evectmatrix *Y, double *ev, sqmatrix *yty, double target) {
     maxwell_target_data *t;
     switch (which) {
     case 0: maxwell_preconditioner(*x, *y, d, *Y, ev, *yty); break;
     case 1: maxwell_preconditioner2(*x, *y, d, *Y, ev, *yty); break;
     case 2: t = create_maxwell_target_data(d, target); maxwell_target_preconditioner(*x, *y, t, *Y, ev, *yty); destroy_maxwell_target_data(t); break;
     case 3: t = create_maxwell_target_data(d, target); maxwell_target_preconditioner2(*x, *y, t, *Y, ev, *yty); destroy_maxwell_target_data(t); break;
     case 4: evectmatrix_copy(*y, *x); maxwell_simple_precondition(*y, d, ev); break;
     }
}
void drv_constraint(maxwell_data *d, int which, evectmatrix *x) {
     switch (which) {
     case 0: maxwell_parity_constraint(*x, d); break;
     case 1: maxwell_zparity_constraint(*x, d); break;
     case 2: maxwell_yparity_constraint(*x, d); break;
     case 3: maxwell_zero_k_constraint(*x, d); break;
     case 4: maxwell_zero_k_set_const_bands(*x, d); break;
     }
}
int drv_num_const(maxwell_data *d, evectmatrix *x) { return maxwell_zero_k_num_const_bands(*x, d); }
void drv_parities(maxwell_data *d, int y, evectmatrix *x, double *out) {
     double *p = y ? maxwell_yparity(*x, d) : maxwell_zparity(*x, d);
     memcpy(out, p, sizeof(double) * x->p); free(p);
}
/* fields in position space: caller gives room for fft_output_size*nb*3 complex numbers.  As in the program,
   the transform works in the package's own scratch array. */
void drv_field(maxwell_data *d, int kind, evectmatrix *x, int b0, int nb, double *out) {
     scalar_complex *f = (scalar_complex *) d->fft_data;
     if (kind == 1 || kind == 2) maxwell_compute_d_from_H(d, *x, f, b0, nb); else maxwell_compute_h_from_H(d, *x, f, b0, nb);
     if (kind == 2) maxwell_compute_e_from_d(d, f, nb);
     memcpy(out, f, sizeof(scalar_complex) * 3 * (size_t) nb * d->fft_output_size);
}
void drv_H_from_B(maxwell_data *d, evectmatrix *b, evectmatrix *h, int b0, int h0, int nb) {
     maxwell_compute_H_from_B(d, *b, *h, (scalar_complex *) d->fft_data, b0, h0, nb);
}
int drv_otherhalf(maxwell_data *d, int kind, double *field, double px, double py, double pz) {
     if (kind == 0) maxwell_vectorfield_otherhalf(d, (scalar_complex *) field, px, py, pz);
     else if (kind == 1) maxwell_cscalarfield_otherhalf(d, (scalar_complex *) field, px, py, pz);
     else maxwell_scalarfield_otherhalf(d, field);
     return 0;
}
void drv_dominant(maxwell_data *d, evectmatrix *x, int band, double *k) { maxwell_dominant_planewave(d, *x, band, k); }
void drv_planewave(maxwell_data *d, evectmatrix *x, int band, int *g, double *s, double *p, double *axis) {
     scalar S, P;
     ASSIGN_SCALAR(S, s[0], s[1]); ASSIGN_SCALAR(P, p[0], p[1]);
     maxwell_set_planewave(d, *x, band, g, S, P, axis);
}

/* ---------------------------------------------------------------- eigensolver */
/* kind: 0 CG, 1 Davidson.  op: 0 Maxwell, 2 targeted.  prec: 0 none, 1/2 the two preconditioners.
   zerok: use the zero-k constraint; parity as set in d. Returns iterations. */
int drv_solve(maxwell_data *d, evectmatrix *Y, double *ev, int kind, double target, int prec, int zerok, int use_mu,
              int nwork, double tol, int flags) {
     evectmatrix *W = (evectmatrix *) malloc(sizeof(evectmatrix) * (nwork + 1));
     evectconstraint_chain *c = NULL;
     maxwell_target_data *t = NULL;
     evectpreconditioner P = 0; void *Pd = d;
     evectoperator A = maxwell_operator, B = use_mu ? maxwell_muinv_operator : 0; void *Ad = d;
     int i, iters = 0;
     for (i = 0; i < nwork; ++i) W[i] = create_evectmatrix(Y->N, Y->c, Y->p, Y->localN, Y->Nstart, Y->allocN);
     c = evect_add_constraint(c, maxwell_parity_constraint, d);
     if (zerok) c = evect_add_constraint(c, maxwell_zero_k_constraint, d);
     if (target != 0) {
          t = create_maxwell_target_data(d, target); A = maxwell_target_operator; Ad = t; Pd = t;
          P = prec == 0 ? 0 : prec == 1 ? maxwell_target_preconditioner : maxwell_target_preconditioner2;
     } else P = prec == 0 ? 0 : prec == 1 ? maxwell_preconditioner : maxwell_preconditioner2;
     if (kind == 0)
          eigensolver(*Y, ev, A, Ad, B, d, P, Pd, evectconstraint_chain_func, c, W, nwork, tol, &iters, flags);
     else
          eigensolver_davidson(*Y, ev, A, Ad, P, Pd, evectconstraint_chain_func, c, W, nwork, tol, &iters, flags, 0.0);
     for (i = 0; i < nwork; ++i) destroy_evectmatrix(W[i]);
     free(W); evect_destroy_constraints(c); destroy_maxwell_target_data(t);
     return iters;
}
/* generic dense Hermitian problems: A (and optionally B, K) as p x n matrices given by the caller */
typedef struct { int n; double *M; } dense;
static void dense_op(evectmatrix X, evectmatrix Y, void *data, int cur, evectmatrix W) {
     dense *m = (dense *) data; int n = m->n; (void) cur; (void) W;
     blasglue_gemm('N', 'N', n, X.p, n, 1.0, (scalar *) m->M, n, X.data, X.p, 0.0, Y.data, Y.p);
}
static void dense_prec(evectmatrix X, evectmatrix Y, void *data, evectmatrix Z, real *ev, sqmatrix S) {
     (void) Z; (void) ev; (void) S; dense_op(X, Y, data, 0, X);
}
int drv_dense_solve(int n, double *A, double *B, double *K, evectmatrix *Y, double *ev, int kind, int nwork, double tol, int flags) {
     dense a, b, k; evectmatrix *W = (evectmatrix *) malloc(sizeof(evectmatrix) * (nwork + 1)); int i, iters = 0;
     a.n = b.n = k.n = n; a.M = A; b.M = B; k.M = K;
     for (i = 0; i < nwork; ++i) W[i] = create_evectmatrix(Y->N, Y->c, Y->p, Y->localN, Y->Nstart, Y->allocN);
     if (kind == 0) eigensolver(*Y, ev, dense_op, &a, B ? dense_op : 0, &b, K ? dense_prec : 0, &k, 0, 0, W, nwork, tol, &iters, flags);
     else eigensolver_davidson(*Y, ev, dense_op, &a, K ? dense_prec : 0, &k, 0, 0, W, nwork, tol, &iters, flags, 0.0);
     for (i = 0; i < nwork; ++i) destroy_evectmatrix(W[i]);
     free(W);
     return iters;
}
void drv_get_eigenvals(maxwell_data *d, evectmatrix *Y, double *ev, evectmatrix *w1, evectmatrix *w2) {
     eigensolver_get_eigenvals(*Y, ev, maxwell_operator, d, *w1, *w2);
}

/* ---------------------------------------------------------------- matrixio */
matrixio_id *drv_io_create(const char *f) { matrixio_id *i = malloc(sizeof *i); *i = matrixio_create(f); return i; }
matrixio_id *drv_io_open(const char *f, int ro) { matrixio_id *i = malloc(sizeof *i); *i = matrixio_open(f, ro); return i; }
void drv_io_close(matrixio_id *i) { matrixio_close(*i); free(i); }
matrixio_id *drv_io_dataset(matrixio_id *f, const char *n, const char *desc, int rank, int *dims) { matrixio_id *i = malloc(sizeof *i); *i = matrixio_create_dataset(*f, n, desc, rank, dims); return i; }
matrixio_id *drv_io_open_dataset(matrixio_id *f, const char *n, int rank, int *dims) { matrixio_id *i = malloc(sizeof *i); *i = matrixio_open_dataset(*f, n, rank, dims); return i; }
void drv_io_close_dataset(matrixio_id *i) { matrixio_close_dataset(*i); free(i); }
int drv_io_exists(matrixio_id *f, const char *n) { return matrixio_dataset_exists(*f, n); }
void drv_io_delete(matrixio_id *f, const char *n) { matrixio_dataset_delete(*f, n); }
void drv_io_write(matrixio_id *ds, int *ld, int *ls, int stride, double *data) { matrixio_write_real_data(*ds, ld, ls, stride, data); }
double *drv_io_read(matrixio_id *f, const char *n, int *rank, int *dims, int ld0, int ls0, int stride, double *data) { return matrixio_read_real_data(*f, n, rank, dims, ld0, ls0, stride, data); }
void drv_io_wsattr(matrixio_id *f, const char *n, const char *v) { matrixio_write_string_attr(*f, n, v); }
void drv_io_wdattr(matrixio_id *f, const char *n, double *v, int rank, int *dims) { matrixio_write_data_attr(*f, n, v, rank, dims); }
char *drv_io_rsattr(matrixio_id *f, const char *n) { return matrixio_read_string_attr(*f, n); }
double *drv_io_rdattr(matrixio_id *f, const char *n, int *rank, int maxr, int *dims) { return matrixio_read_data_attr(*f, n, rank, maxr, dims); }
void drv_free(void *p) { free(p); }
void drv_ev_write(const char *fn, evectmatrix *e) { evectmatrixio_writeall_raw(fn, *e); }
void drv_ev_read(const char *fn, evectmatrix *e) { evectmatrixio_readall_raw(fn, *e); }
