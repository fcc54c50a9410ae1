/* The building blocks that the transforms are assembled from. */
#include "drv.h"
#ifdef NO_LOW
op_t ops_low[] = {{NULL, NULL}};
#else
#include "fnft__poly_fmult.h"
#include "fnft__poly_eval.h"
#include "fnft__poly_chirpz.h"
#include "fnft__poly_specfact.h"
#include "fnft__poly_roots_fftgridsearch.h"
#include "fnft__poly_roots_fasteigen.h"
#include "fnft__misc.h"
#include "fnft__nse_scatter.h"
#include "fnft__kdv_scatter.h"
#include "fnft__nse_fscatter.h"
#include "fnft__kdv_fscatter.h"
#include "fnft__nse_finvscatter.h"
#include "fnft__kdv_finvscatter.h"
#include "fnft__nse_discretization.h"
#include "fnft__kdv_discretization.h"

#define ENTER lib_enter(a)
#define LEAVE lib_leave(o); o_int(o, "ret", rc)
static int is3(const char *s) { return !strcmp(s, "3x3"); }

/* p: all factors, entry-wise blocks as documented; result needs numel entries */
static int op_fmult(args_t *a, out_t *o) {
  const char *shape = arg(a, "shape", "1"); size_t np; C *pin = argc_(a, "p", &np); UI d = (UI) argi(a, "deg", 1), n = (UI) argi(a, "n", 2), d0 = d, n0 = n;
  int W = -12345, *Wp = argi(a, "norm", 1) ? &W : NULL; FNFT_INT rc; size_t e = !strcmp(shape, "1") ? 1 : is3(shape) ? 9 : 4;
  UI numel = e == 1 ? fnft__poly_fmult_numel(d, n) : e == 4 ? fnft__poly_fmult2x2_numel(d, n) : fnft__poly_fmult3x3_numel(d, n);
  o_int(o, "numel", (long) numel);
  /* documented size of p: numel for all three; result: numel (only for matrices) */
  C *p = ubuf(numel*sizeof(C)); memcpy(p, pin, np*sizeof(C)); C *res = e == 1 ? NULL : ubuf(numel*sizeof(C));
  ENTER;
  if (e == 1) rc = fnft__poly_fmult(&d, n, p, Wp); else if (e == 4) rc = fnft__poly_fmult2x2(&d, n, p, res, Wp); else rc = fnft__poly_fmult3x3(&d, n, p, res, Wp);
  LEAVE; (void) d0; (void) n0;
  o_int(o, "degout", (long) d); o_int(o, "W", Wp ? W : 0); o_int(o, "guard", ubuf_ok(p) && ubuf_ok(res));
  if (rc == 0 && e*(d + 1) <= numel) o_cx(o, "res", e == 1 ? p : res, e*(d + 1));
  free(pin); ubuf_free(p); ubuf_free(res); return rc; }
static int op_chirpz(args_t *a, out_t *o) { size_t np, n1; C *p = argc_(a, "p", &np), *A = argc_(a, "A", &n1), *W = argc_(a, "W", &n1); UI M = (UI) argi(a, "M", 1);
  C *r = ubuf(M*sizeof(C)); ENTER; FNFT_INT rc = fnft__poly_chirpz(np - 1, p, *A, *W, M, r); LEAVE; o_int(o, "guard", ubuf_ok(r)); if (rc == 0) o_cx(o, "res", r, M);
  free(p); free(A); free(W); ubuf_free(r); return rc; }
static int op_eval(args_t *a, out_t *o) { size_t np, nz; C *p = argc_(a, "p", &np), *zi = argc_(a, "z", &nz); int dv = (int) argi(a, "deriv", 0);
  C *z = ubuf(nz*sizeof(C)), *d = ubuf(nz*sizeof(C)); memcpy(z, zi, nz*sizeof(C)); FNFT_INT rc;
  ENTER; if (dv) rc = fnft__poly_evalderiv(np - 1, p, nz, z, d); else rc = fnft__poly_eval(np - 1, p, nz, z); LEAVE;
  o_int(o, "guard", ubuf_ok(z) && ubuf_ok(d)); if (rc == 0) { o_cx(o, "res", z, nz); if (dv) o_cx(o, "der", d, nz); }
  free(p); free(zi); ubuf_free(z); ubuf_free(d); return rc; }
static int op_specfact(args_t *a, out_t *o) { size_t np; C *p = argc_(a, "p", &np); C *r = ubuf(np*sizeof(C));
  ENTER; FNFT_INT rc = fnft__poly_specfact(np - 1, p, r, (UI) argi(a, "os", 8), (FNFT_INT) argi(a, "kappa", 1)); LEAVE;
  o_int(o, "guard", ubuf_ok(r)); if (rc == 0) o_cx(o, "res", r, np); free(p); ubuf_free(r); return rc; }
static int op_gridroots(args_t *a, out_t *o) { size_t np, nphi; C *p = argc_(a, "p", &np); double *PHI = argr(a, "PHI", &nphi); UI M = (UI) argi(a, "M", 16), M0 = M;
  int ph = (int) argi(a, "ph", 0); /* documented size: M entries */
  C *r = ubuf(M0*sizeof(C)); ENTER; FNFT_INT rc = ph ? fnft__poly_roots_fftgridsearch_paraherm(np - 1, p, &M, PHI, r) : fnft__poly_roots_fftgridsearch(np - 1, p, &M, PHI, r); LEAVE;
  o_int(o, "guard", ubuf_ok(r)); o_int(o, "Mout", (long) M); if (rc == 0) o_cx(o, "res", r, M < M0 ? M : M0); free(p); free(PHI); ubuf_free(r); return rc; }
static int op_eigroots(args_t *a, out_t *o) { size_t np; C *p = argc_(a, "p", &np), *p2 = malloc(np*sizeof(C)); memcpy(p2, p, np*sizeof(C));
  C *r = ubuf((np - 1)*sizeof(C)); ENTER; FNFT_INT rc = fnft__poly_roots_fasteigen(np - 1, p, r); LEAVE;
  o_int(o, "guard", ubuf_ok(r)); o_int(o, "insame", !memcmp(p, p2, np*sizeof(C))); if (rc == 0) o_cx(o, "res", r, np - 1); free(p); free(p2); ubuf_free(r); return rc; }
static int op_filter(args_t *a, out_t *o) { size_t nv, nr, nb; C *vi = argc_(a, "v", &nv), *ri = argc_(a, "w", &nr); double *bb = argr(a, "bb", &nb); const char *kind = arg(a, "kind", "box");
  UI N = nv; C *v = ubuf(nv*sizeof(C)), *w = ri ? ubuf(nr*sizeof(C)) : NULL; memcpy(v, vi, nv*sizeof(C)); if (w) memcpy(w, ri, nr*sizeof(C)); FNFT_INT rc;
  ENTER; if (!strcmp(kind, "box")) rc = fnft__misc_filter(&N, v, w, bb); else if (!strcmp(kind, "inv")) rc = fnft__misc_filter_inv(&N, v, w, bb);
  else if (!strcmp(kind, "nonreal")) rc = fnft__misc_filter_nonreal(&N, v, argd(a, "tol", 0)); else rc = fnft__misc_merge(&N, v, argd(a, "tol", 0)); LEAVE;
  o_int(o, "guard", ubuf_ok(v) && ubuf_ok(w)); o_int(o, "N", (long) N); if (rc == 0 && N <= nv) { o_cx(o, "v", v, N); if (w) o_cx(o, "w", w, N); }
  free(vi); free(ri); free(bb); ubuf_free(v); ubuf_free(w); return rc; }
static int op_downsample(args_t *a, out_t *o) { size_t nq; C *q = argc_(a, "q", &nq), *qs = NULL; UI Ds = (UI) argi(a, "Dsub", 2), fl[2] = {999999, 999999};
  ENTER; FNFT_INT rc = fnft__misc_downsample(nq, q, &Ds, &qs, fl); M_.on = 0; o_int(o, "Dsub", (long) Ds); o_int(o, "first", (long) fl[0]); o_int(o, "last", (long) fl[1]); if (rc == 0) o_cx(o, "res", qs, Ds);
  M_.on = 1; free(qs); LEAVE; free(q); return rc; }
static int op_resample(args_t *a, out_t *o) { size_t nq; C *q = argc_(a, "q", &nq); C *r = ubuf(nq*sizeof(C));
  ENTER; FNFT_INT rc = fnft__misc_resample(nq, argd(a, "eps", 1), q, argd(a, "delta", 0), r); LEAVE; o_int(o, "guard", ubuf_ok(r)); if (rc == 0) o_cx(o, "res", r, nq); free(q); ubuf_free(r); return rc; }
static int op_preprocess(args_t *a, out_t *o) { size_t nq; C *q = argc_(a, "q", &nq), *qp = NULL, *rp = NULL; UI Ds = (UI) argi(a, "Dsub", 0), fl[2] = {999999, 999999}; int kdv = !strcmp(arg(a, "pde", "nse"), "kdv"), dis = (int) argi(a, "dis", 0); FNFT_INT rc;
  UI up = kdv ? fnft__kdv_discretization_upsampling_factor((fnft_kdv_discretization_t) dis) : fnft__nse_discretization_upsampling_factor((fnft_nse_discretization_t) dis);
  ENTER; if (kdv) rc = fnft__kdv_discretization_preprocess_signal(nq, q, argd(a, "eps", 1), (int) argi(a, "kappa", 1), &Ds, &qp, &rp, fl, (fnft_kdv_discretization_t) dis);
  else rc = fnft__nse_discretization_preprocess_signal(nq, q, argd(a, "eps", 1), (int) argi(a, "kappa", 1), &Ds, &qp, &rp, fl, (fnft_nse_discretization_t) dis);
  M_.on = 0; o_int(o, "up", (long) up); o_int(o, "Dsub", (long) Ds); o_int(o, "first", (long) fl[0]); o_int(o, "last", (long) fl[1]);
  if (rc == 0) { o_cx(o, "qp", qp, Ds*up); o_cx(o, "rp", rp, Ds*up); }
  M_.on = 1; free(qp); free(rp); LEAVE; free(q); return rc; }
/* tables and small functions */
static int op_tables(args_t *a, out_t *o) { int dis = (int) argi(a, "dis", 0); FNFT_INT rc = 0; int kdv = !strcmp(arg(a, "pde", "nse"), "kdv"); size_t nl, nT; C *l = argc_(a, "lam", &nl); double *T = argr(a, "T", &nT), eps = argd(a, "eps", 1); double pr = NAN, pa = NAN, pb = NAN; UI D = (UI) argi(a, "D", 2);
  ENTER; UI deg, up, ord; double bc; FNFT_INT r1, r2, r3, r4;
  C *z = malloc(nl*sizeof(C)), *back = malloc(nl*sizeof(C)); memcpy(z, l, nl*sizeof(C));
  if (kdv) { fnft_kdv_discretization_t d = dis; deg = fnft__kdv_discretization_degree(d); up = fnft__kdv_discretization_upsampling_factor(d); ord = fnft__kdv_discretization_method_order(d); bc = fnft__kdv_discretization_boundary_coeff(d);
    r1 = fnft__kdv_discretization_phase_factor_rho(eps, T[1], &pr, d); r2 = fnft__kdv_discretization_phase_factor_a(eps, D, T, &pa, d); r3 = fnft__kdv_discretization_phase_factor_b(eps, D, T, &pb, d); r4 = deg ? fnft__kdv_discretization_lambda_to_z(nl, eps, z, d) : 0; memcpy(back, z, nl*sizeof(C)); if (deg) fnft__kdv_discretization_z_to_lambda(nl, eps, back, d); }
  else { fnft_nse_discretization_t d = dis; deg = fnft__nse_discretization_degree(d); up = fnft__nse_discretization_upsampling_factor(d); ord = fnft__nse_discretization_method_order(d); bc = fnft__nse_discretization_boundary_coeff(d);
    r1 = fnft__nse_discretization_phase_factor_rho(eps, T[1], &pr, d); r2 = fnft__nse_discretization_phase_factor_a(eps, D, T, &pa, d); r3 = fnft__nse_discretization_phase_factor_b(eps, D, T, &pb, d); r4 = deg ? fnft__nse_discretization_lambda_to_z(nl, eps, z, d) : 0; memcpy(back, z, nl*sizeof(C)); if (deg) fnft__nse_discretization_z_to_lambda(nl, eps, back, d); }
  M_.on = 0; o_int(o, "deg", (long) deg); o_int(o, "up", (long) up); o_int(o, "order", (long) ord); o_re(o, "bc", &bc, 1); double v[3] = {pr, pa, pb}; o_re(o, "phases", v, 3); o_cx(o, "z", z, nl); o_cx(o, "back", back, nl); rc = r1 | r2 | r3 | r4; M_.on = 1;
  free(z); free(back); LEAVE; free(l); free(T); return 0; }
static int op_basis(args_t *a, out_t *o) { int dis = (int) argi(a, "dis", 0), der = (int) argi(a, "der", 0), kdv = !strcmp(arg(a, "pde", "nse"), "kdv"); size_t nl; C *l = argc_(a, "lam", &nl); double eps = argd(a, "eps", 1); UI n = der ? 16 : 4; C *t = ubuf(n*sizeof(C)), *f = ubuf(n*sizeof(C));
  ENTER; FNFT_INT r1, r2, rc; fnft__akns_discretization_t ad;
  if (kdv) { r1 = fnft__kdv_discretization_change_of_basis_matrix_to_S(t, l[0], der, eps, dis); r2 = fnft__kdv_discretization_change_of_basis_matrix_from_S(f, l[0], der, eps, dis); }
  else { r1 = fnft__nse_discretization_to_akns_discretization(dis, &ad); if (!r1) r1 = fnft__akns_discretization_change_of_basis_matrix_to_S(t, l[0], der, eps, ad, 0, fnft__akns_pde_NSE); r2 = fnft__nse_discretization_to_akns_discretization(dis, &ad); if (!r2) r2 = fnft__akns_discretization_change_of_basis_matrix_from_S(f, l[0], der, eps, ad, 0, fnft__akns_pde_NSE); }
  rc = r1; LEAVE; o_int(o, "ret2", r2); o_int(o, "guard", ubuf_ok(t) && ubuf_ok(f)); if (!r1 && !r2) { o_cx(o, "to", t, n); o_cx(o, "from", f, n); } ubuf_free(t); ubuf_free(f); free(l); return 0; }
static int op_small(args_t *a, out_t *o) { size_t n, m; C *u = argc_(a, "u", &n), *v = argc_(a, "v", &m); double x = argd(a, "x", 0), y = argd(a, "y", 0); UI k = (UI) argi(a, "k", 0); FNFT_INT rc = 0; double r = 0; C c = 0; const char *f = arg(a, "f", "");
  ENTER; if (!strcmp(f, "rel_err")) r = fnft__misc_rel_err(n, u, v); else if (!strcmp(f, "hausdorff")) r = fnft__misc_hausdorff_dist(n, u, m, v); else if (!strcmp(f, "l2norm2")) r = fnft__misc_l2norm2(n, u, x, y);
  else if (!strcmp(f, "sech")) c = fnft__misc_sech(*u); else if (!strcmp(f, "nextpow2")) r = (double) fnft__misc_nextpowerof2(k); else if (!strcmp(f, "legendre")) r = fnft__misc_legendre_poly(k, x);
  else if (!strcmp(f, "csinc")) c = fnft__misc_CSINC(*u); else if (!strcmp(f, "csinc_d")) c = fnft__misc_CSINC_derivative(*u);
  else if (!strcmp(f, "normalize")) { C *w = malloc(n*sizeof(C)); memcpy(w, u, n*sizeof(C)); rc = fnft__misc_normalize_vector(n, w); M_.on = 0; o_cx(o, "res", w, n); M_.on = 1; free(w); }
  LEAVE; o_re(o, "r", &r, 1); o_cx(o, "c", &c, 1); free(u); free(v); return 0; }
static int op_scatmat(args_t *a, out_t *o) { size_t nq, nr, nl; C *q = argc_(a, "q", &nq), *r = argc_(a, "r", &nr), *l = argc_(a, "lam", &nl); int dv = (int) argi(a, "deriv", 0), kdv = !strcmp(arg(a, "pde", "nse"), "kdv"), dis = (int) argi(a, "dis", 0); FNFT_INT rc; size_t L = dv ? 8 : 4;
  C *res = ubuf(L*nl*sizeof(C)); FNFT_INT *W = argi(a, "norm", 0) ? malloc(nl*sizeof(FNFT_INT)) : NULL; if (W) memset(W, 0, nl*sizeof(FNFT_INT));
  ENTER; if (kdv) rc = fnft__kdv_scatter_matrix(nq, q, r, argd(a, "eps", 1), (int) argi(a, "kappa", 1), nl, l, res, W, (fnft_kdv_discretization_t) dis, (UI) dv);
  else rc = fnft__nse_scatter_matrix(nq, q, r, argd(a, "eps", 1), (int) argi(a, "kappa", 1), nl, l, res, W, (fnft_nse_discretization_t) dis, (UI) dv); LEAVE;
  o_int(o, "guard", ubuf_ok(res)); if (rc == 0) { o_cx(o, "res", res, L*nl); double *w = malloc((nl + 1)*8); for (size_t i = 0; i < nl; i++) w[i] = W ? W[i] : 0; o_re(o, "W", w, nl); free(w); }
  free(q); free(r); free(l); free(W); ubuf_free(res); return rc; }
static int op_scatbs(args_t *a, out_t *o) { size_t nq, nr, nl, nT; C *q = argc_(a, "q", &nq), *r = argc_(a, "r", &nr), *l = argc_(a, "lam", &nl); double *T = argr(a, "T", &nT); int kdv = !strcmp(arg(a, "pde", "nse"), "kdv"), dis = (int) argi(a, "dis", 0), sk = (int) argi(a, "skipb", 0); FNFT_INT rc;
  C *av = ubuf(nl*sizeof(C)), *ap = ubuf(nl*sizeof(C)), *b = ubuf(nl*sizeof(C)); FNFT_INT *W = argi(a, "norm", 0) ? calloc(nl, sizeof(FNFT_INT)) : NULL;
  ENTER; if (kdv) rc = fnft__kdv_scatter_bound_states(nq, q, r, T, nl, l, av, ap, b, W, (fnft_kdv_discretization_t) dis, (UI) sk);
  else rc = fnft__nse_scatter_bound_states(nq, q, r, T, nl, l, av, ap, b, W, (fnft_nse_discretization_t) dis, (UI) sk); LEAVE;
  o_int(o, "guard", ubuf_ok(av) && ubuf_ok(ap) && ubuf_ok(b)); if (rc == 0) { o_cx(o, "a", av, nl); o_cx(o, "ap", ap, nl); o_cx(o, "b", b, nl); double *w = malloc((nl + 1)*8); for (size_t i = 0; i < nl; i++) w[i] = W ? W[i] : 0; o_re(o, "W", w, nl); free(w); }
  free(q); free(r); free(l); free(T); free(W); ubuf_free(av); ubuf_free(ap); ubuf_free(b); return rc; }
static int op_fscatter(args_t *a, out_t *o) { size_t nq, nr; C *q = argc_(a, "q", &nq), *r = argc_(a, "r", &nr); int kdv = !strcmp(arg(a, "pde", "nse"), "kdv"), dis = (int) argi(a, "dis", 0), W = 0, *Wp = argi(a, "norm", 0) ? &W : NULL; FNFT_INT rc; UI deg = 0;
  UI nu = kdv ? fnft__kdv_fscatter_numel(nq, (fnft_kdv_discretization_t) dis) : fnft__nse_fscatter_numel(nq, (fnft_nse_discretization_t) dis); C *res = ubuf(nu*sizeof(C));
  ENTER; if (kdv) rc = fnft__kdv_fscatter(nq, q, r, argd(a, "eps", 1), (int) argi(a, "kappa", 1), res, &deg, Wp, (fnft_kdv_discretization_t) dis); else rc = fnft__nse_fscatter(nq, q, r, argd(a, "eps", 1), res, &deg, Wp, (fnft_nse_discretization_t) dis); LEAVE;
  o_int(o, "guard", ubuf_ok(res)); o_int(o, "deg", (long) deg); o_int(o, "W", W); if (rc == 0 && 4*(deg + 1) <= nu) o_cx(o, "res", res, 4*(deg + 1)); free(q); free(r); ubuf_free(res); return rc; }
/* forward fast scattering followed by layer peeling on its result */
static int op_peel(args_t *a, out_t *o) { size_t nq, nr, nt; C *q = argc_(a, "q", &nq), *r = argc_(a, "r", &nr), *tm = argc_(a, "tm", &nt); int kdv = !strcmp(arg(a, "pde", "nse"), "kdv"), dis = (int) argi(a, "dis", 0); FNFT_INT rc = 0; UI deg = (UI) argi(a, "deg", (long) nq); C *res = NULL; UI nu = 0; double eps = argd(a, "eps", 1); FNFT_INT kap = (int) argi(a, "kappa", 1);
  if (!tm) { nu = kdv ? fnft__kdv_fscatter_numel(nq, (fnft_kdv_discretization_t) dis) : fnft__nse_fscatter_numel(nq, (fnft_nse_discretization_t) dis); res = malloc((nu ? nu : 4)*sizeof(C));
    rc = kdv ? fnft__kdv_fscatter(nq, q, r, eps, kap, res, &deg, NULL, (fnft_kdv_discretization_t) dis) : fnft__nse_fscatter(nq, q, r, eps, res, &deg, NULL, (fnft_nse_discretization_t) dis);
    o_int(o, "fret", rc); C *ex = malloc(4*(deg + 1)*sizeof(C)); if (rc == 0) memcpy(ex, res, 4*(deg + 1)*sizeof(C)); free(res); res = ex; } else { res = tm; tm = NULL; }
  C *out = ubuf(deg*sizeof(C)); if (rc == 0) { ENTER; rc = kdv ? fnft__kdv_finvscatter(deg, res, out, eps, (fnft_kdv_discretization_t) dis) : fnft__nse_finvscatter(deg, res, out, eps, kap, (fnft_nse_discretization_t) dis); LEAVE; } else o_int(o, "ret", rc);
  o_int(o, "guard", ubuf_ok(out)); o_int(o, "deg", (long) deg); if (rc == 0) o_cx(o, "res", out, deg); free(q); free(r); free(res); ubuf_free(out); return rc; }
op_t ops_low[] = {{"fmult", op_fmult}, {"chirpz", op_chirpz}, {"eval", op_eval}, {"specfact", op_specfact}, {"basis", op_basis}, {"gridroots", op_gridroots}, {"eigroots", op_eigroots}, {"filter", op_filter}, {"downsample", op_downsample}, {"resample", op_resample}, {"preprocess", op_preprocess}, {"tables", op_tables}, {"small", op_small}, {"scatmat", op_scatmat}, {"scatbs", op_scatbs}, {"fscatter", op_fscatter}, {"peel", op_peel}, {NULL, NULL}};
#endif
