/* Building blocks of the Manakov transform. */
#include "drv.h"
#if !defined NO_MANAKOV && !defined NO_LOW
#include "fnft__manakov_scatter.h"
#include "fnft__manakov_fscatter.h"
#include "fnft__manakov_discretization.h"
#define ENTER lib_enter(a)
#define LEAVE lib_leave(o); o_int(o, "ret", rc)
static int op_mscatmat(args_t *a, out_t *o) { size_t n1, n2, nl; C *q1 = argc_(a, "q", &n1), *q2 = argc_(a, "q2", &n2), *l = argc_(a, "lam", &nl); C *res = ubuf(9*nl*sizeof(C));
  ENTER; FNFT_INT rc = fnft__manakov_scatter_matrix(n1, q1, q2, argd(a, "eps", 1), nl, l, (FNFT_INT) argi(a, "kappa", 1), res, (fnft_manakov_discretization_t) argi(a, "dis", 0)); LEAVE;
  o_int(o, "guard", ubuf_ok(res)); if (rc == 0) o_cx(o, "res", res, 9*nl); free(q1); free(q2); free(l); ubuf_free(res); return rc; }
static int op_mfscatter(args_t *a, out_t *o) { size_t n1, n2; C *q1 = argc_(a, "q", &n1), *q2 = argc_(a, "q2", &n2); int dis = (int) argi(a, "dis", 0), W = 0, *Wp = argi(a, "norm", 0) ? &W : NULL; UI deg = 0; UI nu = fnft__manakov_fscatter_numel(n1, (fnft_manakov_discretization_t) dis); C *res = ubuf(nu*sizeof(C));
  ENTER; FNFT_INT rc = fnft__manakov_fscatter(n1, q1, q2, (FNFT_INT) argi(a, "kappa", 1), argd(a, "eps", 1), res, &deg, Wp, (fnft_manakov_discretization_t) dis); LEAVE;
  o_int(o, "guard", ubuf_ok(res)); o_int(o, "deg", (long) deg); o_int(o, "W", W); if (rc == 0 && 9*(deg + 1) <= nu) o_cx(o, "res", res, 9*(deg + 1)); free(q1); free(q2); ubuf_free(res); return rc; }
static int op_mpreprocess(args_t *a, out_t *o) { size_t n1, n2; C *q1 = argc_(a, "q", &n1), *q2 = argc_(a, "q2", &n2), *p1 = NULL, *p2 = NULL; UI Ds = (UI) argi(a, "Dsub", 0), fl[2] = {999999, 999999}; fnft_manakov_discretization_t dis = (fnft_manakov_discretization_t) argi(a, "dis", 0); UI up = fnft__manakov_discretization_upsampling_factor(dis);
  ENTER; FNFT_INT rc = fnft__manakov_discretization_preprocess_signal(n1, q1, q2, argd(a, "eps", 1), &Ds, &p1, &p2, fl, dis); M_.on = 0;
  o_int(o, "up", (long) up); o_int(o, "Dsub", (long) Ds); o_int(o, "first", (long) fl[0]); o_int(o, "last", (long) fl[1]); if (rc == 0) { o_cx(o, "qp", p1, Ds*up); o_cx(o, "rp", p2, Ds*up); }
  M_.on = 1; free(p1); free(p2); LEAVE; free(q1); free(q2); return rc; }
static int op_mtables(args_t *a, out_t *o) { fnft_manakov_discretization_t d = (fnft_manakov_discretization_t) argi(a, "dis", 0); size_t nl, nT; C *l = argc_(a, "lam", &nl); double *T = argr(a, "T", &nT), eps = argd(a, "eps", 1), pr = NAN, pa = NAN, pb = NAN; UI D = (UI) argi(a, "D", 2); FNFT_INT rc;
  ENTER; UI deg = fnft__manakov_discretization_degree(d), up = fnft__manakov_discretization_upsampling_factor(d), ord = fnft__manakov_discretization_method_order(d); double bc = fnft__manakov_discretization_boundary_coeff(d);
  FNFT_INT r1 = fnft__manakov_discretization_phase_factor_rho(eps, T[1], &pr, d), r2 = fnft__manakov_discretization_phase_factor_a(eps, D, T, &pa, d), r3 = fnft__manakov_discretization_phase_factor_b(eps, D, T, &pb, d); FNFT_INT r4 = deg ? fnft__manakov_discretization_lambda_to_z(nl, eps, l, d) : 0; C *back = malloc(nl*sizeof(C)); memcpy(back, l, nl*sizeof(C)); if (deg) r4 |= fnft__manakov_discretization_z_to_lambda(nl, eps, back, d); rc = r1 | r2 | r3 | r4; M_.on = 0; o_cx(o, "back", back, nl); M_.on = 1; free(back); LEAVE;
  o_int(o, "deg", (long) deg); o_int(o, "up", (long) up); o_int(o, "order", (long) ord); o_re(o, "bc", &bc, 1); double v[3] = {pr, pa, pb}; o_re(o, "phases", v, 3); o_cx(o, "z", l, nl); free(l); free(T); return 0; }
op_t ops_man[] = {{"mscatmat", op_mscatmat}, {"mfscatter", op_mfscatter}, {"mpreprocess", op_mpreprocess}, {"mtables", op_mtables}, {NULL, NULL}};
#else
op_t ops_man[] = {{NULL, NULL}};
#endif
