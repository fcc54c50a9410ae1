/* The public transforms. */
#include "drv.h"
#include "fnft__nse_scatter.h"
#include <pthread.h>
#define FI(f) if ((v = arg(a, "o_" #f, NULL))) o->f = strtol(v, NULL, 10);
#define FD(f) if ((v = arg(a, "o_" #f, NULL))) o->f = strtod(v, NULL);
#define FA(f, n) if ((v = arg(a, "o_" #f, NULL))) { size_t m; double *w = argr(a, "o_" #f, &m); for (size_t i = 0; i < m && i < n; i++) o->f[i] = w[i]; free(w); }
#define SI(f) o_raw(s, "%s=%ld ", #f, (long) o->f);
#define SD(f) o_raw(s, "%s=%.17g ", #f, o->f);
#define SA(f, n) for (int i = 0; i < n; i++) o_raw(s, "%s%d=%.17g ", #f, i, o->f[i]);
#define NSEV(I, D, A) I(bound_state_filtering) I(bound_state_localization) I(niter) D(tol) I(Dsub) I(discspec_type) I(contspec_type) I(normalization_flag) I(discretization) I(richardson_extrapolation_flag) A(bounding_box, 4)
#define NSEP(I, D, A) I(localization) I(filtering) A(bounding_box, 4) I(max_evals) I(discretization) I(normalization_flag) A(floquet_range, 2) I(points_per_spine) I(Dsub) D(tol)
#define KDVV(I, D, A) I(bound_state_localization) I(niter) I(discspec_type) I(contspec_type) I(normalization_flag) I(discretization) I(richardson_extrapolation_flag) D(grid_spacing)
#define MANV(I, D, A) I(bound_state_filtering) I(bound_state_localization) I(niter) I(Dsub) I(discspec_type) I(contspec_type) I(normalization_flag) I(discretization) I(richardson_extrapolation_flag)
#define INVV(I, D, A) I(discretization) I(contspec_type) I(contspec_inversion_method) I(discspec_type) I(max_iter) I(oversampling_factor)
typedef union { fnft_nsev_opts_t nsev; fnft_nsep_opts_t nsep; fnft_kdvv_opts_t kdvv; fnft_manakovv_opts_t manakovv; fnft_nsev_inverse_opts_t inverse; } anyopt;
#define GEN(K, T, L) \
  static void set_##K(T *o, args_t *a) { const char *v; L(FI, FD, FA) } \
  static void str_##K(out_t *s, T *o) { L(SI, SD, SA) }
GEN(nsev, fnft_nsev_opts_t, NSEV) GEN(nsep, fnft_nsep_opts_t, NSEP) GEN(kdvv, fnft_kdvv_opts_t, KDVV) GEN(manakovv, fnft_manakovv_opts_t, MANV) GEN(inverse, fnft_nsev_inverse_opts_t, INVV)

#ifndef NO_MANAKOV
#define MAN(X) X
#else
#define MAN(X)
#endif
enum { K_NSEV, K_NSEP, K_KDVV, K_MAN, K_INV };
static int kind_of(const char *s) { return !strcmp(s, "nsev") ? K_NSEV : !strcmp(s, "nsep") ? K_NSEP : !strcmp(s, "kdvv") ? K_KDVV : !strcmp(s, "manakovv") ? K_MAN : K_INV; }
static void dflt(int k, anyopt *o) { memset(o, 0, sizeof *o); switch (k) {
  case K_NSEV: o->nsev = fnft_nsev_default_opts(); break; case K_NSEP: o->nsep = fnft_nsep_default_opts(); break;
  case K_KDVV: o->kdvv = fnft_kdvv_default_opts(); break; case K_MAN: MAN(o->manakovv = fnft_manakovv_default_opts();) break;
  default: o->inverse = fnft_nsev_inverse_default_opts(); } }
static void setf(int k, anyopt *o, args_t *a) { switch (k) { case K_NSEV: set_nsev(&o->nsev, a); break; case K_NSEP: set_nsep(&o->nsep, a); break;
  case K_KDVV: set_kdvv(&o->kdvv, a); break; case K_MAN: set_manakovv(&o->manakovv, a); break; default: set_inverse(&o->inverse, a); } }
static char *ostr(int k, anyopt *o) { out_t s = {0}; switch (k) { case K_NSEV: str_nsev(&s, &o->nsev); break; case K_NSEP: str_nsep(&s, &o->nsep); break;
  case K_KDVV: str_kdvv(&s, &o->kdvv); break; case K_MAN: str_manakovv(&s, &o->manakovv); break; default: str_inverse(&s, &o->inverse); } return s.s; }

static struct { char name[32]; int kind; anyopt o; } objs[32]; static int nobjs;
static pthread_mutex_t objmu = PTHREAD_MUTEX_INITIALIZER;

typedef struct { int kind; anyopt own; anyopt *p; char *before, *dbefore; } optctx;
static void opt_begin(optctx *c, int kind, args_t *a) {
  c->kind = kind; dflt(kind, &c->own); anyopt d; dflt(kind, &d); c->dbefore = ostr(kind, &d);
  const char *v = arg(a, "opts", "inline");
  if (!strcmp(v, "null")) c->p = NULL;
  else if (!strncmp(v, "obj:", 4)) { c->p = NULL; for (int i = 0; i < nobjs; i++) if (!strcmp(objs[i].name, v + 4)) c->p = &objs[i].o; }
  else { setf(kind, &c->own, a); c->p = &c->own; }
  c->before = c->p ? ostr(kind, c->p) : NULL; }
static void opt_end(optctx *c, out_t *o) {
  if (c->p) { char *s = ostr(c->kind, c->p); o_int(o, "optsame", !strcmp(s, c->before)); free(s); free(c->before); } else o_int(o, "optsame", 1);
  anyopt d; dflt(c->kind, &d); char *s = ostr(c->kind, &d); o_int(o, "dfltsame", !strcmp(s, c->dbefore)); free(s); free(c->dbefore); }
static int op_mkopts(args_t *a, out_t *o) { pthread_mutex_lock(&objmu); int k = kind_of(arg(a, "kind", "")), i; const char *nm = arg(a, "name", "o");
  for (i = 0; i < nobjs; i++) if (!strcmp(objs[i].name, nm)) break; if (i == nobjs) nobjs++;
  strncpy(objs[i].name, nm, 31); objs[i].kind = k; dflt(k, &objs[i].o); setf(k, &objs[i].o, a); pthread_mutex_unlock(&objmu);
  char *s = ostr(k, &objs[i].o); o_str(o, "opts", s); free(s); return 0; }
static int op_dflt(args_t *a, out_t *o) { int k = kind_of(arg(a, "kind", "")); anyopt d; dflt(k, &d); char *s = ostr(k, &d); o_str(o, "opts", s); free(s); return 0; }

/* copies of inputs, compared after the call */
typedef struct { const void *p; void *cp; size_t n; } in_t;
static in_t keep(const void *p, size_t n) { in_t i = {p, NULL, p ? n : 0}; if (p) { i.cp = malloc(n ? n : 1); memcpy(i.cp, p, n); } return i; }
static int same(in_t *i) { int r = i->p == NULL || !memcmp(i->p, i->cp, i->n); free(i->cp); return r; }
/* shared arrays: key "@name" refers to an array defined once by op "array" */
static struct { char name[32]; C *v; size_t n; } arrs[32]; static int narrs;
static int op_array(args_t *a, out_t *o) { size_t n; C *v = argc_(a, "v", &n); int i; const char *nm = arg(a, "name", "x");
  for (i = 0; i < narrs; i++) if (!strcmp(arrs[i].name, nm)) break; if (i == narrs) narrs++;
  strncpy(arrs[i].name, nm, 31); arrs[i].v = v; arrs[i].n = n; o_int(o, "len", (long) n); return 0; }
static C *cx_in(args_t *a, const char *k, size_t *n, int *own) { const char *v = arg(a, k, NULL); *own = 1;
  if (v && v[0] == '@') { *own = 0; for (int i = 0; i < narrs; i++) if (!strcmp(arrs[i].name, v + 1)) { *n = arrs[i].n; return arrs[i].v; } }
  return argc_(a, k, n); }
static void show(out_t *o, const char *k, void *b, size_t n) { if (b) o_cx(o, k, b, n); }

static int op_nsev(args_t *a, out_t *o) {
  size_t nq, nT, nX, n0; int oq; C *q = cx_in(a, "q", &nq, &oq); double *T = argr(a, "T", &nT), *XI = argr(a, "XI", &nX);
  UI D = (UI) argi(a, "D", (long) nq), M = (UI) argi(a, "M", 0); long Kc = argi(a, "K", 0);
  optctx oc; opt_begin(&oc, K_NSEV, a);
  anyopt eff; dflt(K_NSEV, &eff); if (oc.p) eff = *oc.p;
  UI csl = eff.nsev.contspec_type == 0 ? 1 : eff.nsev.contspec_type == 1 ? 2 : 3;
  UI ncl = eff.nsev.discspec_type == 2 ? 2 : 1;
  C *cs = argi(a, "cs", 1) ? ubuf(csl*M*sizeof(C)) : NULL;
  UI K = (UI) (Kc < 0 ? 0 : Kc), *Kp = Kc >= 0 ? &K : NULL, K0 = K;
  C *bs = argi(a, "bs", 0) ? ubuf(K0*sizeof(C)) : NULL, *nc = argi(a, "nc", 0) ? ubuf(ncl*K0*sizeof(C)) : NULL;
  C *init = argc_(a, "init", &n0); if (init && bs) memcpy(bs, init, (n0 < K0 ? n0 : K0)*sizeof(C));
  if (argi(a, "polish", 0) && bs && oc.p) { /* iterate as long as possible first: the guess is often an exact zero */
    anyopt po = *oc.p; po.nsev.tol = 0; po.nsev.niter = 100; UI K1 = K0; FNFT_INT kap = (FNFT_INT) argi(a, "kappa", 1); C av = 1, ap, bv, *r = malloc(nq*sizeof(C));
    for (size_t i = 0; i < nq; i++) r[i] = -kap*conj(q[i]);
    FNFT_INT r1 = fnft_nsev(D, q, T, 0, NULL, NULL, &K1, bs, NULL, kap, &po.nsev), r2 = r1 == 0 && K1 == 1 ? fnft__nse_scatter_bound_states(D, q, r, T, 1, bs, &av, &ap, &bv, NULL, po.nsev.discretization, 1) : 1;
    o_int(o, "exact", r2 == 0 && av == 0); free(r); }
  in_t i1 = keep(q, nq*sizeof(C)), i2 = keep(T, nT*8), i3 = keep(XI, nX*8);
  lib_enter(a);
  FNFT_INT rc = fnft_nsev(D, q, T, M, cs, XI, Kp, bs, nc, (FNFT_INT) argi(a, "kappa", 1), oc.p ? &oc.p->nsev : NULL);
  lib_leave(o); o_int(o, "ret", rc);
  o_int(o, "insame", same(&i1) & same(&i2) & same(&i3)); opt_end(&oc, o);
  o_int(o, "guard", ubuf_ok(cs) && ubuf_ok(bs) && ubuf_ok(nc));
  o_int(o, "touched", (long) (ubuf_touched(cs) + (init ? 0 : ubuf_touched(bs)) + ubuf_touched(nc)));
  o_int(o, "Kout", Kp ? (long) K : -1);
  if (rc == 0 || argi(a, "dump", 0)) { UI Kn = K < K0 ? K : K0; show(o, "contspec", cs, csl*M); show(o, "bs", bs, Kn);
    /* both: norming constants first, residues after the K_out constants */
    show(o, "nc", nc, (size_t) ncl*Kn); }
  if (oq) free(q); free(T); free(XI); free(init); ubuf_free(cs); ubuf_free(bs); ubuf_free(nc); return rc; }

static int op_nsep(args_t *a, out_t *o) {
  size_t nq, nT, n0; int oq; C *q = cx_in(a, "q", &nq, &oq); double *T = argr(a, "T", &nT);
  UI D = (UI) argi(a, "D", (long) nq); long Kc = argi(a, "K", 0), Mc = argi(a, "M", 0);
  optctx oc; opt_begin(&oc, K_NSEP, a);
  UI K = (UI) (Kc < 0 ? 0 : Kc), Mm = (UI) (Mc < 0 ? 0 : Mc), K0 = K, M0 = Mm;
  if (has(a, "Kg")) K = (UI) argi(a, "Kg", 0);  /* guesses per spine point, the array is larger */
  C *ms = argi(a, "ms", 1) ? ubuf(K0*sizeof(C)) : NULL, *as = argi(a, "as", 1) ? ubuf(M0*sizeof(C)) : NULL;
  double *sh = argi(a, "sh", 0) ? ubuf(M0*8) : NULL;
  C *init = argc_(a, "init", &n0); if (init && ms) memcpy(ms, init, (n0 < K0 ? n0 : K0)*sizeof(C)); free(init);
  init = argc_(a, "inita", &n0); if (init && as) memcpy(as, init, (n0 < M0 ? n0 : M0)*sizeof(C)); free(init);
  in_t i1 = keep(q, nq*sizeof(C)), i2 = keep(T, nT*8);
  lib_enter(a);
  FNFT_INT rc = fnft_nsep(D, q, T, argd(a, "phase", 0), Kc >= 0 ? &K : NULL, ms, Mc >= 0 ? &Mm : NULL, as, sh, (FNFT_INT) argi(a, "kappa", 1), oc.p ? &oc.p->nsep : NULL);
  lib_leave(o); o_int(o, "ret", rc);
  o_int(o, "insame", same(&i1) & same(&i2)); opt_end(&oc, o);
  o_int(o, "guard", ubuf_ok(ms) && ubuf_ok(as) && ubuf_ok(sh));
  o_int(o, "touched", (long) (has(a, "init") ? 0 : ubuf_touched(ms)) + (long) (has(a, "inita") ? 0 : ubuf_touched(as)) + (long) ubuf_touched(sh));
  o_int(o, "Kout", Kc >= 0 ? (long) K : -1); o_int(o, "Mout", Mc >= 0 ? (long) Mm : -1);
  if (rc == 0) { show(o, "ms", ms, K < K0 ? K : K0); show(o, "as", as, Mm < M0 ? Mm : M0); }
  if (oq) free(q); free(T); ubuf_free(ms); ubuf_free(as); ubuf_free(sh); return rc; }

static int op_kdvv(args_t *a, out_t *o) {
  size_t nq, nT, nX, n0; int oq; C *q = cx_in(a, "q", &nq, &oq); double *T = argr(a, "T", &nT), *XI = argr(a, "XI", &nX);
  UI D = (UI) argi(a, "D", (long) nq), M = (UI) argi(a, "M", 0); long Kc = argi(a, "K", 0);
  optctx oc; opt_begin(&oc, K_KDVV, a); anyopt eff; dflt(K_KDVV, &eff); if (oc.p) eff = *oc.p;
  UI csl = eff.kdvv.contspec_type == 0 ? 1 : eff.kdvv.contspec_type == 1 ? 2 : 3, ncl = eff.kdvv.discspec_type == 2 ? 2 : 1;
  C *cs = argi(a, "cs", 1) ? ubuf(csl*M*sizeof(C)) : NULL;
  UI K = (UI) (Kc < 0 ? 0 : Kc), *Kp = Kc >= 0 ? &K : NULL, K0 = K;
  C *bs = argi(a, "bs", 0) ? ubuf(K0*sizeof(C)) : NULL, *nc = argi(a, "nc", 0) ? ubuf(ncl*K0*sizeof(C)) : NULL;
  C *init = argc_(a, "init", &n0); if (init && bs) memcpy(bs, init, (n0 < K0 ? n0 : K0)*sizeof(C));
  in_t i1 = keep(q, nq*sizeof(C)), i2 = keep(T, nT*8), i3 = keep(XI, nX*8);
  lib_enter(a);
  FNFT_INT rc = fnft_kdvv(D, q, T, M, cs, XI, Kp, bs, nc, oc.p ? &oc.p->kdvv : NULL);
  lib_leave(o); o_int(o, "ret", rc);
  o_int(o, "insame", same(&i1) & same(&i2) & same(&i3)); opt_end(&oc, o);
  o_int(o, "guard", ubuf_ok(cs) && ubuf_ok(bs) && ubuf_ok(nc));
  o_int(o, "touched", (long) (ubuf_touched(cs) + (init ? 0 : ubuf_touched(bs)) + ubuf_touched(nc)));
  o_int(o, "Kout", Kp ? (long) K : -1);
  if (rc == 0) { UI Kn = K < K0 ? K : K0; show(o, "contspec", cs, csl*M); show(o, "bs", bs, Kn); show(o, "nc", nc, (size_t) ncl*Kn); }
  if (oq) free(q); free(T); free(XI); free(init); ubuf_free(cs); ubuf_free(bs); ubuf_free(nc); return rc; }

#ifndef NO_MANAKOV
static int op_manakovv(args_t *a, out_t *o) {
  size_t nq, nq2, nT, nX, n0; int oq, oq2; C *q = cx_in(a, "q", &nq, &oq), *q2 = cx_in(a, "q2", &nq2, &oq2); double *T = argr(a, "T", &nT), *XI = argr(a, "XI", &nX);
  UI D = (UI) argi(a, "D", (long) nq), M = (UI) argi(a, "M", 0); long Kc = argi(a, "K", 0);
  optctx oc; opt_begin(&oc, K_MAN, a); anyopt eff; dflt(K_MAN, &eff); if (oc.p) eff = *oc.p;
  UI csl = eff.manakovv.contspec_type == 0 ? 2 : eff.manakovv.contspec_type == 1 ? 3 : 5, ncl = eff.manakovv.discspec_type == 2 ? 2 : 1;
  C *cs = argi(a, "cs", 1) ? ubuf(csl*M*sizeof(C)) : NULL;
  UI K = (UI) (Kc < 0 ? 0 : Kc), *Kp = Kc >= 0 ? &K : NULL, K0 = K;
  C *bs = argi(a, "bs", 0) ? ubuf(K0*sizeof(C)) : NULL, *nc = argi(a, "nc", 0) ? ubuf(ncl*K0*sizeof(C)) : NULL;
  C *init = argc_(a, "init", &n0); if (init && bs) memcpy(bs, init, (n0 < K0 ? n0 : K0)*sizeof(C));
  in_t i1 = keep(q, nq*sizeof(C)), i2 = keep(T, nT*8), i3 = keep(XI, nX*8), i4 = keep(q2, nq2*sizeof(C));
  lib_enter(a);
  FNFT_INT rc = fnft_manakovv(D, q, q2, T, M, cs, XI, Kp, bs, nc, (FNFT_INT) argi(a, "kappa", 1), oc.p ? &oc.p->manakovv : NULL);
  lib_leave(o); o_int(o, "ret", rc);
  o_int(o, "insame", same(&i1) & same(&i2) & same(&i3) & same(&i4)); opt_end(&oc, o);
  o_int(o, "guard", ubuf_ok(cs) && ubuf_ok(bs) && ubuf_ok(nc));
  o_int(o, "touched", (long) (ubuf_touched(cs) + (init ? 0 : ubuf_touched(bs)) + ubuf_touched(nc)));
  o_int(o, "Kout", Kp ? (long) K : -1);
  if (rc == 0) { UI Kn = K < K0 ? K : K0; show(o, "contspec", cs, csl*M); show(o, "bs", bs, Kn); }
  if (oq) free(q); if (oq2) free(q2); free(T); free(XI); free(init); ubuf_free(cs); ubuf_free(bs); ubuf_free(nc); return rc; }
#endif

static int op_inverse(args_t *a, out_t *o) {
  size_t nc_, nX, nb, nn, nT, ns; C *cs = argc_(a, "contspec", &nc_), *bs = argc_(a, "bs", &nb), *nc = argc_(a, "nc", &nn), *seed = argc_(a, "seed", &ns);
  double *T = argr(a, "T", &nT), *XI = argr(a, "XI", &nX); UI D = (UI) argi(a, "D", 0), M = (UI) argi(a, "M", (long) nc_), K = (UI) argi(a, "K", (long) nb);
  optctx oc; opt_begin(&oc, K_INV, a);
  C *q = argi(a, "qout", 1) ? ubuf(D*sizeof(C)) : NULL; if (q && seed) memcpy(q, seed, (ns < D ? ns : D)*sizeof(C));
  in_t i1 = keep(cs, nc_*sizeof(C)), i2 = keep(T, nT*8), i3 = keep(XI, nX*8), i4 = keep(bs, nb*sizeof(C)), i5 = keep(nc, nn*sizeof(C));
  lib_enter(a);
  FNFT_INT rc = fnft_nsev_inverse(M, cs, XI, K, bs, nc, D, q, T, (FNFT_INT) argi(a, "kappa", 1), oc.p ? &oc.p->inverse : NULL);
  lib_leave(o); o_int(o, "ret", rc);
  o_int(o, "insame", same(&i2) & same(&i3) & same(&i4) & same(&i5)); o_int(o, "cssame", same(&i1)); opt_end(&oc, o);
  o_int(o, "guard", ubuf_ok(q)); o_int(o, "touched", seed ? 0 : (long) ubuf_touched(q));
  if (rc == 0) show(o, "q", q, D);
  free(cs); free(bs); free(nc); free(seed); free(T); free(XI); ubuf_free(q); return rc; }
static int op_inverse_XI(args_t *a, out_t *o) { size_t nT; double *T = argr(a, "T", &nT); double *XI = argi(a, "xout", 1) ? ubuf(16) : NULL;
  lib_enter(a); FNFT_INT rc = fnft_nsev_inverse_XI((UI) argi(a, "D", 0), T, (UI) argi(a, "M", 0), XI, (fnft_nse_discretization_t) argi(a, "dis", 0)); lib_leave(o);
  o_int(o, "ret", rc); o_int(o, "guard", ubuf_ok(XI)); o_int(o, "touched", (long) ubuf_touched(XI)); if (XI && rc == 0) o_re(o, "XI", XI, 2); free(T); ubuf_free(XI); return rc; }
static int op_maxK(args_t *a, out_t *o) { int k = kind_of(arg(a, "kind", "nsev")); optctx oc; opt_begin(&oc, k, a); UI r = 0; lib_enter(a);
  if (k == K_NSEV) r = fnft_nsev_max_K((UI) argi(a, "D", 0), oc.p ? &oc.p->nsev : NULL);
  MAN(else r = fnft_manakovv_max_K((UI) argi(a, "D", 0), oc.p ? &oc.p->manakovv : NULL);)
  lib_leave(o); o_int(o, "val", (long) r); opt_end(&oc, o); return 0; }
static int op_version(args_t *a, out_t *o) { FNFT_UINT x = 99, y = 99, z = 99; char s[64] = "unset"; int g = argi(a, "given", 15) & 15; lib_enter(a);
  int rc = fnft_version(g & 1 ? &x : NULL, g & 2 ? &y : NULL, g & 4 ? &z : NULL, g & 8 ? s : NULL); lib_leave(o);
  o_int(o, "ret", rc); o_int(o, "major", (long) x); o_int(o, "minor", (long) y); o_int(o, "patch", (long) z); o_str(o, "suffix", s); return 0; }
op_t ops_api[] = {{"mkopts", op_mkopts}, {"dflt", op_dflt}, {"array", op_array}, {"nsev", op_nsev}, {"nsep", op_nsep}, {"kdvv", op_kdvv},
#ifndef NO_MANAKOV
  {"manakovv", op_manakovv},
#endif
  {"inverse", op_inverse}, {"inverse_XI", op_inverse_XI}, {"maxK", op_maxK}, {"version", op_version}, {NULL, NULL}};
