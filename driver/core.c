#include <sys/resource.h>
/* Conformance driver: executes the calls of sessions produced from the TLA+
 * specification and logs what happened, one JSON object per call.
 * Nothing is judged here.
 * usage: drv SESSIONS LOG ;  a line "session\t<id>" starts a new process. */
#include "drv.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
#include <errno.h>
#include <pthread.h>

__thread mem_t M_ = { .fill = -1 };
void (*sched_point)(int tid, const char *what) = NULL;

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t); void __real_free(void *);
static int fail_now(void) {
  M_.nalloc++;
  if (M_.failat > 0 && (M_.nalloc == M_.failat || (M_.failall && M_.nalloc > M_.failat))) { M_.failed++; return 1; }
  return 0;
}
void *__wrap_malloc(size_t n) {
  if (!M_.on) return __real_malloc(n);
  if (sched_point && M_.tid) sched_point(M_.tid, "malloc");
  if (fail_now()) { errno = ENOMEM; return NULL; }
  void *p = __real_malloc(n);
  if (p) { M_.live++; if (M_.fill >= 0) memset(p, M_.fill, n); }
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (!M_.on) return __real_calloc(a, b);
  if (sched_point && M_.tid) sched_point(M_.tid, "calloc");
  if (fail_now()) { errno = ENOMEM; return NULL; }
  void *p = __real_calloc(a, b); if (p) M_.live++; return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if (!M_.on) return __real_realloc(q, n);
  if (fail_now()) { errno = ENOMEM; return NULL; }
  void *p = __real_realloc(q, n); if (p && !q) M_.live++; return p;
}
void __wrap_free(void *p) {
  if (M_.on && p) { if (sched_point && M_.tid) sched_point(M_.tid, "free"); M_.live--; }
  __real_free(p);
}

/* temporaries generated by the Fortran compiler, see HIDDEN in bin/build.py */
void *eis_malloc(size_t n) { if (M_.on && M_.failhidden > 0 && --M_.failhidden == 0) { M_.failed++; errno = ENOMEM; return NULL; } return __real_malloc(n); }
void eis_free(void *p) { __real_free(p); }

/* ---- messages */
typedef struct { char *s; size_t n; int errs, warns, calls, badloc; } msg_t;
static __thread msg_t msgs;
int drv_hook_id = 0;
static __thread int hook_calls[4];
static FNFT_INT rec(int id, const char *fmt, va_list ap) {
  int on = M_.on; M_.on = 0;
  char b[600]; int r = vsnprintf(b, sizeof b, fmt, ap);
  hook_calls[id]++; msgs.calls++;
  if (!strncmp(b, "FNFT Error", 10)) msgs.errs++;
  else if (!strncmp(b, "FNFT Warning", 12)) msgs.warns++;
  /* "... in <function>(<line>)-" */
  char *p = strstr(b, "\n in "); int ok = 0;
  if (p) { char f[200]; int line = 0; if (sscanf(p + 5, "%190[A-Za-z0-9_](%d)", f, &line) == 2 && line > 0 && !strncmp(f, "fnft", 4)) ok = 1;
           else if (sscanf(p + 5, "%190[A-Za-z0-9_](%d)", f, &line) == 2 && line > 0) ok = 1; }
  if (!ok) msgs.badloc++;
  M_.on = on; return r;
}
FNFT_INT hook_a(const char *f, ...) { va_list ap; va_start(ap, f); FNFT_INT r = rec(1, f, ap); va_end(ap); return r; }
FNFT_INT hook_b(const char *f, ...) { va_list ap; va_start(ap, f); FNFT_INT r = rec(2, f, ap); va_end(ap); return r; }
FNFT_INT hook_r(const char *f, ...) { va_list ap; va_start(ap, f); FNFT_INT r = rec(3, f, ap); va_end(ap); return r; }
static fnft_printf_ptr_t dflt_hook; /* what the library starts with */
static const char *hook_name(fnft_printf_ptr_t p) {
  if (p == NULL) return "none"; if (p == hook_a) return "A"; if (p == hook_b) return "B"; if (p == hook_r) return "R";
  return p == dflt_hook ? "default" : "other"; }
static fnft_printf_ptr_t hook_of(const char *s) {
  if (!strcmp(s, "A")) return hook_a; if (!strcmp(s, "B")) return hook_b; if (!strcmp(s, "R")) return hook_r;
  if (!strcmp(s, "default")) return dflt_hook; return NULL; }

/* ---- arguments */
const char *arg(args_t *a, const char *k, const char *def) {
  for (int i = 0; i < a->n; i++) if (!strcmp(a->k[i], k)) return a->v[i]; return def; }
int has(args_t *a, const char *k) { const char *v = arg(a, k, NULL); return v && strcmp(v, "null"); }
long argi(args_t *a, const char *k, long def) { const char *v = arg(a, k, NULL); return v ? strtol(v, NULL, 10) : def; }
double argd(args_t *a, const char *k, double def) { const char *v = arg(a, k, NULL); return v ? strtod(v, NULL) : def; }
C *argc_(args_t *a, const char *k, size_t *n) {
  const char *v = arg(a, k, NULL); if (n) *n = 0; if (!v || !strcmp(v, "null")) return NULL;
  size_t c = 0; for (const char *p = v; *p; p++) c += *p == ' ';
  C *r = malloc((c + 1)*sizeof(C)); size_t i = 0; char *e; const char *p = v;
  while (*p) { while (*p == ' ') p++; if (!*p) break; double x = strtod(p, &e), y = 0; p = e; if (*p == ',') { y = strtod(p + 1, &e); p = e; }
    double *w = (double *) &r[i++]; w[0] = x; w[1] = y; }
  if (n) *n = i;
  C *s = malloc((i ? i : 1)*sizeof(C)); memcpy(s, r, i*sizeof(C)); free(r); return s; /* exact size */
}
double *argr(args_t *a, const char *k, size_t *n) {
  size_t m; C *c = argc_(a, k, &m); if (n) *n = m; if (!c) return NULL;
  double *r = malloc((m ? m : 1)*sizeof(double)); for (size_t i = 0; i < m; i++) r[i] = creal(c[i]); free(c); return r; }

/* ---- output */
void o_raw(out_t *o, const char *fmt, ...) {
  char tmp[256]; va_list ap; va_start(ap, fmt); int k = vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap);
  if (o->n + (size_t) k + 1 > o->cap) { o->cap = 2*o->cap + (size_t) k + 1024; o->s = realloc(o->s, o->cap); }
  if ((size_t) k < sizeof tmp) memcpy(o->s + o->n, tmp, (size_t) k + 1);
  else { va_start(ap, fmt); vsnprintf(o->s + o->n, (size_t) k + 1, fmt, ap); va_end(ap); }
  o->n += (size_t) k; }
static void key(out_t *o, const char *k) { o_raw(o, "%s\"%s\":", o->first ? "" : ",", k); o->first = 0; }
void o_int(out_t *o, const char *k, long v) { key(o, k); o_raw(o, "%ld", v); }
void o_str(out_t *o, const char *k, const char *v) { key(o, k); o_raw(o, "\"%s\"", v); }
static void num(out_t *o, double x) { if (isnan(x)) o_raw(o, "nan"); else if (isinf(x)) o_raw(o, x > 0 ? "inf" : "-inf"); else o_raw(o, "%.17g", x); }
void o_cx(out_t *o, const char *k, const C *v, size_t n) { key(o, k); o_raw(o, "\"");
  for (size_t i = 0; i < n; i++) { if (i) o_raw(o, " "); const double *w = (const double *) &v[i]; num(o, w[0]); o_raw(o, ","); num(o, w[1]); } o_raw(o, "\""); }
void o_re(out_t *o, const char *k, const double *v, size_t n) { key(o, k); o_raw(o, "\"");
  for (size_t i = 0; i < n; i++) { if (i) o_raw(o, " "); num(o, v[i]); } o_raw(o, "\""); }

/* ---- caller buffers */
#define PAT 0x7ff4a5a5c3c3e1e1ULL   /* a NaN */
#define GRD 0x5ca1ab1ef00dfaceULL
#define NG 64
typedef struct { size_t nw; uint64_t pre[NG]; } hdr_t;
void *ubuf(size_t nbytes) {
  size_t nw = (nbytes + 7)/8; uint64_t *b = malloc(sizeof(hdr_t) + (nw + NG)*8);
  hdr_t *h = (hdr_t *) b; h->nw = nw; for (int i = 0; i < NG; i++) h->pre[i] = GRD;
  uint64_t *d = (uint64_t *) (h + 1); for (size_t i = 0; i < nw; i++) d[i] = PAT; for (int i = 0; i < NG; i++) d[nw + i] = GRD;
  return d; }
int ubuf_ok(void *p) { if (!p) return 1; hdr_t *h = (hdr_t *) p - 1; uint64_t *d = p;
  for (int i = 0; i < NG; i++) if (h->pre[i] != GRD || d[h->nw + i] != GRD) return 0; return 1; }
size_t ubuf_touched(void *p) { if (!p) return 0; hdr_t *h = (hdr_t *) p - 1; uint64_t *d = p; size_t c = 0;
  for (size_t i = 0; i < h->nw; i++) c += d[i] != PAT; return c; }
void ubuf_free(void *p) { if (p) free((hdr_t *) p - 1); }

/* ---- enter/leave library */
/* capture=1: what the call writes to standard output and error is counted */
static int cap_on, cap_fd = -1, cap_old[2];
static void cap_begin(void) {
  char name[] = "/tmp/drvcapXXXXXX"; fflush(stdout); fflush(stderr);
  cap_fd = mkstemp(name); if (cap_fd < 0) return; unlink(name);
  for (int i = 0; i < 2; i++) { cap_old[i] = dup(1 + i); dup2(cap_fd, 1 + i); } cap_on = 1; }
static void cap_end(out_t *o) {
  fflush(stdout); fflush(stderr);
  for (int i = 0; i < 2; i++) { dup2(cap_old[i], 1 + i); close(cap_old[i]); }
  off_t n = lseek(cap_fd, 0, SEEK_END); char *b = calloc(1, (size_t) n + 1); int e = 0, w = 0;
  if (pread(cap_fd, b, (size_t) n, 0) == n) { char *p; for (p = b; (p = strstr(p, "FNFT Error:")); p++) e++; for (p = b; (p = strstr(p, "FNFT Warning:")); p++) w++; }
  o_int(o, "printed", (long) n); o_int(o, "printederrs", e); o_int(o, "printedwarns", w); free(b); close(cap_fd); cap_on = 0; }
void lib_enter(args_t *a) {
  if (argi(a, "capture", 0)) cap_begin();
  M_.nalloc = M_.live = M_.failed = 0; M_.failat = argi(a, "failat", 0); M_.failall = argi(a, "failall", 0); M_.failhidden = argi(a, "failhidden", 0); M_.fill = (int) argi(a, "fill", -1);
  memset(&msgs, 0, sizeof msgs); memset(hook_calls, 0, sizeof hook_calls);
  M_.on = 1; }
void lib_leave(out_t *o) {
  M_.on = 0;
  if (cap_on) cap_end(o);
  o_int(o, "nalloc", M_.nalloc); o_int(o, "live", M_.live); o_int(o, "failed", M_.failed);
  o_int(o, "errs", msgs.errs); o_int(o, "warns", msgs.warns); o_int(o, "msgs", msgs.calls); o_int(o, "badloc", msgs.badloc);
  o_int(o, "hkA", hook_calls[1]); o_int(o, "hkB", hook_calls[2]); o_int(o, "hkR", hook_calls[3]);
}

/* ---- session ops handled here */
static int op_hook(args_t *a, out_t *o) { fnft_errwarn_setprintf(hook_of(arg(a, "h", "none"))); o_str(o, "got", hook_name(fnft_errwarn_getprintf())); return 0; }
static int op_gethook(args_t *a, out_t *o) { (void) a; o_str(o, "got", hook_name(fnft_errwarn_getprintf())); return 0; }

static opfn find(const char *name) {
  op_t *tabs[] = {ops_api, ops_low, ops_man, ops_mex};
  for (int t = 0; t < 4; t++) for (op_t *p = tabs[t]; p->name; p++) if (!strcmp(p->name, name)) return p->fn;
  if (!strcmp(name, "sethook")) return op_hook;
  if (!strcmp(name, "gethook")) return op_gethook;
  return NULL; }

static void parse(char *line, args_t *a, char **op) {
  a->n = 0; char *sv, *t = strtok_r(line, "\t\n", &sv); *op = t;
  while ((t = strtok_r(NULL, "\t\n", &sv))) { char *e = strchr(t, '='); if (!e) continue; *e = 0;
    a->k[a->n] = t; a->v[a->n++] = e + 1; } }

static FILE *logf_;
static void emit(const char *sess, int k, out_t *o) { fprintf(logf_, "{\"s\":%s,\"k\":%d,\"r\":{%s}}\n", sess, k, o->s ? o->s : ""); fflush(logf_); }

/* ---- concurrent calls under a given schedule */
#define MAXT 4
/* A schedule is a cyclic list "thread:steps thread:steps ..."; a step is a
   basic block of the library (built with trace-pc) or an allocation. */
static struct { pthread_mutex_t mu; pthread_cond_t cv; int n, turn; long left; int done[MAXT + 1]; struct { int t; long n; } q[256]; int nq, pos; long points[MAXT + 1], switches; int mode; } S = {PTHREAD_MUTEX_INITIALIZER, PTHREAD_COND_INITIALIZER};
static void sched_parse(const char *s) { S.nq = 0; S.pos = 0; int t, k; long n;
  while (S.nq < 256 && sscanf(s, " %d:%ld%n", &t, &n, &k) == 2) { S.q[S.nq].t = t; S.q[S.nq++].n = n < 1 ? 1 : n; s += k; } }
static void pick(void) { /* who runs next, and for how long */
  for (int k = 0; k < S.nq; k++) { int j = S.pos; S.pos = (S.pos + 1) % S.nq; int t = S.q[j].t;
    if (t >= 1 && t <= S.n && !S.done[t]) { S.turn = t; S.left = S.q[j].n; return; } }
  S.turn = 0; for (int i = 1; i <= S.n; i++) if (!S.done[i]) { S.turn = i; S.left = 1000; return; } }
static void point(int tid, const char *what) { (void) what;
  if (S.turn == tid) { S.points[tid]++; if (--S.left > 0) return; }
  int on = M_.on; M_.on = 0;
  pthread_mutex_lock(&S.mu);
  int before = S.turn; pick(); if (S.turn != before) { S.switches++; pthread_cond_broadcast(&S.cv); }
  while (S.turn != tid) pthread_cond_wait(&S.cv, &S.mu);
  pthread_mutex_unlock(&S.mu); M_.on = on; }
void __sanitizer_cov_trace_pc(void);
void __sanitizer_cov_trace_pc(void) { if (sched_point && M_.tid && M_.on) point(M_.tid, "block"); }
typedef struct { int tid; char **lines; int nl; out_t *outs; const char *hook; } thr_t;
static void *thr_main(void *v) { thr_t *t = v;
  if (S.mode) { pthread_mutex_lock(&S.mu); while (S.turn != t->tid) pthread_cond_wait(&S.cv, &S.mu); pthread_mutex_unlock(&S.mu); M_.tid = t->tid; }
  if (strcmp(t->hook, "inherit")) fnft_errwarn_setprintf(hook_of(t->hook));
  for (int i = 0; i < t->nl; i++) { args_t a; char *op; parse(t->lines[i], &a, &op); t->outs[i].first = 1; opfn f = find(op);
    if (f) f(&a, &t->outs[i]); else o_str(&t->outs[i], "noop", op);
    o_str(&t->outs[i], "hookafter", hook_name(fnft_errwarn_getprintf())); }
  M_.tid = 0;
  if (S.mode) { pthread_mutex_lock(&S.mu); S.done[t->tid] = 1; pick(); pthread_cond_broadcast(&S.cv); pthread_mutex_unlock(&S.mu); }
  return NULL; }

static void run_session(char **lines, int n, const char *sess) {
  int k = 0;
  for (int i = 0; i < n; i++) {
    if (!strncmp(lines[i], "par\t", 4)) { /* par sched=.. n=.. hooks=a,b ; following lines "@t\top..." */
      args_t a; char *op; parse(lines[i], &a, &op); int nt = (int) argi(&a, "n", 2);
      thr_t th[MAXT]; pthread_t id[MAXT]; memset(th, 0, sizeof th); int owner[64], idx[64], nsub = 0;
      char hk[MAXT][16]; const char *hs = arg(&a, "hooks", "inherit,inherit,inherit,inherit"); sscanf(hs, "%15[^,],%15[^,],%15[^,],%15[^,]", hk[0], hk[1], hk[2], hk[3]);
      for (int t = 0; t < nt; t++) { th[t].tid = t + 1; th[t].lines = calloc(64, sizeof(char *)); th[t].outs = calloc(64, sizeof(out_t)); th[t].hook = hk[t]; }
      int j = i + 1; for (; j < n && lines[j][0] == '@'; j++) { int t = lines[j][1] - '1'; owner[nsub] = t; idx[nsub++] = th[t].nl; th[t].lines[th[t].nl++] = lines[j] + 3; }
      S.n = nt; { const char *sc = arg(&a, "sched", "1:1 2:1"); S.mode = strcmp(sc, "free") != 0; sched_parse(sc); } S.switches = 0; memset(S.done, 0, sizeof S.done); memset(S.points, 0, sizeof S.points); S.switches = 0;
      S.turn = 0; sched_point = S.mode ? point : NULL;
      if (S.mode) pick();
      for (int t = 0; t < nt; t++) pthread_create(&id[t], NULL, thr_main, &th[t]);
      for (int t = 0; t < nt; t++) pthread_join(id[t], NULL);
      sched_point = NULL;
      out_t o = {0}; o.first = 1; o_int(&o, "points", S.points[1] + S.points[2] + S.points[3]); o_int(&o, "switches", S.switches);
      o_str(&o, "hookafter", hook_name(fnft_errwarn_getprintf()));
      emit(sess, k++, &o); free(o.s);
      for (int s = 0; s < nsub; s++) emit(sess, k++, &th[owner[s]].outs[idx[s]]);
      i = j - 1; continue; }
    args_t a; char *op; parse(lines[i], &a, &op); out_t o = {0}; o.first = 1;
    opfn f = find(op); if (f) f(&a, &o); else o_str(&o, "noop", op);
    emit(sess, k++, &o); free(o.s); } }

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  FILE *f = fopen(argv[1], "r"); if (!f) return 2;
  int seg = 0, nseg = 1; if (argc > 4) { seg = atoi(argv[3]); nseg = atoi(argv[4]); }
  int tmo = argc > 5 ? atoi(argv[5]) : 60;
  logf_ = fopen(argv[2], "w"); if (!logf_) return 2;
  dflt_hook = fnft_errwarn_getprintf();
  char *line = NULL; size_t cap = 0; ssize_t r; char **L = NULL; int n = 0, lc = 0; char sess[64] = ""; int cnt = 0, late = 0;
#ifndef __SANITIZE_ADDRESS__
  struct rlimit lim = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &lim);
#endif
  for (;;) { r = getline(&line, &cap, f);
    if (r < 0 || !strncmp(line, "session\t", 8)) {
      if (n > 0 && (cnt++ % nseg) == seg && late < 2) {   /* enough is known after two calls that do not return */
        fflush(logf_); pid_t p = fork();
        if (p == 0) { alarm((unsigned) tmo); run_session(L, n, sess); fclose(logf_); _exit(0); }
        int st; waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) fprintf(logf_, "{\"s\":%s,\"k\":-1,\"r\":{\"%s\":%d}}\n", sess, WTERMSIG(st) == SIGALRM ? "timeout" : "crash", WTERMSIG(st));
        else if (WEXITSTATUS(st)) fprintf(logf_, "{\"s\":%s,\"k\":-1,\"r\":{\"crash\":%d}}\n", sess, 1000 + WEXITSTATUS(st));
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) late++;
        fflush(logf_); }
      for (int i = 0; i < n; i++) free(L[i]); n = 0;
      if (r < 0) break; sscanf(line + 8, "%60s", sess); continue; }
    if (n == lc) { lc = 2*lc + 64; L = realloc(L, (size_t) lc*sizeof *L); }
    L[n++] = strdup(line); }
  fclose(logf_); return 0; }
