/* Command interpreter over the public C interface of XRTM.
 *
 * stdin : one command per line.  stdout: one line per command,
 *         "<rc-kind> <stderr-bytes> <n-doubles> [extra]".
 * argv[1]: file that receives, in order, the doubles of every answer.
 *
 * Only the public header is used, so the driver keeps compiling whatever is
 * done to the inside of the library.
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <setjmp.h>
#include <pthread.h>

/* the state of the interpreter belongs to its thread: with script files as
 * further arguments each script runs in a thread of its own */
#define TL static __thread

#include <xrtm.h>
#include <xrtm_interface.h>
#include <xrtm_fd_interface.h>

/* ------------------------------------------------------------------ */
/* allocation accounting (only when linked with -Wl,--wrap=...)        */
long vf_live = 0, vf_bytes = 0, vf_count = 0, vf_fail_at = -1, vf_total = 0;
TL int vf_in_lib = 0;
#ifdef VF_WRAP
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t,size_t); void *__real_realloc(void *,size_t);
#define VF_MAGIC 0x5ca1ab1edeadbeefULL
typedef struct { unsigned long long magic; size_t size; } vf_hdr;
static int vf_fill = 0xa5;   /* set by VF_FILL: what fresh memory holds */
static void *vf_alloc(size_t n, int zero) {
     vf_hdr *h;
     if (vf_in_lib) { vf_count++; if (vf_fail_at >= 0 && vf_count == vf_fail_at) return NULL; }
     h = __real_malloc(n + sizeof(vf_hdr));
     if (!h) return NULL;
     h->magic = VF_MAGIC ^ (unsigned long long)vf_in_lib; h->size = n;
     if (vf_in_lib) { vf_live++; vf_bytes += n; vf_total++; }
     memset(h + 1, zero ? 0 : vf_fill, n);
     return h + 1;
}
void *__wrap_malloc(size_t n) { return vf_alloc(n, 0); }
void *__wrap_calloc(size_t a, size_t b) { return vf_alloc(a * b, 1); }
void __wrap_free(void *p) {
     vf_hdr *h;
     if (!p) return;
     h = (vf_hdr *)p - 1;
     if ((h->magic & ~1ULL) != (VF_MAGIC & ~1ULL)) { fprintf(stdout, "BADFREE\n"); fflush(stdout); abort(); }
     if (h->magic == (VF_MAGIC ^ 1ULL)) { vf_live--; vf_bytes -= h->size; }
     h->magic = 0;
     memset(p, 0x5a, h->size);
     __real_free(h);
}
void *__wrap_realloc(void *p, size_t n) {
     void *q; vf_hdr *h;
     if (!p) return vf_alloc(n, 0);
     h = (vf_hdr *)p - 1;
     q = vf_alloc(n, 0);
     if (!q) return NULL;
     memcpy(q, p, h->size < n ? h->size : n);
     __wrap_free(p);
     return q;
}
#endif

/* ------------------------------------------------------------------ */
#define NI 64
typedef struct {
     int used, heap;
     xrtm_data *d; xrtm_data s;
     int nl, nd, ns, ne, nq, nu, nlev, nk, nkq, nmu, opts;
     int fdn; xrtm_fd_data fd;          /* finite difference model on top: its number of derivatives, or 0 */
} inst_t;
TL inst_t I[NI];
TL FILE *fo, *si, *so;
static int threaded;
TL int nout;
TL char *line, *tp;
TL size_t cap;

static void outd(double x) { fwrite(&x, sizeof x, 1, fo); nout++; }
static char *tok(void) { return strtok_r(NULL, " \n", &tp); }
static int ri(void) { char *s = tok(); return s ? (int)strtol(s, NULL, 0) : 0; }
TL double rscale = 1.;
static double rd(void) { char *s = tok(); return s ? strtod(s, NULL) * rscale : 0.; }

/* plain pointer-table arrays, released when the command ends */
TL void *pool[200000]; TL int npool;
static void *pm(size_t n) { void *p; int k = vf_in_lib; vf_in_lib = 0; p = calloc(1, n ? n : 1); vf_in_lib = k; pool[npool++] = p; return p; }
static void pfree(void) { while (npool) free(pool[--npool]); }

static double *rv(int n) { int i; double *v = pm(n * sizeof(double)); for (i = 0; i < n; i++) v[i] = rd(); return v; }
static int *riv(int n) { int i; int *v = pm(n * sizeof(int)); for (i = 0; i < n; i++) v[i] = ri(); return v; }
static double **rv2(int a, int b) { int i; double **v = pm(a * sizeof(double *)); for (i = 0; i < a; i++) v[i] = rv(b); return v; }
static double ***rv3(int a, int b, int c) { int i; double ***v = pm(a * sizeof(double **)); for (i = 0; i < a; i++) v[i] = rv2(b, c); return v; }

#define SENT 7.7e77
static double *a1(int n) { int i; double *v = pm(n * sizeof(double)); for (i = 0; i < n; i++) v[i] = SENT; return v; }
static double **a2(int a, int b) { int i; double **v = pm(a * sizeof(double *)); for (i = 0; i < a; i++) v[i] = a1(b); return v; }
static double ***a3(int a, int b, int c) { int i; double ***v = pm(a * sizeof(double **)); for (i = 0; i < a; i++) v[i] = a2(b, c); return v; }
static double ****a4(int a, int b, int c, int d) { int i; double ****v = pm(a * sizeof(double ***)); for (i = 0; i < a; i++) v[i] = a3(b, c, d); return v; }
static double *****a5(int a, int b, int c, int d, int e) { int i; double *****v = pm(a * sizeof(double ****)); for (i = 0; i < a; i++) v[i] = a4(b, c, d, e); return v; }
static void o1(double *v, int n) { int i; for (i = 0; i < n; i++) outd(v[i]); }
static void o2(double **v, int a, int b) { int i; for (i = 0; i < a; i++) o1(v[i], b); }
static void o4(double ****v, int a, int b, int c, int d) { int i, j; for (i = 0; i < a; i++) for (j = 0; j < b; j++) o2(v[i][j], c, d); }
static void o5(double *****v, int a, int b, int c, int d, int e) { int i; for (i = 0; i < a; i++) o4(v[i], b, c, d, e); }

/* a user defined kernel: f = p0 + p1 * mu_i * mu_j (symmetric, azimuth free) */
static void user_aux(brdf_aux_data *aux, void *aux2, int i, int j, int n_derivs, uchar *derivs, double *p, double **p_l) { }
static double user_kernel(brdf_aux_data *aux, void *aux2, enum xrtm_brdf_geometry g, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *f_l) {
     int l;
     for (l = 0; l < n_derivs; ++l) if (derivs[l]) f_l[l] = 0.;
     return 1.;
}

TL char kindbuf[64];
static const char *ikind(int rc) {
     if (rc == 0) return "0";
     if (rc == XRTM_INT_ERROR) return "E";
     snprintf(kindbuf, sizeof kindbuf, "i%d", rc); return kindbuf;
}

static void snap(inst_t *q) {
     xrtm_data *d = q->d; int i, j, k, l, rc; double b, c; int a, m; double *v; int *iv;
     outd(xrtm_get_options(d)); outd(xrtm_get_solvers(d)); outd(xrtm_get_max_coef(d)); outd(xrtm_get_n_quad(d));
     outd(xrtm_get_n_stokes(d)); outd(xrtm_get_n_elem(d)); outd(xrtm_get_n_derivs(d)); outd(xrtm_get_n_layers(d));
     outd(xrtm_get_n_kernels(d)); outd(xrtm_get_n_kernel_quad(d)); outd(xrtm_get_n_out_levels(d)); outd(xrtm_get_n_out_thetas(d));
     for (i = 0; i < q->nk; i++) outd(xrtm_get_kernel(d, i));
     outd(xrtm_get_doub_d_tau(d));
     a = m = -5; rc = xrtm_get_pade_params(d, &a, &m); outd(rc); outd(rc ? -5 : a); outd(rc ? -5 : m);
     a = -5; b = c = -5; rc = xrtm_get_sos_params(d, &a, &b, &c); outd(rc); outd(rc ? -5 : a); outd(rc ? -5 : b); outd(rc ? -5 : c);
     outd(xrtm_get_fourier_tol(d)); outd(xrtm_get_lambda(d));
     outd(xrtm_get_planet_r(d));
     v = a1(q->nl + 1); rc = xrtm_get_levels_z(d, v); outd(rc); for (i = 0; i <= q->nl; i++) outd(rc ? -5 : v[i]);
     iv = pm((q->nlev + 1) * sizeof(int)); rc = xrtm_get_out_levels(d, iv); outd(rc); for (i = 0; i < q->nlev; i++) outd(rc ? -5 : iv[i]);
     v = a1(q->nlev + 1); rc = xrtm_get_out_taus(d, v); outd(rc); for (i = 0; i < q->nlev; i++) outd(rc ? -5 : v[i]);
     v = a1(q->nu + 1); rc = xrtm_get_out_thetas(d, v); outd(rc); for (i = 0; i < q->nu; i++) outd(rc ? -5 : v[i]);
     outd(xrtm_get_F_iso_top(d)); outd(xrtm_get_F_iso_bot(d));
     for (i = 0; i < q->nd; i++) { outd(xrtm_get_F_iso_top_l(d, i)); outd(xrtm_get_F_iso_bot_l(d, i)); }
     outd(xrtm_get_F_0(d)); outd(xrtm_get_theta_0(d)); outd(xrtm_get_phi_0(d));
     v = a1(q->nl + 1); rc = xrtm_get_levels_b(d, v); outd(rc); for (i = 0; i <= q->nl; i++) outd(rc ? -5 : v[i]);
     for (j = 0; j < q->nd; j++) { v = a1(q->nl + 1); b = xrtm_get_levels_b_l(d, j, v); outd(b == 0. ? 0. : 1.); for (i = 0; i <= q->nl; i++) outd(b != 0. ? -5 : v[i]); }
     outd(xrtm_get_surface_b(d));
     for (j = 0; j < q->nd; j++) outd(xrtm_get_surface_b_l(d, j));
     for (i = 0; i < q->nl; i++) {
          int nc = xrtm_get_n_coef(d, i);
          outd(nc); outd(xrtm_get_omega(d, i)); outd(xrtm_get_ltau(d, i));
          if (nc > 0) for (k = 0; k < q->ne; k++) for (l = 0; l < nc; l++) outd(xrtm_get_coef(d, i, k, l));
          for (j = 0; j < q->nd; j++) {
               outd(xrtm_get_omega_l(d, i, j)); outd(xrtm_get_ltau_l(d, i, j));
               if (nc > 0) for (k = 0; k < q->ne; k++) for (l = 0; l < nc; l++) outd(xrtm_get_coef_l(d, i, j, k, l));
          }
     }
     for (i = 0; i < q->nk; i++) {
          int np = kernel_n_params(xrtm_get_kernel(d, i));
          outd(xrtm_get_kernel_ampfac(d, i));
          for (k = 0; k < np; k++) outd(xrtm_get_kernel_params(d, i, k));
          for (j = 0; j < q->nd; j++) { outd(xrtm_get_kernel_ampfac_l(d, i, j)); for (k = 0; k < np; k++) outd(xrtm_get_kernel_params_l(d, i, j, k)); }
     }
}

/* ---- the finite difference interface: perturbations are 2^-10 of what the command says ---- */
#define IS(s) (strcmp(f, s) == 0)
#define FSCL(name) if (IS("set_" #name "_l_1")) { int j = ri(); return xrtm_fd_set_##name##_p_1(d, j, rd()); } \
                   else if (IS("set_" #name "_l_n")) return xrtm_fd_set_##name##_p_n(d, rv(n)); else
#define FII(name) if (IS("set_" #name "_l_11")) { int i = ri(), j = ri(); return xrtm_fd_set_##name##_p_11(d, i, j, rd()); } \
                  else if (IS("set_" #name "_l_n1")) { int j = ri(); return xrtm_fd_set_##name##_p_n1(d, j, rv(q->nl)); } \
                  else if (IS("set_" #name "_l_1n")) { int i = ri(); return xrtm_fd_set_##name##_p_1n(d, i, rv(n)); } \
                  else if (IS("set_" #name "_l_nn")) return xrtm_fd_set_##name##_p_nn(d, rv2(q->nl, n)); else
static int fd_put(inst_t *q, char *f) {
     xrtm_fd_data *d = &q->fd; int n = q->fdn;
     FSCL(F_iso_top) FSCL(F_iso_bot) FSCL(surface_b)
     FII(omega) FII(ltau)
     if (IS("set_levels_b_l_1")) { int j = ri(); return xrtm_fd_set_levels_b_p_1(d, j, rv(q->nl + 1)); }
     if (IS("set_levels_b_l_n")) return xrtm_fd_set_levels_b_p_n(d, rv2(q->nl + 1, n));
     if (IS("set_coef_l_11")) { int i = ri(), j = ri(), m = ri(); return xrtm_fd_set_coef_p_11(d, i, j, rv2(q->ne, m)); }
     if (IS("set_coef_l_n1")) { int i, j = ri(), *m = riv(q->nl); double ***v = pm(q->nl * sizeof(double **)); for (i = 0; i < q->nl; i++) v[i] = rv2(q->ne, m[i]); return xrtm_fd_set_coef_p_n1(d, j, v); }
     if (IS("set_coef_l_1n")) { int i = ri(), m = ri(); return xrtm_fd_set_coef_p_1n(d, i, rv3(n, q->ne, m)); }
     if (IS("set_coef_l_nn")) { int i, *m = riv(q->nl); double ****v = pm(q->nl * sizeof(double ***)); for (i = 0; i < q->nl; i++) v[i] = rv3(n, q->ne, m[i]); return xrtm_fd_set_coef_p_nn(d, v); }
     if (IS("set_kernel_ampfac_l_1")) { int i = ri(), j = ri(); return xrtm_fd_set_kernel_ampfac_p_1(d, i, j, rd()); }
     if (IS("set_kernel_ampfac_l_n")) { int i = ri(); return xrtm_fd_set_kernel_ampfac_p_n(d, i, rv(n)); }
     if (IS("set_kernel_params_l_11")) { int i = ri(), j = ri(), p = ri(); return xrtm_fd_set_kernel_params_p_11(d, i, j, p, rd()); }
     if (IS("set_kernel_params_l_1n")) { int i = ri(), j = ri(), m = ri(); return xrtm_fd_set_kernel_params_p_1n(d, i, j, rv(m)); }
     if (IS("set_kernel_params_l_n1")) { int i = ri(), p = ri(); return xrtm_fd_set_kernel_params_p_n1(d, i, p, rv(n)); }
     if (IS("set_kernel_params_l_nn")) { int i = ri(), m = ri(); return xrtm_fd_set_kernel_params_p_nn(d, i, rv2(n, m)); }
     return -12345;
}
static void fd_snap(inst_t *q) {
     xrtm_fd_data *d = &q->fd; int i, j, k, l, n = q->fdn; double *v = a1(n > q->nl ? n : q->nl + 1);
     outd(xrtm_fd_get_n_derivs(d));
     xrtm_fd_get_delta(d, v); o1(v, n);
     for (j = 0; j < n; j++) outd(xrtm_fd_get_F_iso_top_p(d, j));
     for (j = 0; j < n; j++) outd(xrtm_fd_get_F_iso_bot_p(d, j));
     if (q->opts & XRTM_OPTION_SOURCE_THERMAL) {
          for (j = 0; j < n; j++) { xrtm_fd_get_levels_b_p(d, j, v); o1(v, q->nl + 1); }
          for (j = 0; j < n; j++) outd(xrtm_fd_get_surface_b_p(d, j));
     }
     for (i = 0; i < q->nl; i++) for (j = 0; j < n; j++) outd(xrtm_fd_get_omega_p(d, i, j));
     for (i = 0; i < q->nl; i++) for (j = 0; j < n; j++) outd(xrtm_fd_get_ltau_p(d, i, j));
     for (k = 0; k < q->nk; k++) {
          int np = kernel_n_params(xrtm_get_kernel(q->d, k));
          for (j = 0; j < n; j++) outd(xrtm_fd_get_kernel_ampfac_p(d, k, j));
          for (j = 0; j < n; j++) for (l = 0; l < np; l++) outd(xrtm_fd_get_kernel_params_p(d, k, j, l));
     }
     for (i = 0; i < q->nl; i++) { int nc = xrtm_get_n_coef(q->d, i);
          for (j = 0; j < n; j++) for (k = 0; k < q->ne; k++) for (l = 0; l < nc; l++) outd(xrtm_fd_get_coef_p(d, i, j, k, l)); }
}

static long errpos(void) { if (threaded) return 0; fflush(stderr); return lseek(2, 0, SEEK_CUR); }

#define II1(name) if (IS("set_" #name "_1")) { int i = ri(); rc = xrtm_set_##name##_1(d, i, rd()); } \
                  else if (IS("set_" #name "_n")) rc = xrtm_set_##name##_n(d, rv(q->nl)); \
                  else if (IS("get_" #name)) { dr = xrtm_get_##name(d, ri()); isd = 1; } \
                  else if (IS("set_" #name "_l_11")) { int i = ri(), j = ri(); rc = xrtm_set_##name##_l_11(d, i, j, rd()); } \
                  else if (IS("set_" #name "_l_n1")) { int j = ri(); rc = xrtm_set_##name##_l_n1(d, j, rv(q->nl)); } \
                  else if (IS("set_" #name "_l_1n")) { int i = ri(); rc = xrtm_set_##name##_l_1n(d, i, rv(q->nd)); } \
                  else if (IS("set_" #name "_l_nn")) rc = xrtm_set_##name##_l_nn(d, rv2(q->nl, q->nd)); \
                  else if (IS("get_" #name "_l")) { int i = ri(); dr = xrtm_get_##name##_l(d, i, ri()); isd = 1; } else
#define SC(name) if (IS("set_" #name)) rc = xrtm_set_##name(d, rd()); else if (IS("get_" #name)) { dr = xrtm_get_##name(d); isd = 1; } else
#define SCL(name) if (IS("set_" #name "_l_1")) { int j = ri(); rc = xrtm_set_##name##_l_1(d, j, rd()); } \
                  else if (IS("set_" #name "_l_n")) rc = xrtm_set_##name##_l_n(d, rv(q->nd)); \
                  else if (IS("get_" #name "_l")) { dr = xrtm_get_##name##_l(d, ri()); isd = 1; } else

static sigjmp_buf jb; static volatile int jb_on;
static void on_sig(int s) { if (jb_on) siglongjmp(jb, s); _exit(100 + s); }

static void interpret(void) {
     ssize_t len; int k;
     memset(I, 0, sizeof I);
     while ((len = getline(&line, &cap, si)) > 0) {
          int rc = 0, isd = 0; double dr = 0.; const char *kind = NULL; long e0; char extra[128] = "";
          char *c = strtok_r(line, " \n", &tp), *f;
          inst_t *q; xrtm_data *d;
          if (!c || c[0] == '#') continue;
          nout = 0;
          if (strcmp(c, "N") == 0) {                    /* new case: forget every instance */
               for (k = 0; k < NI; k++) if (I[k].used) { vf_in_lib = 1; if (I[k].fdn) { xrtm_fd_destroy(&I[k].fd); I[k].fdn = 0; } xrtm_destroy(I[k].d); vf_in_lib = 0; if (I[k].heap) free(I[k].d); I[k].used = 0; }
               if (!threaded) { ftruncate(2, 0); lseek(2, 0, SEEK_SET); }
               fprintf(so, "N %s\n", (f = tok()) ? f : ""); fflush(so); fflush(fo);
               continue;
          }
          e0 = errpos();
          if (strcmp(c, "M") == 0) {                    /* allocation counters */
               f = tok();
               if (f && IS("fail")) { vf_count = 0; vf_fail_at = ri(); }
               if (f && IS("count")) { vf_count = 0; vf_fail_at = -1; }
               fprintf(so, "0 0 0 live=%ld bytes=%ld count=%ld total=%ld\n", vf_live, vf_bytes, vf_count, vf_total);
               continue;
          }
          q = &I[atoi(tok()) % NI]; d = q->d;
          if (strcmp(c, "C") == 0) {                    /* C inst how options solvers max_coef nq ns nd nl nth nk nkq kernels... nlev nu */
               int how = ri(); long o = (long)strtoul(tok(), NULL, 0); int sv = ri(), mc = ri(), nq = ri(), ns = ri(), nd = ri(), nl = ri(), nt = ri(), nk = ri(), nkq = ri();
               enum xrtm_kernel_type kt[16]; int nlev, nu;
               for (k = 0; k < nk && k < 16; k++) kt[k] = ri();
               nlev = ri(); nu = ri();
               if (q->used) { vf_in_lib = 1; xrtm_destroy(q->d); vf_in_lib = 0; if (q->heap) free(q->d); q->used = 0; }
               vf_in_lib = 1;
               q->heap = 0;
               if (how == 1) { q->d = xrtm_create2((int)o, sv, mc, nq, ns, nd, nl, nt, nk, nkq, nk ? kt : NULL, nlev, nu); rc = q->d ? 0 : XRTM_INT_ERROR; q->heap = q->d != NULL; }
               else { q->d = &q->s; memset(q->d, vf_total & 1 ? 0xa5 : 0, sizeof(xrtm_data)); rc = xrtm_create(q->d, (int)o, sv, mc, nq, ns, nd, nl, nt, nk, nkq, nk ? kt : NULL, nlev, nu); }
               vf_in_lib = 0;
               if (rc == 0) {
                    q->used = 1; q->nl = nl; q->nd = nd; q->ns = ns; q->nq = nq; q->nu = nu; q->nlev = nlev; q->nk = nk; q->nkq = nkq;
                    d = q->d; q->ne = xrtm_get_n_elem(d); q->opts = xrtm_get_options(d); q->nmu = nu > 0 ? nu : nq;
                    outd((double)(unsigned)xrtm_get_options(d)); outd((double)xrtm_get_solvers(d));
               }
          }
          else if (strcmp(c, "V") == 0) {               /* stand alone checks: V 0 options solvers ... same as C */
               long o = (long)strtoul(tok(), NULL, 0); int sv = ri(), mc = ri(), nq = ri(), ns = ri(), nd = ri(), nl = ri(), nt = ri(), nk = ri(), nkq = ri();
               enum xrtm_kernel_type kt[16]; int nlev, nu;
               for (k = 0; k < nk && k < 16; k++) kt[k] = ri();
               nlev = ri(); nu = ri();
               for (k = 1; k >= 0; k--) {
                    long e1 = errpos();
                    outd(xrtm_check_options((int)o, k)); outd(xrtm_check_counts((int)o, mc, nq, ns, nd, nl, nt, nk, nkq, kt, nlev, nu, k));
                    outd(xrtm_check_solvers((int)o, sv, mc, nq, ns, nd, nl, nt, nk, nkq, kt, nlev, nu, k)); outd(errpos() - e1);
               }
          }
          else if (!q->used) { fprintf(so, "X 0 0 noinst\n"); continue; }
          else if (strcmp(c, "D") == 0) { vf_in_lib = 1; rc = q->heap ? xrtm_destroy2(q->d) : xrtm_destroy(q->d); vf_in_lib = 0; q->used = 0; }
          else if (strcmp(c, "W") == 0) snap(q);
          else if (strcmp(c, "K") == 0) { vf_in_lib = 1; xrtm_clear_saved(d); vf_in_lib = 0; }
          else if (strcmp(c, "U") == 0) { vf_in_lib = 1; rc = xrtm_update_varied_layers(d); vf_in_lib = 0; }
          else if (strcmp(c, "B") == 0) { char s[1024]; int o = xrtm_get_options(d); snprintf(extra, sizeof extra, "%x", o); (void)s; }
          else if (strcmp(c, "P") == 0) {               /* quadrature: P inst */
               double *v = a1(q->nq + q->nu), *w = a1(q->nq + q->nu);
               rc = xrtm_qx(d, v); o1(v, q->nq + q->nu); xrtm_qw(d, w); o1(w, q->nq + q->nu);
               v = a1(q->nkq); w = a1(q->nkq); xrtm_kernel_qx(d, v); o1(v, q->nk ? q->nkq : 0); xrtm_kernel_qw(d, w); o1(w, q->nk ? q->nkq : 0);
          }
          else if (strcmp(c, "R") == 0) {               /* R inst i_four i_layer: local reflection/transmission and pade params */
               int a = ri(), b = ri(), n = (q->nq + ((q->opts & XRTM_OPTION_SFI) ? 0 : q->nu)) * q->ns, s = -5, r = -5, i;
               double **x[4], ***y[4];
               for (i = 0; i < 4; i++) { x[i] = a2(n, n); y[i] = a3(q->nd, n, n); }
               rc = xrtm_local_r_t_u_w(d, a, b, x[0], x[1], x[2], x[3], y[0], y[1], y[2], y[3]);
               if (rc == 0) { int nn = q->ns > 1 ? 4 : 2; for (i = 0; i < nn; i++) o2(x[i], n, n); for (i = 0; i < nn; i++) { int j; for (j = 0; j < q->nd; j++) o2(y[i][j], n, n); } }
               (void)s; (void)r;
          }
          else if (strcmp(c, "Q") == 0) {               /* Q inst how solver solutions nphi phis(nmu x nphi)... */
               int how = ri(), sv = ri(), so = ri(), np = ri(), npa = np > 0 ? np : 0; double **ph = rv2(q->nmu, npa);
               int L = q->nlev, U = q->nmu, D = q->nd, S = q->ns, up, dn;
               double ****Ip = a4(L, U, npa, S), ****Im = a4(L, U, npa, S), *****Ipl = a5(L, D, U, npa, S), *****Iml = a5(L, D, U, npa, S);
               double *mp = a1(L), *mm = a1(L), *fp = a1(L), *fm = a1(L), *fd = a1(L), **mpl = a2(L, D), **mml = a2(L, D), **fpl = a2(L, D), **fml = a2(L, D), **fdl = a2(L, D);
               vf_in_lib = 1;
               if (how == 0) rc = xrtm_solution(d, sv, so, np, ph, Ip, Im, Ipl, Iml, mp, mm, mpl, mml, fp, fm, fpl, fml, fd, fdl);
               else if (how == 1) rc = xrtm_radiance(d, sv, np, ph, Ip, Im, Ipl, Iml);
               else if (how == 2) rc = xrtm_mean_radiance(d, sv, mp, mm, mpl, mml);
               else if (how == 3) rc = xrtm_flux(d, sv, fp, fm, fpl, fml);
               else if (how == 4) rc = xrtm_flux_divergence(d, sv, fd, fdl);
               else if (how == 5) rc = xrtm_radiance_2(d, sv, np, ph, Ip, Im, Ipl, Iml);
               vf_in_lib = 0;
               up = (q->opts & XRTM_OPTION_UPWELLING_OUTPUT) != 0; dn = (q->opts & XRTM_OPTION_DOWNWELLING_OUTPUT) != 0;
               if (rc == 0) {
                    if (how == 1 || how == 5) so = XRTM_OUTPUT_RADIANCE; else if (how == 2) so = XRTM_OUTPUT_RADIANCE_MEAN; else if (how == 3) so = XRTM_OUTPUT_FLUX;
                    if (so & XRTM_OUTPUT_RADIANCE) { if (up) o4(Ip, L, U, np, S); if (dn) o4(Im, L, U, np, S); if (up) o5(Ipl, L, D, U, np, S); if (dn) o5(Iml, L, D, U, np, S); }
                    if (so & XRTM_OUTPUT_RADIANCE_MEAN) { if (up) o1(mp, L); if (dn) o1(mm, L); }
                    if (so & XRTM_OUTPUT_FLUX) { if (up) o1(fp, L); if (dn) o1(fm, L); }
               }
          }
          else if (strcmp(c, "Y") == 0) {               /* Y inst n delta...: finite difference model */
               int n = ri(); double *v = rv(n);
               vf_in_lib = 1; rc = xrtm_fd_create(&q->fd, d, n); if (rc == 0) { q->fdn = n; rc = xrtm_fd_set_delta(&q->fd, v); } vf_in_lib = 0;
          }
          else if (strcmp(c, "F") == 0) { f = tok(); rscale = 1. / 1024.; vf_in_lib = 1; rc = fd_put(q, f); vf_in_lib = 0; rscale = 1.; }
          else if (strcmp(c, "H") == 0) fd_snap(q);
          else if (strcmp(c, "Z") == 0) { vf_in_lib = 1; rc = xrtm_fd_destroy(&q->fd); vf_in_lib = 0; q->fdn = 0; }
          else if (strcmp(c, "G") == 0) {               /* G inst method how solver solutions nphi phis: difference quotients */
               int me = ri(), how = ri(), sv = ri(), so = ri(), np = ri(); double **ph = rv2(q->nmu, np);
               int L = q->nlev, U = q->nmu, D = q->fdn, S = q->ns;
               double ****Ip = a4(L, U, np, S), ****Im = a4(L, U, np, S), *****Ipl = a5(L, D, U, np, S), *****Iml = a5(L, D, U, np, S);
               vf_in_lib = 1;
               if (how == 1) rc = xrtm_fd_radiance(&q->fd, sv, me, np, ph, Ip, Im, Ipl, Iml);
               else rc = xrtm_fd_solution(&q->fd, sv, so, me, np, ph, Ip, Im, Ipl, Iml, a1(L), a1(L), a2(L, D), a2(L, D), a1(L), a1(L), a2(L, D), a2(L, D), a1(L), a2(L, D));
               vf_in_lib = 0;
               if (rc == 0) { int up = (q->opts & XRTM_OPTION_UPWELLING_OUTPUT) != 0, dn = (q->opts & XRTM_OPTION_DOWNWELLING_OUTPUT) != 0;
                    if (up) o4(Ip, L, U, np, S); if (dn) o4(Im, L, U, np, S); if (up) o5(Ipl, L, D, U, np, S); if (dn) o5(Iml, L, D, U, np, S); }
          }
          else if (strcmp(c, "A") == 0) {               /* API call by name */
               f = tok();
               vf_in_lib = 1;
               SC(doub_d_tau) SC(fourier_tol) SC(lambda) SC(planet_r) SC(F_iso_top) SC(F_iso_bot) SC(F_0) SC(theta_0) SC(phi_0) SC(surface_b)
               SCL(F_iso_top) SCL(F_iso_bot) SCL(surface_b)
               II1(g) II1(omega) II1(ltau)
               if (IS("set_pade_params")) { int a = ri(); rc = xrtm_set_pade_params(d, a, ri()); }
               else if (IS("get_pade_params")) { int a = -5, b = -5; rc = xrtm_get_pade_params(d, &a, &b); outd(a); outd(b); }
               else if (IS("set_sos_params")) { int a = ri(); double b = rd(); rc = xrtm_set_sos_params(d, a, b, rd()); }
               else if (IS("get_sos_params")) { int a = -5; double b = -5, e = -5; rc = xrtm_get_sos_params(d, &a, &b, &e); outd(a); outd(b); outd(e); }
               else if (IS("set_levels_z")) rc = xrtm_set_levels_z(d, rv(q->nl + 1));
               else if (IS("get_levels_z")) { double *v = a1(q->nl + 1); rc = xrtm_get_levels_z(d, v); o1(v, q->nl + 1); }
               else if (IS("set_levels_b")) rc = xrtm_set_levels_b(d, rv(q->nl + 1));
               else if (IS("get_levels_b")) { double *v = a1(q->nl + 1); rc = xrtm_get_levels_b(d, v); o1(v, q->nl + 1); }
               else if (IS("set_levels_b_l_1")) { int j = ri(); rc = xrtm_set_levels_b_l_1(d, j, rv(q->nl + 1)); }
               else if (IS("set_levels_b_l_n")) rc = xrtm_set_levels_b_l_n(d, rv2(q->nl + 1, q->nd));
               else if (IS("get_levels_b_l")) { int j = ri(); double *v = a1(q->nl + 1); dr = xrtm_get_levels_b_l(d, j, v); isd = 1; o1(v, q->nl + 1); }
               else if (IS("set_out_levels")) rc = xrtm_set_out_levels(d, riv(q->nlev));
               else if (IS("get_out_levels")) { int i, *v = pm((q->nlev + 1) * sizeof(int)); rc = xrtm_get_out_levels(d, v); for (i = 0; i < q->nlev; i++) outd(v[i]); }
               else if (IS("set_out_taus")) rc = xrtm_set_out_taus(d, rv(q->nlev));
               else if (IS("get_out_taus")) { double *v = a1(q->nlev); rc = xrtm_get_out_taus(d, v); o1(v, q->nlev); }
               else if (IS("set_out_thetas")) rc = xrtm_set_out_thetas(d, rv(q->nu > 0 ? q->nu : 1));
               else if (IS("get_out_thetas")) { double *v = a1(q->nu > 0 ? q->nu : 1); rc = xrtm_get_out_thetas(d, v); o1(v, q->nu); }
               else if (IS("set_coef_1")) { int i = ri(), n = ri(); rc = xrtm_set_coef_1(d, i, n, rv2(q->ne, n >= 0 ? n : xrtm_get_max_coef(d))); }
               else if (IS("set_coef_n")) { int i, *n = riv(q->nl); double ***v = pm(q->nl * sizeof(double **)); for (i = 0; i < q->nl; i++) v[i] = rv2(q->ne, n[i] > 0 ? n[i] : 0); rc = xrtm_set_coef_n(d, n, v); }
               else if (IS("get_n_coef")) { int v = xrtm_get_n_coef(d, ri()); outd(v == XRTM_INT_ERROR ? -1 : v); rc = v == XRTM_INT_ERROR ? v : 0; }
               else if (IS("get_coef")) { int i = ri(), e = ri(); dr = xrtm_get_coef(d, i, e, ri()); isd = 1; }
               else if (IS("set_coef_l_11")) { int i = ri(), j = ri(), n = ri(); rc = xrtm_set_coef_l_11(d, i, j, rv2(q->ne, n)); }
               else if (IS("set_coef_l_n1")) { int i, j = ri(), *n = riv(q->nl); double ***v = pm(q->nl * sizeof(double **)); for (i = 0; i < q->nl; i++) v[i] = rv2(q->ne, n[i]); rc = xrtm_set_coef_l_n1(d, j, v); }
               else if (IS("set_coef_l_1n")) { int i = ri(), n = ri(); rc = xrtm_set_coef_l_1n(d, i, rv3(q->nd, q->ne, n)); }
               else if (IS("set_coef_l_nn")) { int i, *n = riv(q->nl); double ****v = pm(q->nl * sizeof(double ***)); for (i = 0; i < q->nl; i++) v[i] = rv3(q->nd, q->ne, n[i]); rc = xrtm_set_coef_l_nn(d, v); }
               else if (IS("get_coef_l")) { int i = ri(), j = ri(), e = ri(); dr = xrtm_get_coef_l(d, i, j, e, ri()); isd = 1; }
               else if (IS("get_kernel")) { int v = xrtm_get_kernel(d, ri()); outd(v == XRTM_INT_ERROR ? -1 : v); rc = v == XRTM_INT_ERROR ? v : 0; }
               else if (IS("set_kernel_ampfac")) { int i = ri(); rc = xrtm_set_kernel_ampfac(d, i, rd()); }
               else if (IS("get_kernel_ampfac")) { dr = xrtm_get_kernel_ampfac(d, ri()); isd = 1; }
               else if (IS("set_kernel_params_1")) { int i = ri(), j = ri(); rc = xrtm_set_kernel_params_1(d, i, j, rd()); }
               else if (IS("set_kernel_params_n")) { int i = ri(), n = ri(); rc = xrtm_set_kernel_params_n(d, i, rv(n)); }
               else if (IS("get_kernel_params")) { int i = ri(); dr = xrtm_get_kernel_params(d, i, ri()); isd = 1; }
               else if (IS("set_kernel_ampfac_l_1")) { int i = ri(), j = ri(); rc = xrtm_set_kernel_ampfac_l_1(d, i, j, rd()); }
               else if (IS("set_kernel_ampfac_l_n")) { int i = ri(); rc = xrtm_set_kernel_ampfac_l_n(d, i, rv(q->nd)); }
               else if (IS("get_kernel_ampfac_l")) { int i = ri(); dr = xrtm_get_kernel_ampfac_l(d, i, ri()); isd = 1; }
               else if (IS("set_kernel_params_l_11")) { int i = ri(), j = ri(), p = ri(); rc = xrtm_set_kernel_params_l_11(d, i, j, p, rd()); }
               else if (IS("set_kernel_params_l_1n")) { int i = ri(), j = ri(), n = ri(); rc = xrtm_set_kernel_params_l_1n(d, i, j, rv(n)); }
               else if (IS("set_kernel_params_l_n1")) { int i = ri(), p = ri(); rc = xrtm_set_kernel_params_l_n1(d, i, p, rv(q->nd)); }
               else if (IS("set_kernel_params_l_nn")) { int i = ri(), n = ri(); rc = xrtm_set_kernel_params_l_nn(d, i, rv2(q->nd, n)); }
               else if (IS("get_kernel_params_l")) { int i = ri(), j = ri(); dr = xrtm_get_kernel_params_l(d, i, j, ri()); isd = 1; }
               else if (IS("set_kernel_func")) { int i = ri(); rc = xrtm_set_kernel_func(d, i, user_aux, user_kernel); }
               else if (IS("get_max_coef")) outd(xrtm_get_max_coef(d));
               else { vf_in_lib = 0; fprintf(so, "X 0 0 unknown %s\n", f); pfree(); continue; }
               vf_in_lib = 0;
          }
          else { fprintf(so, "X 0 0 unknown\n"); continue; }
          vf_in_lib = 0;
          if (isd) { outd(dr); kind = dr == XRTM_DBL_ERROR ? "F" : dr == (double)XRTM_INT_ERROR ? "E" : "v"; }
          else kind = ikind(rc);
          pfree();
          fprintf(so, "%s %ld %d %s\n", kind, errpos() - e0, nout, extra); fflush(so); fflush(fo);
     }
     fflush(so); fclose(fo);
}

static pthread_barrier_t start;
static void *thread(void *name) {
     char f[4096];
     snprintf(f, sizeof f, "%s.dat", (char *)name); fo = fopen(f, "wb");
     snprintf(f, sizeof f, "%s.out", (char *)name); so = fopen(f, "w");
     si = fopen((char *)name, "r");
     pthread_barrier_wait(&start);
     interpret();
     fclose(so); fclose(si); free(line);
     return NULL;
}

int main(int argc, char **argv) {
     FILE *tmp = getenv("VF_ERR") ? fopen(getenv("VF_ERR"), "w+") : tmpfile();
#ifdef VF_WRAP
     if (getenv("VF_FILL")) vf_fill = atoi(getenv("VF_FILL"));
#endif
     dup2(fileno(tmp), 2);
     setvbuf(stdout, NULL, _IOFBF, 1 << 16);
     alarm(argc > 2 ? atoi(argv[2]) : 600);
     (void)on_sig; (void)jb;

     if (argc > 3) {
          pthread_t t[64]; int k, n = argc - 3 < 64 ? argc - 3 : 64;
          pthread_barrier_init(&start, NULL, n); threaded = 1;
          for (k = 0; k < n; k++) pthread_create(&t[k], NULL, thread, argv[3 + k]);
          for (k = 0; k < n; k++) pthread_join(t[k], NULL);
          return 0;
     }
     si = stdin; so = stdout; fo = fopen(argv[1], "wb");
     interpret();
     return 0;
}
