/* Answers queries about the name tables: "TABLE FUNCTION ARG" per line, one
   line of answer each: value, and whether a message was printed. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <gutil.h>
#include <xrtm.h>
#include <xrtm_interface.h>
#include <xrtm_brdf.h>
#include <xrtm_support.h>
#include <xrtm_fd_interface.h>
#define IS(s) (strcmp(f, s) == 0)
static long m0;
static void S(const char *s) { printf("%s", s ? s : "NULL"); }
#define COMMON(T) \
     if (IS("n")) printf("%d", T##_n()); else if (IS("max_name_length")) printf("%d", T##_max_name_length()); \
     else if (IS("index_to_name")) S(T##_index_to_name(atoi(a))); else if (IS("name_to_index")) printf("%d", T##_name_to_index(a));
#define MASK(T) static void T##_q(const char *f, char *a) { char b[8192]; int ix[64], i, n; long v[64]; COMMON(T) \
     else if (IS("index_to_mask")) printf("%lld", (long long)(int)T##_index_to_mask(atoi(a))); \
     else if (IS("mask_to_index")) printf("%d", T##_mask_to_index((unsigned)strtoul(a, NULL, 0))); \
     else if (IS("name_to_mask")) printf("%lld", (long long)(int)T##_name_to_mask(a)); \
     else if (IS("mask_to_name")) S(T##_mask_to_name((unsigned)strtoul(a, NULL, 0))); \
     else if (IS("mask_to_index_list")) { n = T##_mask_to_index_list((unsigned)strtoul(a, NULL, 0), ix, 64); for (i = 0; i < n; i++) printf("%d ", ix[i]); } \
     else if (IS("mask_to_name_list")) S(T##_mask_to_name_list((unsigned)strtoul(a, NULL, 0), b, sizeof b)); \
     else if (IS("mask_to_value_list")) { n = T##_mask_to_value_list((unsigned)strtoul(a, NULL, 0), v, 64); for (i = 0; i < n; i++) printf("%lld ", (long long)(int)v[i]); } \
     else if (IS("name_list_to_mask")) { strcpy(b, a); printf("%lld", (long long)(int)T##_name_list_to_mask(b)); } \
     else if (IS("value_list_to_mask")) { char *t, *l; n = 0; for (t = strtok_r(a, " ", &l); t; t = strtok_r(NULL, " ", &l)) v[n++] = (long)strtoul(t, NULL, 0); printf("%lld", (long long)(int)T##_value_list_to_mask(v, n)); } \
     else if (IS("short_lists")) { /* lists that do not fit: nothing may be written past the end */ \
          unsigned m = (unsigned)strtoul(a, NULL, 0); int L, bad = 0; \
          for (L = 1; L < 64; L++) { memset(b, 'Z', sizeof b); T##_mask_to_name_list(m, b, L); for (i = L; i < 4096; i++) if (b[i] != 'Z') bad = 1; if (!memchr(b, 0, L)) bad = 2; } \
          for (L = 0; L < 33; L++) { for (i = 0; i < 64; i++) ix[i] = v[i] = -77; n = T##_mask_to_index_list(m, ix, L); i = T##_mask_to_value_list(m, v, L); if (n > L || i > L || ix[L] != -77 || v[L] != -77) bad = 3; } \
          printf("%d", bad); } \
     else printf("?"); }
#define VALUE(T) static void T##_q(const char *f, char *a) { COMMON(T) \
     else if (IS("index_to_value")) printf("%lld", (long long)(int)T##_index_to_value(atoi(a))); \
     else if (IS("value_to_index")) printf("%d", T##_value_to_index(atoi(a))); \
     else if (IS("name_to_value")) printf("%lld", (long long)(int)T##_name_to_value(a)); \
     else if (IS("value_to_name")) S(T##_value_to_name(atoi(a))); else printf("?"); }
MASK(xrtm_option) MASK(xrtm_solver) MASK(xrtm_output)
VALUE(xrtm_kernel) VALUE(xrtm_fd_method) VALUE(eigen_solver_gen_real) VALUE(eigen_solver_gen_complex)
int main(void) {
     static char line[16384]; FILE *tmp = tmpfile();
     dup2(fileno(tmp), 2);
     while (fgets(line, sizeof line, stdin)) {
          char *t, *f, *a;
          line[strcspn(line, "\n")] = 0;
          t = line; f = strchr(t, '\t'); *f++ = 0; a = strchr(f, '\t'); *a++ = 0;
          fflush(stderr); m0 = lseek(2, 0, SEEK_CUR);
#define T(x) if (strcmp(t, #x) == 0) x##_q(f, a);
          T(xrtm_option) T(xrtm_solver) T(xrtm_output) T(xrtm_kernel) T(xrtm_fd_method) T(eigen_solver_gen_real) T(eigen_solver_gen_complex)
          fflush(stderr);
          printf("\t%d\n", lseek(2, 0, SEEK_CUR) != m0);
     }
     /* the values the header gives to each name */
     return 0;
}
