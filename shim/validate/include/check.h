/* Minimal "check" stand-in, used only to validate the shims against the
 * repository's own tests. Each test runs in a forked child. */
#ifndef MINI_CHECK_H
#define MINI_CHECK_H
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <float.h>
typedef void (*mc_fn)(int);
typedef void (*mc_fix)(void);
typedef struct TCase { mc_fn t[256]; const char *tn[256]; int n; mc_fix su[8], td[8]; int nf; const char *name; } TCase;
typedef struct Suite { TCase *c[64]; int n; const char *name; } Suite;
typedef struct SRunner { Suite *s[32]; int n, failed; } SRunner;
#define START_TEST(x) static void x##_fn(int _i); static const char *x##_name = #x; static mc_fn x = x##_fn; static void x##_fn(int _i __attribute__((unused)))
#define END_TEST
#define CK_NORMAL 0
#define CK_NOFORK 0
static inline TCase *tcase_create(const char *n) { TCase *t = calloc(1, sizeof *t); t->name = n; return t; }
#define tcase_add_test(tc, x) ((tc)->t[(tc)->n] = (x), (tc)->tn[(tc)->n] = #x, (tc)->n++)
static inline void tcase_add_checked_fixture(TCase *t, mc_fix a, mc_fix b) { t->su[t->nf] = a; t->td[t->nf++] = b; }
static inline Suite *suite_create(const char *n) { Suite *s = calloc(1, sizeof *s); s->name = n; return s; }
static inline void suite_add_tcase(Suite *s, TCase *t) { s->c[s->n++] = t; }
static inline SRunner *srunner_create(Suite *s) { SRunner *r = calloc(1, sizeof *r); if (s) r->s[r->n++] = s; return r; }
static inline void srunner_add_suite(SRunner *r, Suite *s) { r->s[r->n++] = s; }
static inline void srunner_set_fork_status(SRunner *r, int x) { (void)r; (void)x; }
static inline void srunner_set_xml(SRunner *r, const char *x) { (void)r; (void)x; }
static inline void srunner_free(SRunner *r) { (void)r; }
static inline int srunner_ntests_failed(SRunner *r) { return r->failed; }
static inline void srunner_run_all(SRunner *r, int x) {
  (void)x; int tot = 0;
  for (int i = 0; i < r->n; i++) for (int j = 0; j < r->s[i]->n; j++) {
    TCase *c = r->s[i]->c[j];
    for (int k = 0; k < c->n; k++) {
      fflush(NULL); tot++;
      pid_t p = getenv("MC_NOFORK") ? 0 : fork();
      if (!p && getenv("MC_ONLY") && !strstr(c->tn[k], getenv("MC_ONLY"))) { if (getenv("MC_NOFORK")) continue; _exit(0); }
      if (!p) { alarm(200); for (int f = 0; f < c->nf; f++) if (c->su[f]) c->su[f](); c->t[k](0); for (int f = 0; f < c->nf; f++) if (c->td[f]) c->td[f](); fflush(NULL); if (getenv("MC_NOFORK")) continue; _exit(0); }
      int st; waitpid(p, &st, 0);
      if (st) { r->failed++; printf("FAILED %s (status %x)\n", c->tn[k], st); }
    }
  }
  printf("%d tests, %d failed\n", tot, r->failed);
}
#define MC_FAIL(...) do { printf("%s:%d: ", __FILE__, __LINE__); printf(__VA_ARGS__); printf("\n"); fflush(NULL); if (!getenv("MC_SOFT")) _exit(1); } while (0)
#define ck_assert(c) do { if (!(c)) MC_FAIL("%s", #c); } while (0)
#define ck_assert_msg(c, ...) do { if (!(c)) MC_FAIL(__VA_ARGS__); } while (0)
#define MC_CMP(T, F, a, op, b) do { T a_ = (T)(a), b_ = (T)(b); if (!(a_ op b_)) MC_FAIL("%s " #op " %s: " F " vs " F, #a, #b, a_, b_); } while (0)
#define ck_assert_int_eq(a, b) MC_CMP(long long, "%lld", a, ==, b)
#define ck_assert_int_ge(a, b) MC_CMP(long long, "%lld", a, >=, b)
#define ck_assert_int_le(a, b) MC_CMP(long long, "%lld", a, <=, b)
#define ck_assert_int_lt(a, b) MC_CMP(long long, "%lld", a, <, b)
#define ck_assert_uint_eq(a, b) MC_CMP(unsigned long long, "%llu", a, ==, b)
#define ck_assert_uint_ge(a, b) MC_CMP(unsigned long long, "%llu", a, >=, b)
#define ck_assert_uint_gt(a, b) MC_CMP(unsigned long long, "%llu", a, >, b)
#define ck_assert_uint_lt(a, b) MC_CMP(unsigned long long, "%llu", a, <, b)
#define ck_assert_ptr_ne(a, b) ck_assert((a) != (b))
#define ck_assert_double_eq(a, b) MC_CMP(double, "%.17g", a, ==, b)
#define ck_assert_double_eq_tol(a, b, t) do { double a_ = (a), b_ = (b); if (!(fabs(a_ - b_) < (t))) MC_FAIL("%s ~ %s: %.17g vs %.17g", #a, #b, a_, b_); } while (0)
#define ck_assert_double_ge_tol(a, b, t) MC_CMP(double, "%.17g", a, >, (b) - (t))
#define ck_assert_double_le_tol(a, b, t) MC_CMP(double, "%.17g", a, <, (b) + (t))
#define ck_assert_str_eq(a, b) do { const char *a_ = (a), *b_ = (b); if (strcmp(a_, b_)) MC_FAIL("%s == %s: '%s' vs '%s'", #a, #b, a_, b_); } while (0)
#endif
