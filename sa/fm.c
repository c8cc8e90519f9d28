/* Fourier-Motzkin infeasibility test over integer rows (sum c_i x_i + k >= 0), exact 128-bit
   arithmetic; any overflow or size limit answers 0 ("not proved infeasible"), which is the safe side. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef __int128 W;
typedef unsigned __int128 U;

static U uabs(W a) { return a < 0 ? (U)0 - (U)a : (U)a; }
static U gcdu(U a, U b) {
  while (b) {
    if (!(a >> 64) && !(b >> 64)) {
      uint64_t x = (uint64_t)a, y = (uint64_t)b;
      while (y) { uint64_t t = x % y; x = y; y = t; }
      return x;
    }
    U t = a % b; a = b; b = t;
  }
  return a;
}
static W floordivw(W a, W b) { W q = a / b, r = a % b; return (r && ((r < 0) != (b < 0))) ? q - 1 : q; }

typedef struct { W *v; } Row;              /* n coefficients followed by the constant */
typedef struct { int n, cnt, cap; W *d; int *ht; int hcap; } Tab;

static uint64_t hashrow(const W *r, int n) {
  uint64_t h = 1469598103934665603ULL;
  for (int i = 0; i < n; i++) {
    uint64_t a = (uint64_t)r[i], b = (uint64_t)(r[i] >> 64);
    h = (h ^ a) * 1099511628211ULL; h ^= h >> 29; h = (h ^ b) * 1099511628211ULL;
  }
  return h ^ (h >> 31);
}
static void tinit(Tab *t, int n, int cap) {
  t->n = n; t->cnt = 0; t->cap = cap;
  t->d = malloc(sizeof(W) * (n + 1) * (size_t)cap);
  t->hcap = 1; while (t->hcap < cap * 2) t->hcap <<= 1;
  t->ht = malloc(sizeof(int) * t->hcap);
  memset(t->ht, 0xff, sizeof(int) * t->hcap);
}
static void tfree(Tab *t) { free(t->d); free(t->ht); }
#define ROW(t, i) ((t)->d + (size_t)(i) * ((t)->n + 1))
/* returns 0 ok, 1 contradiction, 2 full */
static int tadd(Tab *t, const W *r) {
  int n = t->n, any = 0;
  U g = 0;
  for (int i = 0; i < n; i++) if (r[i]) { any = 1; g = gcdu(uabs(r[i]), g); if (g == 1) break; }
  if (!any) return r[n] < 0 ? 1 : 0;
  if (t->cnt >= t->cap) return 2;
  W *x = ROW(t, t->cnt);
  if (g > 1) {
    for (int i = 0; i < n; i++) x[i] = r[i] / (W)g;
    x[n] = floordivw(r[n], (W)g);
  } else memcpy(x, r, sizeof(W) * (n + 1));
  uint64_t h = hashrow(x, n) & (t->hcap - 1);
  while (t->ht[h] >= 0) {
    W *o = ROW(t, t->ht[h]);
    if (!memcmp(o, x, sizeof(W) * n)) { if (x[n] < o[n]) o[n] = x[n]; return 0; }
    h = (h + 1) & (t->hcap - 1);
  }
  t->ht[h] = t->cnt++;
  return 0;
}
static int tfind(Tab *t, const W *x, W *k) {
  uint64_t h = hashrow(x, t->n) & (t->hcap - 1);
  while (t->ht[h] >= 0) {
    W *o = ROW(t, t->ht[h]);
    if (!memcmp(o, x, sizeof(W) * t->n)) { *k = o[t->n]; return 1; }
    h = (h + 1) & (t->hcap - 1);
  }
  return 0;
}

/* rows in sparse form: ptr[m+1], col[], val[] (16-byte little endian), konst[m] */
int fm_unsat(int m, int n, const int *ptr, const int *col, const W *val, const W *konst, int limit, int worklimit) {
  Tab T; int res = 0; long work = 0;
  W *buf = calloc(n + 1, sizeof(W)), *neg = calloc(n + 1, sizeof(W));
  tinit(&T, n, m + 4);
  for (int i = 0; i < m; i++) {
    for (int j = 0; j <= n; j++) buf[j] = 0;
    for (int j = ptr[i]; j < ptr[i + 1]; j++) memcpy(&buf[col[j]], (const char *)val + 16 * (size_t)j, 16);
    memcpy(&buf[n], (const char *)konst + 16 * (size_t)i, 16);
    if (tadd(&T, buf) == 1) { res = 1; goto done; }
  }
  for (;;) {
    if (!T.cnt) break;
    for (int i = 0; i < T.cnt; i++) {
      W *r = ROW(&T, i), k;
      for (int j = 0; j < n; j++) neg[j] = -r[j];
      if (tfind(&T, neg, &k) && k + r[n] < 0) { res = 1; goto done; }
    }
    /* column statistics */
    int best = -1; long bestc = 0; int bestbig = 0; int one = 0;
    char *drop = calloc(n + 1, 1);
    for (int j = 0; j < n; j++) {
      long p = 0, q = 0; int big = 0;
      for (int i = 0; i < T.cnt; i++) {
        W v = ROW(&T, i)[j];
        if (v > 0) { p++; if (v > 1) big = 1; } else if (v < 0) { q++; if (v < -1) big = 1; }
      }
      if (!p && !q) continue;
      if (!p || !q) { drop[j] = 1; one = 1; continue; }
      long c = p * q - p - q; big = (big && p * q > 1);
      if (best < 0 || big < bestbig || (big == bestbig && c < bestc)) { best = j; bestc = c; bestbig = big; }
    }
    Tab N;
    if (one) {
      tinit(&N, n, T.cnt + 1);
      for (int i = 0; i < T.cnt; i++) {
        W *r = ROW(&T, i); int bad = 0;
        for (int j = 0; j < n; j++) if (drop[j] && r[j]) { bad = 1; break; }
        if (!bad) tadd(&N, r);
      }
      free(drop); tfree(&T); T = N; continue;
    }
    free(drop);
    if (best < 0) break;
    long np = 0, nq = 0;
    for (int i = 0; i < T.cnt; i++) { W v = ROW(&T, i)[best]; if (v > 0) np++; else if (v < 0) nq++; }
    long tot = T.cnt - np - nq + np * nq;
    work += np * nq;
    if (tot > limit * 8L || work > worklimit) break;
    tinit(&N, n, (int)tot + 1);
    for (int i = 0; i < T.cnt; i++) if (!ROW(&T, i)[best]) tadd(&N, ROW(&T, i));
    for (int i = 0; i < T.cnt; i++) {
      W *p = ROW(&T, i); if (p[best] <= 0) continue;
      for (int l = 0; l < T.cnt; l++) {
        W *q = ROW(&T, l); if (q[best] >= 0) continue;
        W a = p[best], b = -q[best];
        W g = (W)gcdu(a, b); W fa = b / g, fb = a / g;
        int bad = 0;
        for (int j = 0; j <= n; j++) {
          W x, y, z;
          if (!p[j] && !q[j]) { buf[j] = 0; continue; }
          if (__builtin_mul_overflow(p[j], fa, &x) || __builtin_mul_overflow(q[j], fb, &y) ||
              __builtin_add_overflow(x, y, &z) || z > ((W)1 << 120) || z < -((W)1 << 120)) { bad = 1; break; }
          buf[j] = z;
        }
        if (bad) continue;               /* dropping a row only weakens the system */
        int rc = tadd(&N, buf);
        if (rc == 1) { res = 1; tfree(&N); goto done; }
      }
    }
    tfree(&T); T = N;
    if (T.cnt > limit) break;
  }
done:
  tfree(&T); free(buf); free(neg);
  return res;
}
