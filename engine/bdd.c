/* A small reduced-ordered-BDD package (no complement edges, no garbage collection).
 * Node 0 = false, 1 = true.  Variables are int levels (smaller = nearer the root). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

typedef int32_t N;
typedef struct { int32_t v; N lo, hi; } Node;
static Node *nd; static N nn, cap;
static N *ht; static uint32_t hmask;
typedef struct { int32_t op; N a, b, c, r; } CE;
static CE *cache; static uint32_t cmask;
static int32_t gen_op = 100;
static N limit;
static int overflow;

#define TERM 0x7fffffff
static inline uint32_t h3(uint32_t a, uint32_t b, uint32_t c) {
  uint64_t x = (uint64_t)a * 0x9E3779B97F4A7C15ull;
  x ^= x >> 29; x += b; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; x += c; x *= 0x94D049BB133111EBull; x ^= x >> 31;
  return (uint32_t)x;
}
static void rehash(void) {
  uint32_t sz = (hmask + 1) * 2;
  free(ht); ht = malloc(sizeof(N) * sz); hmask = sz - 1;
  for (uint32_t i = 0; i < sz; i++) ht[i] = -1;
  for (N i = 2; i < nn; i++) {
    uint32_t h = h3(nd[i].v, nd[i].lo, nd[i].hi) & hmask;
    while (ht[h] >= 0) h = (h + 1) & hmask;
    ht[h] = i;
  }
}
void bdd_init(int logcache, int maxnodes) {
  if (nd) { free(nd); free(ht); free(cache); }
  cap = 1 << 16; nn = 2; nd = malloc(sizeof(Node) * cap);
  nd[0].v = nd[1].v = TERM; nd[0].lo = nd[0].hi = 0; nd[1].lo = nd[1].hi = 1;
  hmask = (1 << 17) - 1; ht = malloc(sizeof(N) * (hmask + 1));
  for (uint32_t i = 0; i <= hmask; i++) ht[i] = -1;
  cmask = (1u << logcache) - 1; cache = malloc(sizeof(CE) * (cmask + 1));
  for (uint32_t i = 0; i <= cmask; i++) cache[i].op = 0;
  limit = maxnodes; overflow = 0;
}
int bdd_overflow(void) { return overflow; }
void bdd_clear_overflow(int newlimit) { overflow = 0; limit = newlimit; }
N bdd_nodes(void) { return nn; }
static N mk(int32_t v, N lo, N hi) {
  if (lo == hi) return lo;
  uint32_t h = h3(v, lo, hi) & hmask;
  while (ht[h] >= 0) {
    Node *p = &nd[ht[h]];
    if (p->v == v && p->lo == lo && p->hi == hi) return ht[h];
    h = (h + 1) & hmask;
  }
  if (nn >= limit) { overflow = 1; return 0; }
  if (nn == cap) { cap *= 2; nd = realloc(nd, sizeof(Node) * (size_t)cap); }
  nd[nn].v = v; nd[nn].lo = lo; nd[nn].hi = hi; ht[h] = nn; nn++;
  if ((uint32_t)nn * 2 > hmask) rehash();
  return nn - 1;
}
N bdd_var(int32_t v) { return mk(v, 0, 1); }
int32_t bdd_level(N a) { return nd[a].v; }
N bdd_lo(N a) { return nd[a].lo; }
N bdd_hi(N a) { return nd[a].hi; }
#define LOOK(o,x,y,z) CE *ce = &cache[h3((uint32_t)(o) * 31 + (x), (y), (z)) & cmask]; \
  if (ce->op == (o) && ce->a == (x) && ce->b == (y) && ce->c == (z)) return ce->r;
#define SAVE(o,x,y,z,res) do { CE *c2 = &cache[h3((uint32_t)(o) * 31 + (x), (y), (z)) & cmask]; \
  if (!overflow) { c2->op = (o); c2->a = (x); c2->b = (y); c2->c = (z); c2->r = (res); } } while (0)

N bdd_and(N a, N b) {
  if (a == b) return a;
  if (a == 0 || b == 0) return 0;
  if (a == 1) return b;
  if (b == 1) return a;
  if (overflow) return 0;
  if (a > b) { N t = a; a = b; b = t; }
  LOOK(1, a, b, 0)
  int32_t va = nd[a].v, vb = nd[b].v, v = va < vb ? va : vb;
  N lo = bdd_and(va == v ? nd[a].lo : a, vb == v ? nd[b].lo : b);
  N hi = bdd_and(va == v ? nd[a].hi : a, vb == v ? nd[b].hi : b);
  N r = mk(v, lo, hi);
  SAVE(1, a, b, 0, r);
  return r;
}
N bdd_or(N a, N b) {
  if (a == b) return a;
  if (a == 1 || b == 1) return 1;
  if (a == 0) return b;
  if (b == 0) return a;
  if (overflow) return 0;
  if (a > b) { N t = a; a = b; b = t; }
  LOOK(2, a, b, 0)
  int32_t va = nd[a].v, vb = nd[b].v, v = va < vb ? va : vb;
  N lo = bdd_or(va == v ? nd[a].lo : a, vb == v ? nd[b].lo : b);
  N hi = bdd_or(va == v ? nd[a].hi : a, vb == v ? nd[b].hi : b);
  N r = mk(v, lo, hi);
  SAVE(2, a, b, 0, r);
  return r;
}
N bdd_not(N a) {
  if (a < 2) return 1 - a;
  if (overflow) return 0;
  LOOK(3, a, 0, 0)
  N lo = bdd_not(nd[a].lo), hi = bdd_not(nd[a].hi);
  N r = mk(nd[a].v, lo, hi);
  SAVE(3, a, 0, 0, r);
  return r;
}
N bdd_xor(N a, N b) {
  if (a == b) return 0;
  if (a == 0) return b;
  if (b == 0) return a;
  if (a == 1) return bdd_not(b);
  if (b == 1) return bdd_not(a);
  if (overflow) return 0;
  if (a > b) { N t = a; a = b; b = t; }
  LOOK(4, a, b, 0)
  int32_t va = nd[a].v, vb = nd[b].v, v = va < vb ? va : vb;
  N lo = bdd_xor(va == v ? nd[a].lo : a, vb == v ? nd[b].lo : b);
  N hi = bdd_xor(va == v ? nd[a].hi : a, vb == v ? nd[b].hi : b);
  N r = mk(v, lo, hi);
  SAVE(4, a, b, 0, r);
  return r;
}
N bdd_ite(N f, N g, N h) {
  if (f == 1) return g;
  if (f == 0) return h;
  if (g == h) return g;
  if (g == 1 && h == 0) return f;
  if (g == 0 && h == 1) return bdd_not(f);
  if (g == 0) return bdd_and(bdd_not(f), h);
  if (h == 0) return bdd_and(f, g);
  if (g == 1) return bdd_or(f, h);
  if (overflow) return 0;
  LOOK(5, f, g, h)
  int32_t a = nd[f].v, b = nd[g].v, c = nd[h].v, v = a < b ? a : b;
  if (c < v) v = c;
  N lo = bdd_ite(a == v ? nd[f].lo : f, b == v ? nd[g].lo : g, c == v ? nd[h].lo : h);
  N hi = bdd_ite(a == v ? nd[f].hi : f, b == v ? nd[g].hi : g, c == v ? nd[h].hi : h);
  N r = mk(v, lo, hi);
  SAVE(5, f, g, h, r);
  return r;
}
/* existential quantification over a cube (conjunction of positive variables) */
N bdd_exists(N a, N cube) {
  if (a < 2) return a;
  while (cube > 1 && nd[cube].v < nd[a].v) cube = nd[cube].hi;
  if (cube < 2) return a;
  if (overflow) return 0;
  LOOK(6, a, cube, 0)
  int32_t v = nd[a].v; N r;
  if (nd[cube].v == v) {
    N c = nd[cube].hi;
    N lo = bdd_exists(nd[a].lo, c);
    r = lo == 1 ? 1 : bdd_or(lo, bdd_exists(nd[a].hi, c));
  } else {
    N lo = bdd_exists(nd[a].lo, cube), hi = bdd_exists(nd[a].hi, cube);
    r = mk(v, lo, hi);
  }
  SAVE(6, a, cube, 0, r);
  return r;
}
N bdd_andex(N a, N b, N cube) {
  if (a == 0 || b == 0) return 0;
  if (a == 1) return bdd_exists(b, cube);
  if (b == 1 || a == b) return bdd_exists(a, cube);
  if (overflow) return 0;
  if (a > b) { N t = a; a = b; b = t; }
  int32_t va = nd[a].v, vb = nd[b].v, v = va < vb ? va : vb;
  while (cube > 1 && nd[cube].v < v) cube = nd[cube].hi;
  if (cube < 2) return bdd_and(a, b);
  LOOK(7, a, b, cube)
  N a0 = va == v ? nd[a].lo : a, a1 = va == v ? nd[a].hi : a, b0 = vb == v ? nd[b].lo : b, b1 = vb == v ? nd[b].hi : b, r;
  if (nd[cube].v == v) {
    N c = nd[cube].hi;
    N lo = bdd_andex(a0, b0, c);
    r = lo == 1 ? 1 : bdd_or(lo, bdd_andex(a1, b1, c));
  } else r = mk(v, bdd_andex(a0, b0, cube), bdd_andex(a1, b1, cube));
  SAVE(7, a, b, cube, r);
  return r;
}
/* restrict: simplify f with care set c (Coudert-Madre restrict) */
N bdd_restrict(N f, N c) {
  if (c == 1 || f < 2) return f;
  if (c == 0) return 0;
  if (overflow) return 0;
  LOOK(8, f, c, 0)
  int32_t vf = nd[f].v, vc = nd[c].v; N r;
  if (vc < vf) r = bdd_restrict(f, bdd_or(nd[c].lo, nd[c].hi));
  else {
    N c0 = vc == vf ? nd[c].lo : c, c1 = vc == vf ? nd[c].hi : c;
    if (c0 == 0) r = bdd_restrict(nd[f].hi, c1);
    else if (c1 == 0) r = bdd_restrict(nd[f].lo, c0);
    else r = mk(vf, bdd_restrict(nd[f].lo, c0), bdd_restrict(nd[f].hi, c1));
  }
  SAVE(8, f, c, 0, r);
  return r;
}
/* generalized cofactor: agrees with f on c, and equal results for functions that agree on c */
N bdd_constrain(N f, N c) {
  if (c == 1 || f < 2) return f;
  if (c == 0) return 0;
  if (f == c) return 1;
  if (overflow) return 0;
  LOOK(9, f, c, 0)
  int32_t vf = nd[f].v, vc = nd[c].v, v = vf < vc ? vf : vc; N r;
  N f0 = vf == v ? nd[f].lo : f, f1 = vf == v ? nd[f].hi : f;
  N c0 = vc == v ? nd[c].lo : c, c1 = vc == v ? nd[c].hi : c;
  if (c0 == 0) r = bdd_constrain(f1, c1);
  else if (c1 == 0) r = bdd_constrain(f0, c0);
  else r = mk(v, bdd_constrain(f0, c0), bdd_constrain(f1, c1));
  SAVE(9, f, c, 0, r);
  return r;
}
/* simultaneous substitution; map[] from level to node (index = level), -1 = identity */
static N *cmap; static int32_t cmapn, cmaxlev; static int32_t cop;
static N compose_rec(N a) {
  if (a < 2) return a;
  int32_t v = nd[a].v;
  if (v > cmaxlev) return a;
  if (overflow) return 0;
  LOOK(cop, a, 0, 0)
  N lo = compose_rec(nd[a].lo), hi = compose_rec(nd[a].hi);
  N g = (v < cmapn && cmap[v] >= 0) ? cmap[v] : mk(v, 0, 1);
  N r = bdd_ite(g, hi, lo);
  SAVE(cop, a, 0, 0, r);
  return r;
}
static int32_t maxlevel = 1 << 20;
N bdd_compose(N a, const int32_t *vars, const N *vals, int n) {
  if (!cmap) { cmap = malloc(sizeof(N) * maxlevel); for (int i = 0; i < maxlevel; i++) cmap[i] = -1; cmapn = maxlevel; }
  cmaxlev = -1;
  for (int i = 0; i < n; i++) { cmap[vars[i]] = vals[i]; if (vars[i] > cmaxlev) cmaxlev = vars[i]; }
  cop = gen_op++;
  N r = compose_rec(a);
  for (int i = 0; i < n; i++) cmap[vars[i]] = -1;
  return r;
}
/* cofactor by a stored assignment (two slots) */
static int8_t *asg[2]; static int32_t asgmax[2], asgop[2];
void bdd_assign(int slot, const int32_t *vars, const int32_t *vals, int n) {
  static int32_t *old[2]; static int oldn[2];
  if (!asg[slot]) { asg[slot] = malloc(maxlevel); memset(asg[slot], -1, maxlevel); old[slot] = malloc(4096 * 4); }
  for (int i = 0; i < oldn[slot]; i++) asg[slot][old[slot][i]] = -1;
  asgmax[slot] = -1; oldn[slot] = n;
  for (int i = 0; i < n; i++) { old[slot][i] = vars[i]; asg[slot][vars[i]] = vals[i]; if (vars[i] > asgmax[slot]) asgmax[slot] = vars[i]; }
  asgop[slot] = gen_op++;
}
static N cofa_rec(int slot, N a) {
  int32_t v = nd[a].v;
  if (v > asgmax[slot]) return a;
  while (v <= asgmax[slot] && asg[slot][v] >= 0) { a = asg[slot][v] ? nd[a].hi : nd[a].lo; v = nd[a].v; }
  if (v > asgmax[slot]) return a;
  if (overflow) return 0;
  LOOK(asgop[slot], a, 0, 0)
  N lo = cofa_rec(slot, nd[a].lo), hi = cofa_rec(slot, nd[a].hi);
  N r = mk(v, lo, hi);
  SAVE(asgop[slot], a, 0, 0, r);
  return r;
}
N bdd_cofa(int slot, N a) { return cofa_rec(slot, a); }
/* support: writes distinct levels */
static uint8_t *mark; static N markcap;
static int32_t *outv; static int outn; static uint8_t *seenv;
static void sup(N a) {
  while (a > 1 && !mark[a]) {
    mark[a] = 1;
    if (!seenv[nd[a].v]) { seenv[nd[a].v] = 1; outv[outn++] = nd[a].v; }
    sup(nd[a].lo); a = nd[a].hi;
  }
}
static long unmark(N a) { long c = 0; if (a < 2 || !mark[a]) return 0; mark[a] = 0; c = 1 + unmark(nd[a].lo) + unmark(nd[a].hi); return c; }
long last_size;
int bdd_support(N a, int32_t *out) {
  if (markcap < nn) { free(mark); markcap = nn * 2; mark = calloc(markcap, 1); }
  if (!seenv) seenv = calloc(maxlevel, 1);
  outv = out; outn = 0; sup(a);
  for (int i = 0; i < outn; i++) seenv[out[i]] = 0;
  last_size = unmark(a);
  return outn;
}
long bdd_last_size(void) { return last_size; }
