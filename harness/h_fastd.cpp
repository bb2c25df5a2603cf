// C01/C02/C03: fast-d against an independent dynamic programme / brute force.
#include "h.h"
#include "fast-d.h"
using V = std::vector<int>;
static int lev(const V& a, const V& b) {
  std::vector<V> d(a.size() + 1, V(b.size() + 1));
  for (size_t i = 0; i <= a.size(); i++)
    for (size_t j = 0; j <= b.size(); j++)
      d[i][j] = !i ? j : !j ? i : std::min({d[i-1][j-1] + (a[i-1] != b[j-1]), d[i-1][j] + 1, d[i][j-1] + 1});
  return d[a.size()][b.size()];
}
static void dist(V a, V b) {
  h::start("GetEditDistanceOnly seqA=" + h::show(a) + " seqB=" + h::show(b), a.size() && b.size() && a != b);
  V a0 = a, b0 = b;
  int want = lev(a, b);
  h::eq(GetEditDistanceOnly(a, b), want, "edit distance");
  HCHECK(a == a0 && b == b0, "the arguments were changed");
  h::cur = "GetEditDistance seqA=" + h::show(a) + " seqB=" + h::show(b);
  h::eq(GetEditDistance(a, b), want, "edit distance");
  HCHECK(a == a0 && b == b0, "the arguments were changed");
}
static void maps(V a, V b) {
  h::start("GetEditDistance with maps seqA=" + h::show(a) + " seqB=" + h::show(b), a.size() && b.size() && a != b);
  V a0 = a, b0 = b, ma, mb;
  int want = lev(a, b);
  h::eq(GetEditDistance(a, ma, b, mb), want, "edit distance");
  HCHECK(a == a0 && b == b0, "the arguments were changed");
  HCHECK(ma.size() == a.size() && mb.size() == b.size(), "map sizes " + h::show(ma) + " " + h::show(mb));
  // walk the matched positions: a monotone matching of equal tokens, of the least cost
  size_t i = 0, j = 0;
  int cost = 0;
  for (;;) {
    size_t i0 = i, j0 = j;
    while (i < a.size() && ma[i] == -1) i++;
    while (j < b.size() && mb[j] == -1) j++;
    cost += std::max(i - i0, j - j0);
    if (i == a.size() || j == b.size()) break;
    HCHECK(ma[i] == 1 && mb[j] == 1, "map entries are not 1/-1: " + h::show(ma) + " " + h::show(mb));
    HCHECK(a[i] == b[j], "the maps match different tokens: " + h::show(ma) + " " + h::show(mb));
    i++; j++;
  }
  HCHECK(i == a.size() && j == b.size(), "unequal numbers of matched tokens: " + h::show(ma) + " " + h::show(mb));
  HCHECK(cost == want, "the maps " + h::show(ma) + " " + h::show(mb) + " cost " + std::to_string(cost) + " but the distance is " + std::to_string(want));
}
static void streak(const V& m, int cut) {
  h::start("MapContainsErrorStreaks map=" + h::show(m) + " cutoff=" + std::to_string(cut), m.size() > 1);
  int best = 0, run = 0;
  for (int x : m) { run = x <= 0 ? run + 1 : 0; best = std::max(best, run); }
  h::eq((int)MapContainsErrorStreaks(m, cut), (int)(best > cut), "error streak");
}
template <class F> static void all(int maxlen, int k, F f) {
  for (int n = 0; n <= maxlen; n++) {
    V v(n, 0);
    for (;;) {
      f(v);
      int p = n - 1;
      while (p >= 0 && v[p] == k - 1) v[p--] = 0;
      if (p < 0) break;
      v[p]++;
    }
  }
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  h::Rng r(h::seed);
  for (int which = 0; which < 2; which++) {
    auto one = [&](const V& a, const V& b) { which ? maps(a, b) : dist(a, b); };
    if (h::begin(which ? "maps-exhaustive" : "dist-exhaustive"))
      all(h::N(4, 5), 3, [&](const V& a) { all(h::N(4, 5), 3, [&](const V& b) { one(a, b); }); });
    if (h::begin(which ? "maps-random" : "dist-random")) {
      for (int it = 0; it < h::N(6000, 60000); it++) {
        int k = r.range(1, 6), n = r.range(0, it % 50 == 0 ? 120 : 14), m = r.range(0, it % 50 == 0 ? 120 : 14);
        V a, b;
        for (int i = 0; i < n; i++) a.push_back(r.below(k) * (it % 7 ? 1 : -100000007));
        if (r.chance(60)) {  // b is an edited a
          for (int x : a) { int w = r.below(10); if (w == 0) continue; if (w == 1) b.push_back(r.below(k)); if (w == 2) { b.push_back(r.below(k)); continue; } b.push_back(x); }
        } else for (int i = 0; i < m; i++) b.push_back(r.below(k));
        one(a, b);
      }
    }
  }
  for (int which = 0; which < 2; which++)  // long sequences: moved, inserted, dropped and repeated blocks, common ends
    if (h::begin(which ? "maps-blocks" : "dist-blocks"))
      for (int it = 0; it < h::N(120, 1500); it++) {
        int n = r.range(20, it % 6 == 0 ? 700 : 220), k = r.chance(50) ? 1 << 20 : r.range(2, 30);
        V a, b;
        for (int i = 0; i < n; i++) a.push_back(r.below(k) - (it % 3 ? 0 : k / 2));
        b = a;
        for (int e = r.range(1, 3); e; e--) {
          int p = r.below(b.size()), q = r.range(p, std::min<int>(b.size(), p + 1 + b.size() / 2));
          V blk(b.begin() + p, b.begin() + q);
          int w = r.below(4);
          if (w != 2) b.erase(b.begin() + p, b.begin() + q);
          if (w == 1 || w == 2) { int at = r.chance(40) ? 0 : r.below(b.size() + 1); b.insert(b.begin() + at, blk.begin(), blk.end()); }
          if (w == 3) for (size_t i = 0; i < blk.size(); i++) b.insert(b.begin() + p, 7000000 + (int)i);
          if (b.empty()) b.push_back(1);
        }
        if (r.chance(40)) std::swap(a, b);
        which ? maps(a, b) : dist(a, b);
      }
  if (h::begin("streak-exhaustive"))
    all(h::N(9, 12), 2, [&](const V& m) { V x; for (int v : m) x.push_back(v ? 1 : -1); for (int c = 0; c <= 5; c++) streak(x, c); });
  if (h::begin("streak-random"))
    for (int it = 0; it < h::N(3000, 30000); it++) {
      V m; int n = r.range(0, 60);
      int p = r.range(20, 95);
      for (int i = 0; i < n; i++) m.push_back(r.chance(p) ? -r.below(2) : 1);
      streak(m, r.range(0, 20));
    }
  return h::done();
}
