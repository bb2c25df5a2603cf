// Adapted composition against a direct reading of its rules, and the path heap.
#include <cmath>
#include <limits>
#include <deque>
#include "h.h"
#include "AdaptedComposition.h"
#include "PathHeap.h"
using Sym = fst::SymbolTable;
using VF = fst::StdVectorFst;
typedef std::pair<int, int> P2;

static std::string dump(const VF& f) {
  std::ostringstream o;
  o << "start " << f.Start() << " ";
  for (int s = 0; s < f.NumStates(); s++) {
    for (fst::ArcIterator<VF> a(f, s); !a.Done(); a.Next()) o << s << "->" << a.Value().nextstate << ":" << a.Value().ilabel << ":" << a.Value().olabel << "/" << a.Value().weight.Value() << " ";
    if (f.Final(s) != fst::TropicalWeight::Zero()) o << s << " final ";
  }
  return o.str();
}
struct Want { int il, ol; float w; P2 to; };
static bool operator<(const Want& a, const Want& b) { return std::tie(a.il, a.ol, a.w, a.to) < std::tie(b.il, b.ol, b.w, b.to); }
static bool operator==(const Want& a, const Want& b) { return !(a < b) && !(b < a); }
static std::string show(const std::vector<Want>& v) {
  std::ostringstream o;
  for (auto& x : v) o << x.il << ":" << x.ol << "/" << x.w << "->(" << x.to.first << "," << x.to.second << ") ";
  return o.str();
}
static const int DELID = 2;
struct Spec {
  const VF &A, &B;
  const Sym& sym;
  bool syn(int l) const { std::string s = sym.Find(l); return s.compare(0, 3, "___") == 0 && s.find("_SYN_") != std::string::npos; }
  bool ent(int l) const { return sym.Find(l).compare(0, 3, "___") == 0; }
  // can the exit label be reached from (a, b) by exact matches only
  bool reach(int l, int a, int b) const {
    for (fst::ArcIterator<VF> i(A, a); !i.Done(); i.Next()) {
      auto& x = i.Value();
      if (x.olabel == l) return true;
      if (x.olabel == 0) { if (reach(l, x.nextstate, b)) return true; continue; }
      for (fst::ArcIterator<VF> j(B, b); !j.Done(); j.Next()) if (x.olabel == j.Value().ilabel && reach(l, x.nextstate, j.Value().nextstate)) return true;
    }
    return false;
  }
  std::set<int> exits;   // states that end a synonym
  std::vector<Want> arcs(int a, int b) const {
    std::vector<Want> o;
    bool matched = false, any = false;
    for (fst::ArcIterator<VF> i(A, a); !i.Done(); i.Next()) {
      auto& x = i.Value();
      any = true;
      if (x.nextstate == a) continue;
      if (x.olabel == 0) { o.push_back({0, 0, 0, {x.nextstate, b}}); continue; }
      if (ent(x.olabel)) {
        if (!syn(x.olabel) || exits.count(a) || reach(x.olabel, x.nextstate, b)) { matched = true; o.push_back({x.ilabel, DELID, 0, {x.nextstate, b}}); }
        continue;
      }
      for (fst::ArcIterator<VF> j(B, b); !j.Done(); j.Next()) {
        auto& y = j.Value();
        if (x.olabel == y.ilabel) { matched = true; o.push_back({x.ilabel, y.olabel, 0, {x.nextstate, y.nextstate}}); }
        if (y.weight.Value() <= 0) o.push_back({0, y.olabel, 1, {a, y.nextstate}});
        if (y.weight.Value() <= 0 && x.weight.Value() <= 0) o.push_back({x.ilabel, y.olabel, 1.5f, {x.nextstate, y.nextstate}});
      }
      if (!matched || x.weight.Value() < 0) o.push_back({x.ilabel, 0, 1, {x.nextstate, b}});
    }
    if (!any) for (fst::ArcIterator<VF> j(B, b); !j.Done(); j.Next()) if (j.Value().weight.Value() <= 0) o.push_back({0, j.Value().olabel, 1, {a, j.Value().nextstate}});
    return o;
  }
};
static float wt(h::Rng& r, int pct) { return r.chance(pct) ? 1.0f : 0.0f; }
static void compose(h::Rng& r) {
  Sym s("s");
  for (const char* c : {"<eps>", "<ins>", "<del>", "<sub>"}) s.AddSymbol(c);
  bool gap = r.chance(30);
  std::vector<int> w, cls, syn;
  bool lattice = r.chance(30);   // few words, many parallel arcs
  for (int i = 0; i < (lattice ? 2 : 4); i++) w.push_back(gap && r.chance(40) ? s.AddSymbol("w" + std::to_string(i), 50 + 40 * i + r.below(30)) : s.AddSymbol("w" + std::to_string(i)));
  for (int i = 0; i < 2; i++) cls.push_back(s.AddSymbol("___" + std::to_string(i) + "_MONEY___"));
  int nsyn = lattice ? r.range(1, 3) : r.below(4);
  VF A, B;
  std::set<int> exits;
  std::set<int> labels;
  int n = r.range(1, 5), anchors = r.chance(30) ? 40 : 0;
  for (int i = 0; i < n; i++) A.AddState();
  A.SetStart(0);
  for (int i = 0; i + 1 < n; i++) {
    int k = r.range(1, r.chance(70) ? 1 : 3);
    while (k--) {
      int t = r.range(i + 1, std::min(n - 1, i + 1 + r.below(2)));
      int l = r.chance(12) ? 0 : r.chance(12) ? r.pick(cls) : r.pick(w);
      A.AddArc(i, fst::StdArc(l, l, wt(r, anchors), t));
    }
    if (r.chance(10)) A.AddArc(i, fst::StdArc(w[0], w[0], 0, i));
    if (nsyn && r.chance(50)) {
      nsyn--;
      int l = s.AddSymbol("___" + std::to_string(100000 + nsyn) + "_SYN_1-2___"), st = A.AddState(), len = lattice ? r.range(1, 3) : r.below(3);
      labels.insert(l);
      A.AddArc(i, fst::StdArc(l, l, 0, st));
      if (r.chance(20)) { int q = A.AddState(); A.AddArc(st, fst::StdArc(0, 0, 0, q)); st = q; }
      while (len--) { int q = A.AddState(), x = r.pick(w); A.AddArc(st, fst::StdArc(x, x, 0, q)); st = q; }
      exits.insert(st);
      int e = r.range(1, 2);
      while (e--) A.AddArc(st, fst::StdArc(l, l, 0, r.range(i + 1, n - 1)));
    }
  }
  A.SetFinal(n - 1, 0);
  if (r.chance(20)) A.SetFinal(r.below(n), 0);
  if (r.chance(20)) { int q = A.AddState(); A.AddArc(n - 1, fst::StdArc(0, 0, 0, q)); A.SetFinal(q, 0); }
  int m = lattice ? r.range(3, 7) : r.range(1, 6);
  for (int i = 0; i < m; i++) B.AddState();
  B.SetStart(0);
  for (int i = 0; i + 1 < m; i++) {
    int k = r.range(1, lattice ? 3 : r.chance(80) ? 1 : 2);
    while (k--) { int l = r.pick(w); B.AddArc(i, fst::StdArc(l, r.chance(90) ? l : r.pick(w), wt(r, anchors), r.range(i + 1, std::min(m - 1, i + 1 + r.below(2))))); }
  }
  B.SetFinal(m - 1, 0);
  if (r.chance(20)) B.SetFinal(r.below(m), 0);
  if (r.chance(60)) { fst::ArcSort(&A, fst::StdILabelCompare()); }
  std::string tab;
  for (int x : w) tab += s.Find(x) + "=" + std::to_string(x) + " ";
  for (int x : cls) tab += s.Find(x) + "=" + std::to_string(x) + " ";
  for (int x : labels) tab += s.Find(x) + "=" + std::to_string(x) + " ";
  h::start("symbols " + tab + " A: " + dump(A) + " B: " + dump(B), n > 1 && m > 1);
  VF a0 = A, b0 = B;
  Spec spec{A, B, s, exits};
  AdaptedCompositionFst c(A, B, s);
  std::map<P2, int> id;
  std::map<int, P2> back;
  std::deque<int> todo;
  auto bind = [&](int k, P2 p) {
    h::check(k >= 0, "negative state number");
    if (id.count(p)) h::check(id[p] == k, "the pair (" + std::to_string(p.first) + "," + std::to_string(p.second) + ") has two state numbers");
    else { h::check(!back.count(k), "state number " + std::to_string(k) + " stands for two pairs"); id[p] = k; back[k] = p; todo.push_back(k); }
  };
  bind(c.Start(), {(int)A.Start(), (int)B.Start()});
  long steps = 0;
  while (!todo.empty()) {
    int k = r.chance(50) ? todo.front() : todo.back();
    if (k == todo.front()) todo.pop_front(); else todo.pop_back();
    P2 p = back[k];
    h::check(c.DoesComposedStateExist(p.first, p.second) && c.DoesComposedStateExist(k), "a created state is said not to exist");
    for (int again = 0; again < (r.chance(10) ? 2 : 1); again++) {
      std::vector<fst::StdArc> got;
      h::check(c.TryGetArcsAtState(k, &got), "no arcs for state " + std::to_string(k));
      auto want = spec.arcs(p.first, p.second);
      std::string at = "at (" + std::to_string(p.first) + "," + std::to_string(p.second) + ")";
      std::string gs;
      for (auto& g : got) gs += std::to_string(g.ilabel) + ":" + std::to_string(g.olabel) + "/" + h::show(g.weight.Value()) + " ";
      h::check(got.size() == want.size(), std::to_string(got.size()) + " arcs " + at + ": " + gs + ", expected " + show(want));
      // match them up: the order is not fixed, the state numbers are found on the way
      auto gk = [&](const fst::StdArc& g) { return std::make_tuple((int)g.ilabel, (int)g.olabel, g.weight.Value()); };
      auto wk = [&](const Want& g) { return std::make_tuple(g.il, g.ol, g.w); };
      std::map<std::tuple<int, int, float>, std::pair<std::vector<int>, std::vector<P2>>> by;
      for (auto& g : got) by[gk(g)].first.push_back(g.nextstate);
      for (auto& x : want) by[wk(x)].second.push_back(x.to);
      for (auto& e : by) h::check(e.second.first.size() == e.second.second.size(), "arcs " + at + ": " + gs + ", expected " + show(want));
      // in order first; when that is not a bijection try permutations
      for (auto& e : by) {
        auto g = e.second.first; auto x = e.second.second;
        std::vector<int> idx(g.size());
        for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
        bool ok = false;
        do {
          ok = true;
          std::map<P2, int> i2; std::map<int, P2> b2;
          for (size_t i = 0; i < g.size() && ok; i++) {
            P2 q = x[idx[i]]; int z = g[i];
            if (id.count(q)) ok = id[q] == z; else if (back.count(z)) ok = false;
            else if (i2.count(q)) ok = i2[q] == z; else if (b2.count(z)) ok = b2[z] == q;
            else { i2[q] = z; b2[z] = q; }
          }
        } while (!ok && std::next_permutation(idx.begin(), idx.end()));
        h::check(ok, "arcs " + at + " lead elsewhere: expected " + show(want));
        for (size_t i = 0; i < g.size(); i++) bind(g[i], x[idx[i]]);
      }
    }
    bool fin = A.Final(p.first) != fst::TropicalWeight::Zero() && B.Final(p.second) != fst::TropicalWeight::Zero();
    h::check((c.Final(k) != fst::TropicalWeight::Zero()) == fin, std::string("state is ") + (fin ? "" : "not ") + "final in both graphs");
    if (++steps > 3000) return;
  }
  for (int a = 0; a < A.NumStates(); a++) for (int b = 0; b < B.NumStates(); b++)
    h::eq(c.DoesComposedStateExist(a, b), id.count({a, b}) > 0, "DoesComposedStateExist(" + std::to_string(a) + "," + std::to_string(b) + ")");
  h::eq(c.Start(), id[P2((int)A.Start(), (int)B.Start())], "start");
  int none = 0;
  while (back.count(none)) none++;
  std::vector<fst::StdArc> out;
  h::check(!c.DoesComposedStateExist(none), "DoesComposedStateExist of a state that was never created");
  h::check(!c.TryGetArcsAtState(none, &out) && out.empty(), "arcs of a state that was never created");
  h::check(fst::Equal(A, a0) && fst::Equal(B, b0), "an input graph was changed");
}
// ---------------------------------------------------------------- heap
struct E { int words, errs, ins; float cost; int st; };
static bool before(const E& a, const E& b) { return std::tie(a.words, a.errs, a.cost, a.st) < std::tie(b.words, b.errs, b.cost, b.st); }
static bool same(const E& a, const E& b) { return !before(a, b) && !before(b, a); }
static std::string sh(const std::vector<E>& v) { std::ostringstream o; for (auto& e : v) o << "(" << e.words << " words " << e.errs << " errors cost " << e.cost << " state " << e.st << ")"; return o.str(); }
static void heap(h::Rng& r) {
  PathHeap hp;
  std::vector<E> m;   // sorted, no two equal
  std::string d;
  int ops = r.range(1, 60), wide = r.chance(40) ? 60 : 4;
  h::start("", true);
  auto say = [&](const std::string& s) { d += s + " "; h::cur = "heap: " + d; };
  for (int i = 0; i < ops; i++) {
    int k = r.below(10);
    if (k < 7 || m.empty()) {
      E e{r.range(1, 4), r.below(wide), r.below(3), r.below(6) / 2.0f, r.below(4)};
      auto p = std::make_shared<ShortlistEntry>();
      p->numWords = e.words; p->numErrors = e.errs; p->numInsert = e.ins; p->costSoFar = e.cost; p->currentState = e.st;
      say("insert " + sh({e}));
      hp.insert(p);
      bool dup = false;
      for (auto& x : m) dup |= same(x, e);
      if (!dup) { m.push_back(e); std::sort(m.begin(), m.end(), before); }
    } else if (k == 7) {
      say("remove");
      auto p = hp.removeFirst();
      E e{p->numWords, p->numErrors, p->numInsert, p->costSoFar, p->currentState};
      h::check(same(e, m[0]), "removed " + sh({e}) + " from " + sh(m));
      m.erase(m.begin());
    } else if (k == 8) {
      say("best");
      auto p = hp.GetBestWerCandidate();
      float best = std::numeric_limits<float>::infinity();
      for (auto& x : m) best = std::min(best, (float)x.errs / x.words);
      h::check(p != nullptr && (float)p->numErrors / p->numWords == best, "best candidate has rate " + (p ? h::show((float)p->numErrors / p->numWords) : std::string("none")) + " of " + sh(m));
    } else {
      int t = r.range(1, 8);
      say("prune to " + std::to_string(t));
      int lim = m[std::min((int)m.size(), t) - 1].errs + 20, cnt = 0;
      std::vector<E> k2;
      for (int q = 0; q < (int)m.size(); q++) if (q < t || m[q].errs <= lim) k2.push_back(m[q]); else cnt++;
      h::eq(hp.prune(t), cnt, "number of pruned entries");
      m = k2;
    }
    h::eq(hp.size(), (int)m.size(), "size");
  }
  if (m.empty()) h::check(hp.GetBestWerCandidate() == nullptr, "best candidate of an empty heap");
  for (auto& x : m) {
    auto p = hp.removeFirst();
    E e{p->numWords, p->numErrors, p->numInsert, p->costSoFar, p->currentState};
    h::check(same(e, x), "emptying the heap gives " + sh({e}) + " instead of " + sh({x}));
  }
  h::eq(hp.size(), 0, "size at the end");
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  logger::GetOrCreateLogger("AdaptedCompositionFst");
  h::Rng r(h::seed);
  if (h::begin("compose")) for (int i = 0; i < h::N(12000, 150000); i++) compose(r);
  if (h::begin("heap")) for (int i = 0; i < h::N(8000, 80000); i++) heap(r);
  return h::done();
}
