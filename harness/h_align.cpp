// Whole alignments: what Fstalign reports against the inputs it was given.
#include <cmath>
#include <fstream>
#include "h.h"
#include "Ctm.h"
#include "Nlp.h"
#include "OneBestFstLoader.h"
#include "SynonymEngine.h"
#include "fast-d.h"
#include "fstalign.h"
#include "json_logging.h"
#include "wer.h"
using std::string; using std::vector; using std::map; using std::set; using std::pair;
typedef vector<string> Ws;
wer_alignment Fstalign(FstLoader&, FstLoader&, SynonymEngine&, const AlignerOptions&);
vector<Stitching> make_stitches(wer_alignment&, vector<RawCtmRecord>, vector<RawNlpRecord>, vector<string>, bool);
void align_stitches_to_nlp(NlpFstLoader&, vector<Stitching>&);
void write_stitches_to_nlp(vector<Stitching>&, std::ofstream&, Json::Value, bool);
static Json::Value& root() { return jsonLogger::JsonLogger::getLogger().root; }
static string js(const Json::Value& j) { Json::StreamWriterBuilder b; b["indentation"] = ""; b["useSpecialFloats"] = true; return Json::writeString(b, j); }
static string slurp(const char* f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }

// ---------------------------------------------------------------- the alignment is consistent
struct Block { string label; Ws words; };              // label empty: one plain word
struct View { vector<Block> ref; Ws hyp; };
static string show(const wer_alignment& a) {
  std::ostringstream o;
  for (auto& t : a.tokens) o << t.first << "/" << t.second << " ";
  for (auto& l : a.label_alignments) { o << "{" << l.classLabel << ": "; for (auto& t : l.tokens) o << t.first << "/" << t.second << " "; o << "} "; }
  o << a.insertions << " ins " << a.deletions << " del " << a.substitutions << " sub " << a.numWordsInReference << " ref " << a.numWordsInHypothesis << " hyp";
  return o.str();
}
struct Sum { int i = 0, d = 0, s = 0, r = 0, h = 0; Ws rw, hw, dw, iw; vector<pair<string, string>> sw; };
static void add(Sum& s, const pair<string, string>& t, Ws* ref, Ws* hyp) {
  s.rw.push_back(t.first); s.hw.push_back(t.second);
  h::check(!(t.first == INS && t.second == DEL), "a pair is both insertion and deletion");
  if (t.first == INS) { s.i++; s.h++; s.iw.push_back(t.second); hyp->push_back(t.second); }
  else if (t.second == DEL) { s.d++; s.r++; s.dw.push_back(t.first); ref->push_back(t.first); }
  else { s.r++; s.h++; ref->push_back(t.first); hyp->push_back(t.second); if (t.first != t.second) { s.s++; s.sw.push_back(t); } }
}
static void sums(const wer_alignment& a, const Sum& s, const string& what) {
  h::check(a.insertions == s.i && a.deletions == s.d && a.substitutions == s.s, what + ": the error counts are not those of the aligned pairs: " + show(a));
  h::check(a.numWordsInReference == s.r && a.numWordsInHypothesis == s.h, what + ": the word counts are not those of the aligned pairs: " + show(a));
  h::check(a.ref_words == s.rw && a.hyp_words == s.hw, what + ": the aligned words differ from the pairs: " + h::show(a.ref_words) + h::show(a.hyp_words) + show(a));
  h::check(a.ins_words == s.iw && a.del_words == s.dw && a.sub_words == s.sw, what + ": inserted, deleted or substituted words differ from the pairs: " + show(a));
}
static View view(const wer_alignment& a) {
  View v;
  Sum all;
  map<string, int> used;
  for (auto& t : a.tokens) {
    if (t.first.compare(0, 3, "___") == 0) {
      const wer_alignment* sub = nullptr;
      for (auto& l : a.label_alignments) if (l.classLabel == t.first) { h::check(!sub, "two class alignments for " + t.first); sub = &l; }
      h::check(sub != nullptr, "no class alignment for " + t.first);
      h::check(used[t.first]++ == 0, "class " + t.first + " appears twice");
      Sum s; Block b; b.label = t.first;
      for (auto& u : sub->tokens) { Ws x; add(s, u, &b.words, &x); add(all, u, &x, &v.hyp); }
      sums(*sub, s, "class " + t.first);
      h::check(sub->label_alignments.empty(), "nested class alignment");
      v.ref.push_back(b);
    } else {
      Ws w;
      add(all, t, &w, &v.hyp);
      for (auto& x : w) v.ref.push_back({"", {x}});
    }
  }
  h::check(used.size() == a.label_alignments.size(), "a class alignment without a place: " + show(a));
  sums(a, all, "alignment");
  return v;
}
// ---------------------------------------------------------------- reference lattices
struct Edge { int to; string label; Ws words; };       // label "": one word
typedef vector<vector<Edge>> Lat;                      // nodes 0..n, edges go forward
static int minerr(const Lat& L, const Ws& hyp) {       // least number of errors over all readings
  int n = L.size(), m = hyp.size(), inf = 1 << 20;
  vector<vector<int>> D(n, vector<int>(m + 1, inf));
  D[0][0] = 0;
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < m; j++) D[i][j + 1] = std::min(D[i][j + 1], D[i][j] + 1);
    for (auto& e : L[i]) {
      vector<int> row = D[i];
      for (auto& w : e.words) {
        vector<int> nx(m + 1, inf);
        for (int j = 0; j <= m; j++) { nx[j] = std::min(nx[j], row[j] + 1); if (j < m) nx[j + 1] = std::min(nx[j + 1], row[j] + (w == hyp[j] ? 0 : 1)); }
        for (int j = 0; j < m; j++) nx[j + 1] = std::min(nx[j + 1], nx[j] + 1);
        row = nx;
      }
      for (int j = 0; j <= m; j++) D[e.to][j] = std::min(D[e.to][j], row[j]);
    }
  }
  return D[n - 1][m];
}
static bool reads(const Lat& L, const vector<Block>& bs) {
  set<int> at = {0};
  for (auto& b : bs) {
    set<int> nx;
    for (int i : at) for (auto& e : L[i]) {
      bool syn = e.label == "SYN";
      if (e.words != b.words) continue;
      if (!syn && e.label == b.label) nx.insert(e.to);
      if (syn) {
        size_t p = b.label.find("_SYN_");
        string tail = "_SYN_" + std::to_string(e.to - i) + "-" + std::to_string(e.words.size()) + "___";
        if (p != string::npos && b.label.substr(p) == tail) nx.insert(e.to);
      }
    }
    at = nx;
  }
  return at.count(L.size() - 1) > 0;
}
static void judge(const wer_alignment& a, const Lat& L, const Ws& hyp, bool linear, bool bound) {
  View v = view(a);
  h::check(v.hyp == hyp, "the alignment does not spell the hypothesis: " + show(a));
  h::check(reads(L, v.ref), "the alignment does not spell the reference: " + show(a));
  int e = a.insertions + a.deletions + a.substitutions, lo = minerr(L, hyp);
  h::check(e >= lo, "fewer errors than possible: " + show(a));
  if (lo == 0) h::check(e == 0, "the hypothesis is a reading of the reference, but errors are reported: " + show(a));
  if (linear && bound) h::check(2 * e <= 3 * lo, "at least " + std::to_string(lo) + " errors are needed, the alignment has " + show(a));
}
// ---------------------------------------------------------------- inputs
static Ws words(h::Rng& r, int n, int voc, const Ws* from = nullptr) {
  Ws o;
  if (from) {
    for (auto& w : *from) {
      int k = r.below(10);
      if (k == 0) continue;
      if (k == 1) o.push_back(string(1, 'a' + r.below(voc)));
      o.push_back(k == 2 ? string(1, 'a' + r.below(voc)) : w);
    }
    return o;
  }
  while (n--) o.push_back(string(1, 'a' + r.below(voc)));
  return o;
}
static string text(const Ws& w) { string o; for (auto& x : w) o += (o.empty() ? "" : " ") + x; return o; }
struct Hyp {
  int kind;
  std::unique_ptr<FstLoader> p;
  vector<RawCtmRecord> ctm; vector<RawNlpRecord> nlp; Ws raw;
};
static Ws cased(h::Rng& r, const Ws& w) { Ws o = w; for (auto& x : o) if (r.chance(15)) for (auto& c : x) c = toupper(c); return o; }
static void mkhyp(h::Rng& r, Hyp& H, const Ws& w, bool uc, int kind) {
  H.kind = kind;
  H.raw = uc ? w : cased(r, w);
  if (kind == 0) { auto l = std::make_unique<OneBestFstLoader>(uc); l->BuildFromString(text(H.raw)); H.p = std::move(l); }
  if (kind == 1) {
    float t = 0;
    for (auto& x : H.raw) { H.ctm.push_back({"rec", "1", t, 0.25f, x, 0.5f + r.below(2) * 0.5f}); t += 0.5f; }
    auto c = H.ctm; H.p = std::make_unique<CtmFstLoader>(c, uc);
  }
  if (kind == 2) {
    int i = 0;
    for (auto& x : H.raw) { RawNlpRecord n; n.token = x; n.speakerId = "1"; if (r.chance(80)) n.ts = std::to_string(i) + ".5"; if (r.chance(80)) n.endTs = std::to_string(i + 1) + ".25"; H.nlp.push_back(n); i++; }
    auto c = H.nlp; H.p = std::make_unique<NlpFstLoader>(c, Json::Value(Json::objectValue), Json::Value(Json::objectValue), true, false, uc);
  }
}
static AlignerOptions opts(h::Rng& r) {
  AlignerOptions o;
  o.speaker_switch_context_size = 0;
  o.record_case_stats = false;
  return o;
}
static SynonymEngine engine(bool dyn) { SynonymOptions o; o.disable_cutoffs = !dyn; o.disable_hyphen_ignore = !dyn; return SynonymEngine(o); }
static Lat line(const Ws& w) { Lat L(w.size() + 1); for (size_t i = 0; i < w.size(); i++) L[i].push_back({(int)i + 1, "", {w[i]}}); return L; }

static void linear(h::Rng& r, bool standard) {
  bool lev = !standard && r.chance(30);
  int n = lev ? r.range(11, 30) : r.below(standard ? 6 : r.chance(10) ? 16 : 7), voc = r.range(2, lev ? 8 : 4);
  Ws a = words(r, n, voc), b = r.chance(70) ? words(r, 0, voc, &a) : words(r, lev ? r.range(11, 20) : r.below(standard ? 6 : 7), voc);
  if (standard) { if (a.empty()) a = {"a"}; if (b.empty()) b = {"b"}; }
  AlignerOptions o = opts(r);
  if (standard) o.composition_approach = "standard";
  o.levenstein_first_pass = lev || r.chance(10);
  if (r.chance(20)) o.levenstein_maximum_error_streak = r.below(5);
  bool few = r.chance(15);
  if (few) o.numBests = r.range(1, 3);
  if (r.chance(10)) o.heapPruningTarget = r.range(1, 5);
  bool uc = r.chance(30);
  Hyp R, H;
  int k1 = r.below(3), k2 = r.below(3);
  h::start(string(standard ? "standard " : "") + (o.levenstein_first_pass ? "levenstein " : "") + "kinds " + std::to_string(k1) + "," + std::to_string(k2) + " numBests " + std::to_string(o.numBests) + " ref " + text(a) + " hyp " + text(b), a.size() + b.size() > 2);
  mkhyp(r, R, a, uc, k1); mkhyp(r, H, b, uc, k2);
  auto e = engine(false);
  wer_alignment w = Fstalign(*R.p, *H.p, e, o);
  judge(w, line(a), b, true, !few);
}
// ---------------------------------------------------------------- classes
static void classes(h::Rng& r) {
  int n = r.range(1, 5), id = 0;
  vector<RawNlpRecord> rows;
  Json::Value norm(Json::objectValue);
  Lat L(1);
  string d;
  Ws one;   // one reading
  for (int i = 0; i < n; i++) {
    if (r.chance(60)) {
      RawNlpRecord x; x.token = words(r, 1, 5)[0]; x.speakerId = "1"; x.labels = "[]"; rows.push_back(x);
      L.emplace_back(); L[L.size() - 2].push_back({(int)L.size() - 1, "", {x.token}});
      one.push_back(x.token); d += " " + x.token;
      continue;
    }
    string lab = std::to_string(id) + ":" + vector<string>{"MONEY", "TIME"}[r.below(2)], c = "___" + lab + "___";
    for (auto& ch : c) if (ch == ':') ch = '_';
    Ws own = words(r, r.range(1, 2), 5);
    for (auto& w : own) { RawNlpRecord x; x.token = w; x.speakerId = "1"; x.best_label = lab; x.best_label_id = std::to_string(id); x.labels = "['" + lab + "']"; rows.push_back(x); }
    vector<Ws> alts = {own};
    int k = r.below(3);
    while (k--) {
      Ws alt = words(r, r.range(1, 3), 5);
      alts.push_back(alt);
      Json::Value v(Json::arrayValue), cc;
      for (auto& w : alt) v.append(w);
      cc["verbalization"] = v; cc["probability"] = 0.5;
      norm[std::to_string(id)]["candidates"].append(cc);
    }
    L.emplace_back();
    d += " [" + lab;
    for (auto& x : alts) { L[L.size() - 2].push_back({(int)L.size() - 1, c, x}); d += "|" + text(x); }
    d += "]";
    for (auto& w : r.pick(alts)) one.push_back(w);
    id++;
  }
  Ws b = r.chance(40) ? one : r.chance(60) ? words(r, 0, 5, &one) : words(r, r.below(6), 5);
  AlignerOptions o = opts(r);
  bool standard = r.chance(15);
  if (standard) { if (b.empty()) b = {"a"}; o.composition_approach = "standard"; }
  Hyp H;
  int k = r.below(3);
  h::start(string(standard ? "standard " : "") + "ref" + d + " hyp " + text(b), true);
  mkhyp(r, H, b, false, k);
  NlpFstLoader R(rows, norm, Json::Value(Json::objectValue), true);
  auto e = engine(false);
  judge(Fstalign(R, *H.p, e, o), L, b, false, false);
}
// ---------------------------------------------------------------- synonyms
static string join(const Ws& w, const string& s) { string o; for (size_t i = 0; i < w.size(); i++) o += (i ? s : "") + w[i]; return o; }
static void synonyms(h::Rng& r) {
  Ws vocab = {"a", "b", "c", "d"};
  bool dyn = r.chance(50);
  if (dyn) for (auto& x : {"a-b", "c-", "b-c-d", "d-"}) vocab.push_back(x);
  bool hash = r.chance(25);
  if (hash) for (auto& x : {"#c", "e#"}) vocab.push_back(x);
  auto ws = [&](int n) { Ws o; while (n--) o.push_back(r.pick(vocab)); return o; };
  Ws a = ws(r.range(1, 5));
  if (dyn && r.chance(30)) for (auto& x : r.chance(50) ? Ws{"a", "b"} : Ws{"b", "c", "d"}) a.push_back(x);
  map<Ws, vector<Ws>> rules;
  vector<string> lines;
  int k = r.below(4);
  auto blank = [&] { return string(r.range(0, 2), ' '); };
  while (k--) {
    Ws lhs = r.chance(80) ? Ws(a.begin() + r.below(a.size()), a.end()) : ws(1);
    if (lhs.size() > 2) lhs.resize(r.range(1, 2));
    vector<Ws> alts;
    int q = r.range(1, 2);
    string rhs;
    for (int i = 0; i < q; i++) { alts.push_back(ws(r.range(1, 3))); rhs += (i ? ";" : "") + blank() + join(alts.back(), r.chance(20) ? "  " : " ") + blank(); }
    if (lhs[0][0] != '#' && !rules.count(lhs)) rules[lhs] = alts;   // a line that starts with # is a comment
    lines.push_back(blank() + join(lhs, r.chance(20) ? "  " : " ") + blank() + "|" + rhs);
    if (r.chance(10)) lines.push_back("# x | y");
    if (r.chance(10)) lines.push_back("  ");
    if (r.chance(10)) lines.push_back("a | b | c");
    if (r.chance(10)) lines.push_back("a b c");
  }
  Ws b0;
  for (size_t i = 0; i < a.size();) {   // a reading of the reference through the listed rules
    bool done = false;
    for (auto& e : rules) if (r.chance(70) && i + e.first.size() <= a.size() && std::equal(e.first.begin(), e.first.end(), a.begin() + i)) { for (auto& w : r.pick(e.second)) b0.push_back(w); i += e.first.size(); done = true; break; }
    if (!done) { b0.push_back(a[i]); i++; }
  }
  Ws b = r.chance(60) ? b0 : ws(r.below(6));
  if (dyn && r.chance(50)) { Ws c; for (auto& w : b) { if (w == "a-b") { c.push_back("a"); c.push_back("b"); } else if (w.back() == '-') c.push_back(w.substr(0, w.size() - 1)); else c.push_back(w); } b = c; }
  else if (dyn && r.chance(60)) {   // and the other way: words written together with hyphens
    Ws c;
    for (size_t i = 0; i < b.size(); i++) {
      if (i + 2 < b.size() && b[i] == "b" && b[i + 1] == "c" && b[i + 2] == "d") { c.push_back("b-c-d"); i += 2; }
      else if (i + 1 < b.size() && b[i] == "a" && b[i + 1] == "b") { c.push_back("a-b"); i++; }
      else c.push_back(b[i]);
    }
    b = c;
  }
  bool cut = dyn && r.chance(80), hyph = dyn && r.chance(80), file = r.chance(30);
  h::start(string(cut ? "cutoffs " : "") + (hyph ? "hyphens " : "") + "rules " + h::show(lines) + " ref " + text(a) + " hyp " + text(b), true);
  SynonymOptions so; so.disable_cutoffs = !cut; so.disable_hyphen_ignore = !hyph;
  SynonymEngine e(so);
  if (file) { { std::ofstream f("syn.txt"); for (auto& l : lines) f << l << "\n"; } e.LoadFile("syn.txt"); } else e.ParseStrings(lines);
  // generated rules: from the words of both sides
  set<string> table(a.begin(), a.end());
  table.insert(b.begin(), b.end());
  vector<string> order;   // words in the order they enter the symbol table
  for (auto& w : a) if (std::find(order.begin(), order.end(), w) == order.end()) order.push_back(w);
  for (auto& w : b) if (std::find(order.begin(), order.end(), w) == order.end()) order.push_back(w);
  for (auto& w : order) {
    size_t p = w.find('-');
    if (p == string::npos) continue;
    if (p + 1 == w.size()) { if (cut && !rules.count({w})) rules[{w}] = {{w.substr(0, p)}}; continue; }
    if (!hyph) continue;
    Ws parts; string cur;
    for (char c : w) { if (c == '-') { parts.push_back(cur); cur = ""; } else cur += c; }
    parts.push_back(cur);
    if (!rules.count({w})) rules[{w}] = {parts};
    if (!rules.count(parts)) rules[parts] = {{w}};
  }
  Lat L = line(a);
  for (size_t i = 0; i < a.size(); i++) for (auto& q : rules) if (i + q.first.size() <= a.size() && std::equal(q.first.begin(), q.first.end(), a.begin() + i))
    for (auto& alt : q.second) L[i].push_back({(int)(i + q.first.size()), "SYN", alt});
  Hyp R, H;
  mkhyp(r, R, a, false, r.below(3)); mkhyp(r, H, b, false, r.below(3));
  AlignerOptions o = opts(r);
  judge(Fstalign(*R.p, *H.p, e, o), L, b, false, false);
}
// the synonyms are applied to an arbitrary reference graph
static void synfst(h::Rng& r) {
  SymbolTable sym("s");
  for (auto* c : {"<eps>", "<ins>", "<del>", "<sub>"}) sym.AddSymbol(c);
  int voc = r.range(1, 3), n = r.range(1, 7);
  Ws vocab; for (int i = 0; i < 4; i++) vocab.push_back(string(1, 'a' + i));
  for (int i = 0; i < voc; i++) sym.AddSymbol(vocab[i]);
  int cls = sym.AddSymbol("___0_X___");
  fst::StdVectorFst f;
  for (int i = 0; i < n; i++) f.AddState();
  f.SetStart(0); f.SetFinal(n - 1, 0);
  std::ostringstream d;
  for (int i = 0; i + 1 < n; i++) for (int k = r.range(1, 3); k > 0; k--) {
    int t = r.chance(8) ? i : r.range(i + 1, std::min(n - 1, i + 2)), l = r.chance(10) ? cls : r.chance(5) ? 0 : sym.Find(vocab[r.below(voc)]);
    f.AddArc(i, fst::StdArc(l, l, r.chance(20) ? 1 : 0, t));
    d << i << "-" << sym.Find(l) << "->" << t << " ";
  }
  auto ws = [&](int k) { Ws o; while (k--) o.push_back(r.pick(vocab)); return o; };
  map<Ws, vector<Ws>> rules;
  vector<string> lines;
  for (int k = r.range(1, 4); k > 0; k--) {
    Ws lhs = ws(r.range(1, 3));
    if (rules.count(lhs)) continue;
    string rhs;
    for (int q = r.range(1, 2); q > 0; q--) { rules[lhs].push_back(ws(r.range(1, 3))); rhs += (rhs.empty() ? "" : ";") + join(rules[lhs].back(), " "); }
    lines.push_back(join(lhs, " ") + "|" + rhs);
  }
  h::start("graph of " + std::to_string(n) + " states " + d.str() + "rules " + h::show(lines), n > 1);
  auto e = engine(false);
  e.ParseStrings(lines);
  fst::StdVectorFst g = f;
  std::map<int, string> names;
  for (fst::SymbolTableIterator i(sym); !i.Done(); i.Next()) names[i.Value()] = i.Symbol();
  e.ApplyToFst(g, sym);
  for (auto& x : names) h::eq(sym.Find(x.first), x.second, "symbol");
  auto arc = [](const fst::StdArc& a) { return std::make_tuple((int)a.ilabel, (int)a.olabel, (float)a.weight.Value(), (int)a.nextstate); };
  h::check(g.NumStates() >= n && g.Start() == f.Start(), "states were dropped or the start moved");
  for (int i = 0; i < g.NumStates(); i++) h::eq(g.Final(i).Value(), i < n ? f.Final(i).Value() : fst::TropicalWeight::Zero().Value(), "final weight of state " + std::to_string(i));
  struct Chain { int from; Ws words; set<int> ends; bool operator<(const Chain& o) const { return std::tie(from, words, ends) < std::tie(o.from, o.words, o.ends); } };
  set<Chain> got, want;
  set<int> used;
  for (int i = 0; i < n; i++) {
    size_t k = 0;
    for (fst::ArcIterator<fst::StdVectorFst> b(f, i); !b.Done(); b.Next(), k++) {
      h::check(k < g.NumArcs(i), "an arc of the reference was dropped");
      fst::ArcIterator<fst::StdVectorFst> c(g, i); c.Seek(k);
      h::check(arc(b.Value()) == arc(c.Value()), "an arc of the reference changed");
    }
    fst::ArcIterator<fst::StdVectorFst> c(g, i);
    for (c.Seek(k); !c.Done(); c.Next()) {
      auto a = c.Value();
      string lab = sym.Find(a.ilabel);
      h::check(a.ilabel == a.olabel && a.weight.Value() == 0 && a.nextstate >= n && lab.find("_SYN_") != string::npos && used.insert(a.ilabel).second, "new arc " + lab + " out of state " + std::to_string(i));
      Chain ch; ch.from = i;
      int s = a.nextstate;
      for (;;) {
        h::check(s >= n && g.NumArcs(s) > 0, "the synonym " + lab + " leads nowhere");
        fst::ArcIterator<fst::StdVectorFst> x(g, s);
        if (x.Value().ilabel == a.ilabel) {
          for (; !x.Done(); x.Next()) { auto& y = x.Value(); h::check(y.ilabel == a.ilabel && y.olabel == a.ilabel && y.weight.Value() == 0 && y.nextstate < n, "the end of synonym " + lab); ch.ends.insert(y.nextstate); }
          break;
        }
        h::check(g.NumArcs(s) == 1 && x.Value().ilabel == x.Value().olabel && x.Value().weight.Value() == 0, "inside the synonym " + lab);
        ch.words.push_back(sym.Find(x.Value().ilabel));
        s = x.Value().nextstate;
        h::check(ch.words.size() < 9, "the synonym " + lab + " is a loop");
      }
      got.insert(ch);
    }
  }
  std::function<void(int, const Ws&, size_t, set<int>&)> walk = [&](int s, const Ws& w, size_t k, set<int>& out) {
    if (k == w.size()) { out.insert(s); return; }
    for (fst::ArcIterator<fst::StdVectorFst> b(f, s); !b.Done(); b.Next()) if (b.Value().nextstate != s && names[b.Value().ilabel] == w[k]) walk(b.Value().nextstate, w, k + 1, out);
  };
  for (int i = 0; i < n; i++) for (auto& q : rules) {
    set<int> ends;
    walk(i, q.first, 0, ends);
    if (!ends.empty()) for (auto& alt : q.second) want.insert({i, alt, ends});
  }
  auto sh = [](const set<Chain>& v) { std::ostringstream o; for (auto& c : v) { o << c.from << ":" << join(c.words, "_") << "->"; for (int x : c.ends) o << x << ","; o << " "; } return o.str(); };
  h::check(!(got < want) && !(want < got), "the alternatives are " + sh(got) + ", expected " + sh(want));
}
// ---------------------------------------------------------------- the commands are made of their parts
static void handle(h::Rng& r) {
  int n = r.range(0, 8), id = 0;
  vector<RawNlpRecord> rows;
  Ws a;
  string d;
  string spk = "0";
  bool nlpref = r.chance(80), labels = r.chance(40);
  for (int i = 0; i < n; i++) {
    RawNlpRecord x; x.token = cased(r, words(r, 1, 4))[0];
    if (r.chance(25)) spk = std::to_string(r.below(3));
    x.speakerId = spk; x.labels = "[]"; x.casing = "LC"; x.punctuation = r.chance(60) ? "" : "."; x.ts = r.chance(50) ? "" : std::to_string(i); x.prepunctuation = r.chance(80) ? "" : "(";
    if (labels && r.chance(30)) { x.best_label = std::to_string(id) + ":MONEY"; x.best_label_id = std::to_string(id); x.labels = "['" + x.best_label + "']"; id++; }
    if (r.chance(30)) x.wer_tags.push_back({std::to_string(r.below(3)), ""});
    rows.push_back(x);
    a.push_back(x.token);
    d += " " + x.token + "/" + x.speakerId + (x.best_label.empty() ? "" : "[" + x.best_label + "]") + x.punctuation;
  }
  Ws al = a; for (auto& w : al) w = UnicodeLowercase(w);
  bool uc = r.chance(40);
  Ws b = words(r, 0, 4, uc ? &a : &al);
  int k = r.below(3);
  AlignerOptions o = opts(r);
  o.speaker_switch_context_size = r.chance(50) ? 0 : r.range(1, 3);
  o.record_case_stats = r.chance(50);
  o.pr_threshold = r.below(2);
  if (r.chance(10)) o.composition_approach = "standard";
  bool onlp = r.chance(70), osbs = r.chance(70), ins = r.chance(40), align = nlpref && k == 1 && r.chance(30);
  h::start(string(align ? "align " : "wer ") + (uc ? "use_case " : "") + (ins ? "add_inserts " : "") + "kinds " + (nlpref ? "nlp," : "text,") + std::to_string(k) + " context " + std::to_string(o.speaker_switch_context_size) + " ref" + d + " hyp " + text(b), true);
  Json::Value norm(Json::objectValue), side(Json::objectValue);
  for (int i = 0; i < 3; i++) side[std::to_string(i)]["entity_type"] = "T" + std::to_string(i);
  Hyp H, H2, R1, R2;
  if (align) uc = false;
  { auto q = r; mkhyp(r, H, b, uc, k); mkhyp(q, H2, b, uc, k); }
  auto c1 = rows, c2 = rows;
  std::unique_ptr<FstLoader> ra, rb;
  if (nlpref) { ra = std::make_unique<NlpFstLoader>(c1, norm, side, true, false, uc); rb = std::make_unique<NlpFstLoader>(c2, norm, side, true, false, uc); }
  else { mkhyp(r, R1, uc ? a : al, true, 0); ra = std::move(R1.p); mkhyp(r, R2, uc ? a : al, true, 0); rb = std::move(R2.p); }
  auto e1 = engine(false), e2 = engine(false);
  ::unlink("o.nlp"); ::unlink("o.sbs"); ::unlink("p.nlp"); ::unlink("p.sbs");
  root() = Json::Value();
  auto* nr = dynamic_cast<NlpFstLoader*>(rb.get());
  if (align) {
    { std::ofstream f("o.nlp"); HandleAlign(*dynamic_cast<NlpFstLoader*>(ra.get()), *dynamic_cast<CtmFstLoader*>(H.p.get()), e1, f, o); }
    Json::Value got = root();
    root() = Json::Value();
    wer_alignment w = Fstalign(*rb, *H2.p, e2, o);
    RecordWer(w);
    auto st = make_stitches(w, H2.ctm, {}, {}, false);
    align_stitches_to_nlp(*nr, st);
    { std::ofstream f("p.nlp"); write_stitches_to_nlp(st, f, nr->mJsonNorm, false); }
    h::eq(slurp("o.nlp"), slurp("p.nlp"), "aligned output");
    h::eq(js(got), js(root()), "report");
    return;
  }
  HandleWer(*ra, *H.p, e1, osbs ? "o.sbs" : "", onlp ? "o.nlp" : "", o, ins, uc);
  Json::Value got = root();
  root() = Json::Value();
  wer_alignment w = Fstalign(*rb, *H2.p, e2, o);
  CalculatePrecisionRecall(w, o.pr_threshold);
  RecordWer(w);
  auto st = make_stitches(w, H2.ctm, H2.nlp, k == 0 ? H2.raw : Ws(), uc);
  if (nr) {
    align_stitches_to_nlp(*nr, st);
    if (o.record_case_stats) RecordCaseWer(st);
    if (o.speaker_switch_context_size > 0) RecordSpeakerSwitchWer(st, o.speaker_switch_context_size);
    RecordSpeakerWer(st); RecordTagWer(st); RecordSentenceWer(st);
    if (onlp) { std::ofstream f("p.nlp"); auto s2 = st; write_stitches_to_nlp(st, f, nr->mJsonNorm, ins); }
  }
  JsonLogUnigramBigramStats(w);
  if (osbs) WriteSbs(w, st, "p.sbs");
  h::eq(js(got), js(root()), "report");
  h::eq(slurp("o.nlp"), slurp("p.nlp"), "aligned output");
  h::eq(slurp("o.sbs"), slurp("p.sbs"), "side by side output");
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  h::Rng r(h::seed);
  struct { const char* n; std::function<void(h::Rng&)> f; int q; } gs[] = {{"align-linear", [](h::Rng& r) { linear(r, false); }, 4000}, {"align-standard", [](h::Rng& r) { linear(r, true); }, 300},
    {"align-class", classes, 2500}, {"align-syn", synonyms, 3000}, {"syn-fst", synfst, 6000}, {"handle", handle, 1200}};
  for (auto& g : gs) if (h::begin(g.n)) for (int i = 0; i < h::N(g.q, g.q * 12); i++) { alarm(120); g.f(r); }
  alarm(0);
  return h::done();
}
