// Traversal of an alignment, stitching to the hypothesis rows, attachment of NLP rows, aligned output.
#include <cmath>
#include <fstream>
#include "h.h"
#include "AlignmentTraversor.h"
#include "Ctm.h"
#include "Nlp.h"
#include "fstalign.h"
using std::string; using std::vector; using std::map; using std::set; using std::pair;
vector<Stitching> make_stitches(wer_alignment&, vector<RawCtmRecord>, vector<RawNlpRecord>, vector<string>, bool);
void align_stitches_to_nlp(NlpFstLoader&, vector<Stitching>&);
void write_stitches_to_nlp(vector<Stitching>&, std::ofstream&, Json::Value, bool);
struct T3 { string ref, hyp, cls; };
static string show(const vector<T3>& v) { string o; for (auto& t : v) o += t.ref + "/" + t.hyp + (t.cls == TK_GLOBAL_CLASS ? "" : "@" + t.cls) + " "; return o; }
static string wd(h::Rng& r) { return vector<string>{"a", "b", "c", "five", "\xc3\xa9t\xc3\xa9", "<noise>", "<foreign:fr>"}[r.below(7)]; }

// random alignment: what it must be read as
static wer_alignment build(h::Rng& r, vector<T3>& want) {
  wer_alignment a;
  int n = r.below(r.chance(10) ? 30 : 9), id = 0;
  auto pr = [&](pair<string, string>* p, const string& c) {
    int k = r.below(6);
    *p = k == 0 ? std::make_pair(INS, wd(r)) : k == 1 ? std::make_pair(wd(r), DEL) : k == 2 ? std::make_pair(wd(r), wd(r)) : std::make_pair(string("a"), string("a"));
    want.push_back({p->first, p->second, c});
  };
  for (int i = 0; i < n; i++) {
    pair<string, string> p;
    if (r.chance(75)) { pr(&p, TK_GLOBAL_CLASS); a.tokens.push_back(p); continue; }
    bool fb = r.chance(20);
    string c = "___" + std::to_string(r.chance(50) ? id : 100000 + id) + (fb ? "_FALLBACK___" : r.chance(50) ? "_MONEY___" : "_SYN_1-2___");
    id++;
    a.tokens.push_back({c, "<del>"});
    wer_alignment s;
    s.classLabel = c;
    int m = fb || r.chance(10) ? r.below(2) : r.range(1, 4);
    if (m == 0 && fb) want.push_back({NOOP, NOOP, c});
    while (m--) { pr(&p, c); s.tokens.push_back(p); }
    a.label_alignments.push_back(s);
  }
  if (r.chance(70)) std::reverse(a.label_alignments.begin(), a.label_alignments.end());   // as the walker leaves them
  return a;
}
static void traverse(h::Rng& r) {
  vector<T3> want;
  wer_alignment a = build(r, want);
  h::start(show(want), want.size() > 2);
  AlignmentTraversor t(a);
  for (int round = 0; round < 2; round++) {
    triple x;
    vector<T3> got;
    int stop = round == 0 && r.chance(40) ? r.below(want.size() + 1) : -1;
    while ((int)got.size() != stop && t.NextTriple(x)) { got.push_back({x.ref, x.hyp, x.classLabel}); h::check(got.size() <= want.size(), "more pairs than the alignment has: " + show(got)); }
    if (stop < 0) { h::check(got.size() == want.size(), "pairs read: " + show(got)); }
    for (size_t i = 0; i < got.size(); i++) h::check(got[i].ref == want[i].ref && got[i].hyp == want[i].hyp && got[i].cls == want[i].cls, "pairs read: " + show(got));
    t.Restart();
  }
}
static void stitches(h::Rng& r) {
  vector<T3> want;
  wer_alignment a = build(r, want);
  int kind = r.below(4);
  vector<RawCtmRecord> ctm; vector<RawNlpRecord> nlp; vector<string> one;
  bool uc = r.chance(40);
  float t = 0;
  for (auto& w : want) if (w.hyp != DEL && w.ref != NOOP) {
    string o = w.hyp;
    if (!uc && r.chance(30)) for (auto& c : o) if (c >= 'a' && c <= 'z') c -= 32;
    if (kind == 1) { ctm.push_back({"r", "1", t, r.below(8) / 8.0f, o, r.below(5) / 4.0f}); t += 1.5f; }
    if (kind == 2) { RawNlpRecord x; x.token = o; if (r.chance(70)) x.ts = std::to_string((int)t) + ".25"; if (r.chance(70)) x.endTs = std::to_string((int)t + 1) + ".5"; nlp.push_back(x); t += 2; }
    if (kind == 3) one.push_back(o);
  }
  h::start("kind " + std::to_string(kind) + " " + show(want), want.size() > 2);
  auto st = make_stitches(a, ctm, nlp, one, uc);
  h::eq((int)st.size(), (int)want.size(), "number of stitches");
  size_t p = 0;
  for (size_t i = 0; i < want.size(); i++) {
    auto& w = want[i]; auto& s = st[i];
    string at = "stitch " + std::to_string(i) + " (" + w.ref + "/" + w.hyp + ")";
    h::eq(s.reftk, w.ref, at + " ref"); h::eq(s.hyptk, w.hyp, at + " hyp"); h::eq(s.classLabel, w.cls, at + " class");
    string c = w.ref == INS ? "ins" : w.hyp == DEL ? "del" : w.ref != w.hyp ? "sub(" + w.hyp + ")" : "";
    h::eq(s.comment, c, at + " comment");
    h::check(s.nlpRow.token.empty() && s.nlpRow.speakerId.empty(), at + " has an NLP row");
    if (w.hyp == DEL || w.ref == NOOP || kind == 0) { h::check(s.hyp_orig.empty(), at + " took the hypothesis row of " + s.hyp_orig); continue; }
    if (kind == 1) { auto& x = ctm[p]; h::eq(s.hyp_orig, x.word, at + " hypothesis word"); h::eq(s.start_ts, x.start_time_secs, at + " start"); h::eq(s.duration, x.duration_secs, at + " duration"); h::eq(s.end_ts, x.start_time_secs + x.duration_secs, at + " end"); h::eq(s.confidence, x.confidence, at + " confidence"); }
    if (kind == 2) {
      auto& x = nlp[p];
      h::eq(s.hyp_orig, x.token, at + " hypothesis word");
      if (!x.ts.empty() || !x.endTs.empty()) {
        float b = std::stof(x.ts.empty() ? x.endTs : x.ts), e = std::stof(x.endTs.empty() ? x.ts : x.endTs);
        h::eq(s.start_ts, b, at + " start"); h::eq(s.end_ts, e, at + " end"); h::eq(s.duration, e - b, at + " duration");
      }
    }
    if (kind == 3) h::eq(s.hyp_orig, one[p], at + " hypothesis word");
    p++;
  }
}
// ---------------------------------------------------------------- NLP rows
static string show(const RawNlpRecord& x) {
  string t; for (auto& e : x.wer_tags) t += e.tag_id + ",";
  return "{" + x.token + " spk=" + x.speakerId + " p=" + x.punctuation + " pp=" + x.prepunctuation + " case=" + x.casing + " ts=" + x.ts + " e=" + x.endTs + " lab=" + x.best_label + "/" + x.best_label_id + "/" + x.labels + " tags=" + t + " conf=" + x.confidence + "}";
}
static bool eqrow(const RawNlpRecord& a, const RawNlpRecord& b, bool conf) { auto x = a, y = b; if (!conf) x.confidence = y.confidence = ""; return show(x) == show(y); }
static RawNlpRecord row(h::Rng& r, int k) {
  RawNlpRecord x;
  x.token = "t" + std::to_string(k); x.speakerId = std::to_string(r.below(3)); x.punctuation = r.chance(50) ? "" : std::to_string(k) + "."; x.prepunctuation = r.chance(70) ? "" : "("; x.casing = vector<string>{"LC", "UC", "CA"}[r.below(3)];
  x.ts = std::to_string(k) + ".0"; x.endTs = std::to_string(k) + ".5"; x.labels = "[]"; x.confidence = std::to_string(k);
  if (r.chance(40)) x.wer_tags.push_back({std::to_string(r.below(9)), ""});
  return x;
}
struct Exp { RawNlpRecord row; string suffix; bool conf; };
static void attach(h::Rng& r) {
  vector<RawNlpRecord> rows;
  vector<Stitching> st;
  vector<Exp> ex;
  int segs = r.below(r.chance(10) ? 25 : 7), id = 0;
  string d;
  auto ins = [&](const string& c) { Stitching s{}; s.reftk = INS; s.hyptk = "x"; s.comment = "ins"; s.classLabel = c; st.push_back(s); };
  auto st1 = [&](const string& c) { Stitching s{}; s.reftk = "w" + std::to_string(st.size()); s.hyptk = s.reftk; int k = r.below(4); if (k == 0) { s.comment = "del"; s.hyptk = DEL; } if (k == 1) { s.comment = "sub(y)"; s.hyptk = "y"; } s.classLabel = c; st.push_back(s); };
  bool cut = false;
  int prev = -1;
  for (int g = 0; g < segs; g++) {
    while (r.chance(20)) { ins(TK_GLOBAL_CLASS); ex.push_back({RawNlpRecord(), "", true}); d += " +ins"; }
    int k = r.below(3);
    int base = rows.size();
    if (k == 0) {
      rows.push_back(row(r, base)); st1(TK_GLOBAL_CLASS); ex.push_back({rows.back(), "", true}); d += " word";
      continue;
    }
    int n = r.range(1, 4), s = r.range(1, 4);
    string cls;
    if (k == 1) {
      string lab = std::to_string(id++) + ":" + (r.chance(20) ? "FALLBACK" : "MONEY");
      cls = "___" + lab + "___"; for (auto& c : cls) if (c == ':') c = '_';
      for (int i = 0; i < n; i++) { rows.push_back(row(r, base + i)); rows.back().best_label = lab; rows.back().best_label_id = std::to_string(id - 1); rows.back().labels = "['" + lab + "']"; }
    } else {
      cls = "___" + std::to_string(100000 + id++) + "_SYN_" + std::to_string(n) + "-" + std::to_string(s) + "___";
      for (int i = 0; i < n; i++) rows.push_back(row(r, base + i));
    }
    d += " " + cls + ":" + std::to_string(n) + "rows";
    while (r.chance(10)) { ins(cls); ex.push_back({RawNlpRecord(), "", true}); d += "+ins"; }
    int first = st.size();
    bool noop = k == 1 && cls.find("FALLBACK") != string::npos && r.chance(50);
    if (noop) { Stitching q{}; q.reftk = q.hyptk = NOOP; q.classLabel = cls; st.push_back(q); d += "/noop"; }
    else for (int i = 0; i < s; i++) { st1(cls); d += "/w"; while (r.chance(15)) { ins(cls); d += "/ins"; } }
    int m = (int)st.size() - first;
    auto R = [&](int i) { return rows[base + i]; };
    if (n == 1 && m == 1) { ex.push_back({R(0), "", true}); continue; }
    if (n == m) { for (int i = 0; i < m; i++) ex.push_back({R(i), ",direct", true}); continue; }
    if (n == 1) {
      RawNlpRecord q = R(0); q.punctuation = q.prepunctuation = "";
      for (int i = 0; i < m; i++) {
        if (i + 1 < m) { RawNlpRecord z = q; if (i) z.casing = "LC"; ex.push_back({z, ",push_last", false}); }
        else { RawNlpRecord z = R(0); z.casing = "LC"; ex.push_back({z, ",push_last", true}); }
      }
      continue;
    }
    if (m == 1) { RawNlpRecord z = R(0); z.punctuation = R(n - 1).punctuation; ex.push_back({z, ",split_worst", true}); continue; }
    for (int i = 0; i < m; i++) {
      RawNlpRecord z;
      if (i == 0) z = R(0); else if (i + 1 == m) z = R(n - 1);
      else { z.speakerId = R(0).speakerId; z.casing = "LC"; z.labels = R(0).labels; z.wer_tags = R(0).wer_tags; }
      ex.push_back({z, ",split_worst", true});
    }
  }
  while (r.chance(20)) { ins(TK_GLOBAL_CLASS); ex.push_back({RawNlpRecord(), "", true}); d += " +ins"; }
  if (r.chance(8)) {   // more stitches than rows: the rest stays without a row
    for (int i = r.range(1, 3); i > 0; i--) { st1(r.chance(70) ? TK_GLOBAL_CLASS : string("___99_MONEY___")); ex.push_back({RawNlpRecord(), "", true}); d += " extra"; }
  }
  h::start(d, segs > 1);
  vector<RawNlpRecord> none;
  NlpFstLoader ld(none, Json::Value(Json::objectValue), Json::Value(Json::objectValue), true);
  ld.mNlpRows = rows;
  auto was = st;
  align_stitches_to_nlp(ld, st);
  h::eq((int)st.size(), (int)ex.size(), "number of stitches");
  for (size_t i = 0; i < st.size(); i++) {
    string at = "stitch " + std::to_string(i) + " (" + was[i].reftk + "/" + was[i].hyptk + " " + was[i].classLabel + ")";
    if (!eqrow(st[i].nlpRow, ex[i].row, ex[i].conf)) h::fail(at + " got the row " + show(st[i].nlpRow) + ", expected " + show(ex[i].row));
    h::eq(st[i].comment, was[i].comment + ex[i].suffix, at + " comment");
    h::check(st[i].reftk == was[i].reftk && st[i].hyptk == was[i].hyptk && st[i].classLabel == was[i].classLabel, at + " changed");
  }
  h::check(ld.mNlpRows.size() == rows.size(), "the reference rows changed");
}
static void writeout(h::Rng& r) {
  vector<Stitching> st;
  int n = r.below(10);
  bool add = r.chance(50);
  Json::Value norm(Json::objectValue);
  if (r.chance(40)) norm["0"]["candidates"].append("x");
  string d, out = "token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags|oldTs|oldEndTs|ali_comment|confidence\n";
  for (int i = 0; i < n; i++) {
    Stitching s{};
    int k = r.below(7);
    s.reftk = vector<string>{"w", "fin'", "hey"}[r.below(3)]; s.hyptk = s.reftk;
    if (k == 0) { s.reftk = INS; s.hyptk = "hx"; s.comment = "ins"; if (r.chance(40)) s.comment += ",direct"; }
    if (k == 1) { s.hyptk = DEL; s.comment = "del"; }
    if (k == 2) { s.hyptk = "y"; s.comment = "sub(y)"; if (r.chance(30)) s.comment += ",push_last"; }
    if (k == 3) { s.reftk = s.hyptk = NOOP; }
    if (k == 4 && r.chance(50)) { s.hyptk = "instead"; s.comment = "sub(instead)"; }
    s.start_ts = r.chance(15) ? 0 : r.below(100000) / 16.0f; s.end_ts = s.start_ts + r.below(50) / 32.0f; s.duration = s.end_ts - s.start_ts; s.confidence = r.below(3) / 2.0f; s.classLabel = TK_GLOBAL_CLASS;
    auto& x = s.nlpRow;
    string up = s.reftk; for (auto& c : up) c = toupper(c);
    int o = r.below(6);
    if (k == 0 || k == 3) o = r.chance(70) ? 9 : 4;
    x.token = o < 3 ? up : o == 3 ? "other" : o == 4 ? "<laugh>" : o == 5 ? "<foreign:fr>" : "";
    if (k == 0 && r.chance(15)) x.token = "other";
    x.speakerId = std::to_string(r.below(3)); x.punctuation = r.chance(50) ? "" : "?"; x.prepunctuation = r.chance(50) ? "" : "("; x.casing = "UC"; x.labels = r.chance(50) ? "[]" : "['0:X']"; if (x.labels != "[]") { x.best_label = "0:X"; x.best_label_id = "0"; }
    for (int q = r.below(3); q > 0; q--) x.wer_tags.push_back({std::to_string(r.below(50)), "T"});
    x.ts = r.chance(50) ? "" : "1.25"; x.endTs = r.chance(50) ? "" : "2.5"; x.confidence = r.chance(50) ? "" : "0.75";
    st.push_back(s);
    d += " " + s.reftk + "/" + s.hyptk + "/" + x.token + "/" + s.comment;
    bool isins = s.comment.compare(0, 3, "ins") == 0;
    if (isins && !add) continue;
    string tk = s.reftk, com = s.comment, low = x.token;
    for (auto& c : low) if (c >= 'A' && c <= 'Z') c += 32;
    bool code = x.token.size() > 1 && x.token[0] == '<' && x.token.find('>') == x.token.size() - 1;
    if (low == s.reftk) tk = x.token; else if (code) tk = x.token; else if (isins) { tk = ""; com = "ins(" + s.hyptk + ")"; }
    if (tk == NOOP) continue;
    char b[64] = "|";
    if (s.hyptk != DEL) snprintf(b, sizeof b, "%.4f|%.4f", s.start_ts, s.end_ts);
    string tags; for (size_t q = 0; q < x.wer_tags.size(); q++) tags += string(q ? ", " : "") + "'" + x.wer_tags[q].tag_id + "'";
    out += tk + "|" + x.speakerId + "|" + b + "|" + x.punctuation + "|" + x.prepunctuation + "|" + x.casing + "|" + x.labels + "|[" + tags + "]|" + x.ts + "|" + x.endTs + "|" + com + "|" + x.confidence + "\n";
  }
  h::start(string(add ? "add_inserts" : "") + d, n > 1);
  { std::ofstream f("w.nlp"); write_stitches_to_nlp(st, f, norm, add); }
  std::ifstream f("w.nlp"); std::ostringstream o; o << f.rdbuf();
  h::eq(o.str(), out, "aligned output");
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  h::Rng r(h::seed);
  struct { const char* n; void (*f)(h::Rng&); int q; } gs[] = {{"traverse", traverse, 8000}, {"stitch", stitches, 6000}, {"attach", attach, 8000}, {"write", writeout, 3000}};
  for (auto& g : gs) if (h::begin(g.n)) for (int i = 0; i < h::N(g.q, g.q * 12); i++) g.f(r);
  return h::done();
}
