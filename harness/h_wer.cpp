// Replay harness for wer.cpp: every report is recomputed from the stitches / alignments by an independent oracle.
#include "h.h"
#include <cmath>
#include <fstream>
#include <iomanip>
#include "AlignmentTraversor.h"
#include "wer.h"
using std::string; using std::vector; using std::map; using std::set; using std::pair;
using J = Json::Value;
static J& root() { return jsonLogger::JsonLogger::getLogger().root; }
static string js(const J& j) { Json::StreamWriterBuilder b; b["indentation"] = ""; b["useSpecialFloats"] = true; return Json::writeString(b, j); }

// numbers up to float rounding, NaN of either sign, "meta" objects not compared
static bool same(const J& a, const J& b, string& where) {
  if (a.isNumeric() && b.isNumeric()) {
    double x = a.asDouble(), y = b.asDouble();
    if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
    if (std::isinf(x) || std::isinf(y)) return x == y;
    return std::fabs(x - y) <= 1e-5 * std::max(1.0, std::fabs(y));
  }
  if (a.type() != b.type()) { where += " (type)"; return false; }
  if (a.isObject()) {
    set<string> ks;
    for (auto& k : a.getMemberNames()) ks.insert(k);
    for (auto& k : b.getMemberNames()) ks.insert(k);
    for (auto& k : ks) {
      if (k == "meta") continue;
      string w = where + "." + k;
      if (!a.isMember(k)) { where = w + " missing"; return false; }
      if (!b.isMember(k)) { where = w + " not expected"; return false; }
      if (!same(a[k], b[k], w)) { where = w; return false; }
    }
    return true;
  }
  if (a.isArray()) {
    if (a.size() != b.size()) { where += " (length)"; return false; }
    for (Json::ArrayIndex i = 0; i < a.size(); i++) { string w = where + "[" + std::to_string(i) + "]"; if (!same(a[i], b[i], w)) { where = w; return false; } }
    return true;
  }
  return a == b;
}
static void jeq(const J& got, const J& want) {
  string w = "root";
  if (!same(got, want, w)) h::fail("report differs at " + w + ": the code gives " + js(got) + ", expected " + js(want));
}
struct C4 { long i = 0, d = 0, s = 0, n = 0; };
static J rec(const C4& c) {
  J j;
  j["insertions"] = (int)c.i; j["deletions"] = (int)c.d; j["substitutions"] = (int)c.s; j["numWordsInReference"] = (int)c.n;
  j["numErrors"] = (int)(c.i + c.d + c.s);
  j["wer"] = c.n > 0 ? (double)((float)(c.i + c.d + c.s) / (float)c.n) : std::nan("");
  return j;
}
static bool kind(const Stitching& s, const char* k) { return s.comment.compare(0, 3, k) == 0; }

static string show1(const Stitching& s) {
  string o = "{" + s.reftk + "/" + s.hyptk + " '" + s.comment + "'";
  if (!s.nlpRow.speakerId.empty()) o += " spk=" + s.nlpRow.speakerId;
  if (!s.nlpRow.punctuation.empty()) o += " punct=" + s.nlpRow.punctuation;
  for (auto& t : s.nlpRow.wer_tags) o += " tag=" + t.tag_id + ":" + t.entity_type;
  if (!s.nlpRow.casing.empty() || !s.nlpRow.token.empty()) o += " tok=" + s.nlpRow.token + "(" + s.nlpRow.casing + ")";
  if (!s.hyp_orig.empty()) o += " hyp_orig=" + s.hyp_orig;
  if (s.classLabel != "global") o += " class=" + s.classLabel;
  return o + "}";
}
static string shows(const vector<Stitching>& v) { string o; for (auto& s : v) o += show1(s); return o; }

static bool kind0(const Stitching& s) { return s.comment == "ins"; }
static vector<Stitching> gen(h::Rng& r, int n) {
  vector<Stitching> v;
  vector<string> spk = {"1", "2", "speaker three", "A"};
  int ns = r.range(1, 4);
  bool nospk = r.chance(8);
  string cur = r.chance(25) ? "" : spk[0];
  int pins = r.range(0, 45), pdel = r.range(0, 25), psub = r.range(0, 25), psw = r.range(1, 40), peos = r.range(0, 35), pmiss = r.chance(30) ? r.range(0, 40) : 0;
  int ptag = r.range(0, 50), pinrow = r.chance(30) ? 50 : 0;   // insertions inside a class carry the row of the class
  vector<string> words = {"the", "cat", "Ab", "sat", "on", "<noise>", "eat-in", "\xc3\x89t\xc3\xa9", "x"};
  vector<string> cas = {"LC", "UC", "CA", "MC", ""};
  auto recase = [&](string w) { for (auto& c : w) if ((unsigned char)c < 128 && r.chance(30)) c = toupper(c); return w; };
  for (int i = 0; i < n; i++) {
    Stitching s;
    s.start_ts = s.end_ts = s.duration = s.confidence = 0;
    s.classLabel = r.chance(15) ? "___" + std::to_string(r.below(4)) + "_CARDINAL___" : "global";
    int k = r.below(100);
    string w = r.pick(words), w2 = r.pick(words);
    bool row = true;
    if (k >= pins && r.chance(psw)) cur = nospk ? "" : spk[r.below(ns)];
    if (k < pins) { s.comment = "ins"; s.reftk = "<ins>"; s.hyptk = w; row = i && r.chance(pinrow) && !kind0(v.back()); if (row) s.comment += r.chance(50) ? ",direct" : ",split_worst"; }
    else if (k < pins + pdel) { s.comment = "del"; s.reftk = w; s.hyptk = "<del>"; }
    else if (k < pins + pdel + psub) { if (w2 == w) w2 += "x"; s.comment = "sub(" + w2 + ")"; s.reftk = w; s.hyptk = w2; }
    else { s.reftk = s.hyptk = w; }
    if (s.hyptk != "<del>") s.hyp_orig = recase(s.hyptk);
    if (row) {
      s.nlpRow.token = recase(w);
      s.nlpRow.speakerId = kind(s, "ins") ? v.back().nlpRow.speakerId : r.chance(pmiss) ? "" : (nospk ? "" : cur);
      s.nlpRow.casing = r.pick(cas);
      if (r.chance(peos)) s.nlpRow.punctuation = vector<string>{".", "?", "!"}[r.below(3)];
      else if (r.chance(20)) s.nlpRow.punctuation = vector<string>{",", ";", "..", ":", ".,"}[r.below(5)];
      if (r.chance(ptag)) {
        int m = r.range(1, 3);
        for (int q = 0; q < m; q++) s.nlpRow.wer_tags.push_back({std::to_string(q * 2 + r.below(2)), r.chance(50) ? "SYN" : "NUM"});
      }
      if (r.chance(15) && !kind(s, "ins")) s.comment += vector<string>{",direct", ",push_last", ",split_worst"}[r.below(3)];
    }
    v.push_back(s);
  }
  return v;
}
static J base(h::Rng& r) {  // something is already in the log
  J j;
  if (r.chance(50)) { j["before"] = 3; j["wer"]["earlier"]["x"] = "y"; }
  return j;
}

// ------------------------------------------------------------- best WER and class WER
static string clsname(const string& l) { string in = l.substr(3, l.size() - 6); return in.substr(in.find('_') + 1); }
static void wer(h::Rng& r) {
  wer_alignment a;
  bool big = r.chance(10);
  auto fill = [&](wer_alignment& x, int m) {
    x.insertions = r.below(m); x.deletions = r.below(m); x.substitutions = r.below(m);
    x.numWordsInReference = r.chance(12) ? 0 : x.deletions + x.substitutions + r.below(m);
    x.numWordsInHypothesis = x.insertions + x.substitutions + r.below(m);
    if (r.chance(15)) x.numWordsInHypothesis = 0;
  };
  fill(a, big ? 3000000 : 12);
  a.precision = r.below(1000) / 999.0f; a.recall = r.below(1000) / 777.0f;
  vector<string> cls = {"CARDINAL", "ORDINAL", "SYN_1-2", "TIME", "A_B", "4X", "2_D", "_L", "x 1"};
  int n = r.below(7);
  string d = "ins=" + std::to_string(a.insertions) + " del=" + std::to_string(a.deletions) + " sub=" + std::to_string(a.substitutions) + " ref=" + std::to_string(a.numWordsInReference) + " hyp=" + std::to_string(a.numWordsInHypothesis);
  map<string, C4> want;
  for (int i = 0; i < n; i++) {
    wer_alignment x;
    fill(x, big ? 100000 : 5);
    x.precision = x.recall = 0;
    x.classLabel = "___" + std::to_string(r.below(300)) + "_" + r.pick(cls) + "___";
    auto& c = want[clsname(x.classLabel)];
    c.i += x.insertions; c.d += x.deletions; c.s += x.substitutions; c.n += x.numWordsInReference;
    d += " [" + x.classLabel + " " + std::to_string(x.insertions) + " " + std::to_string(x.deletions) + " " + std::to_string(x.substitutions) + " " + std::to_string(x.numWordsInReference) + "]";
    a.label_alignments.push_back(x);
  }
  h::start(d, n > 1);
  J w = base(r);
  root() = w;
  RecordWer(a);
  J& b = w["wer"]["bestWER"];
  long e = (long)a.insertions + a.deletions + a.substitutions;
  b["insertions"] = a.insertions; b["deletions"] = a.deletions; b["substitutions"] = a.substitutions; b["numErrors"] = (int)e;
  b["numWordsInReference"] = a.numWordsInReference; b["precision"] = a.precision; b["recall"] = a.recall;
  b["wer"] = a.numWordsInReference > 0 ? (double)((float)e / (float)a.numWordsInReference) : a.numWordsInHypothesis > 0 ? INFINITY : 0.0;
  w["wer"]["classWER"] = J(Json::objectValue);
  for (auto& c : want) w["wer"]["classWER"][c.first] = rec(c.second);
  jeq(root(), w);
}

// ------------------------------------------------------------- sentences
static void sent(h::Rng& r, const vector<Stitching>& v) {
  h::start(shows(v), v.size() > 3);
  J w = base(r);
  root() = w;
  RecordSentenceWer(v);
  vector<C4> out;
  C4 c;
  for (auto& s : v) {
    if (kind(s, "ins")) c.i++;
    else { c.n++; if (kind(s, "del")) c.d++; else if (kind(s, "sub")) c.s++; }
    const string& p = s.nlpRow.punctuation;
    if (p == "." || p == "?" || p == "!") { out.push_back(c); c = C4(); }
  }
  if (c.n) out.push_back(c);
  for (size_t i = 0; i < out.size(); i++) w["wer"]["sentenceWer"][(int)i] = rec(out[i]);
  jeq(root(), w);
}
// ------------------------------------------------------------- speakers
static void speaker(h::Rng& r, const vector<Stitching>& v) {
  h::start(shows(v), v.size() > 3);
  J w = base(r);
  root() = w;
  RecordSpeakerWer(v);
  // who is talking at row i: the latest row up to i that names a speaker; rows before the first one belong to it
  string first;
  for (auto& s : v) if (!s.nlpRow.speakerId.empty()) { first = s.nlpRow.speakerId; break; }
  string cur = first;
  map<string, C4> m;
  m[first];
  for (auto& s : v) {
    if (!s.nlpRow.speakerId.empty()) { cur = s.nlpRow.speakerId; m[cur].n += !kind(s, "ins"); }
    if (kind(s, "ins")) m[cur].i++;
    if (kind(s, "del")) m[cur].d++;
    if (kind(s, "sub")) m[cur].s++;
  }
  for (auto& x : m) w["wer"]["speakerWER"][x.first] = rec(x.second);
  jeq(root(), w);
}
// ------------------------------------------------------------- tags
static void tags(h::Rng& r, const vector<Stitching>& v) {
  h::start(shows(v), v.size() > 3);
  J w = base(r);
  root() = w;
  RecordTagWer(v);
  set<string> ids;
  for (auto& s : v) for (auto& t : s.nlpRow.wer_tags) ids.insert(t.tag_id);
  for (auto& id : ids) {
    C4 c;
    for (auto& s : v) for (auto& t : s.nlpRow.wer_tags) if (t.tag_id == id) {
      if (kind(s, "ins")) c.i++; else { c.n++; if (kind(s, "del")) c.d++; if (kind(s, "sub")) c.s++; }
    }
    w["wer"]["wer_tag"][id] = rec(c);
  }
  jeq(root(), w);
}
// ------------------------------------------------------------- speaker switches
static void sw(h::Rng& r, const vector<Stitching>& v, int ctx) {
  h::start("context " + std::to_string(ctx) + " " + shows(v), v.size() > 3);
  J w = base(r);
  root() = w;
  vector<int> at;   // reference rows at which a new speaker takes over
  string cur; int row = 0;
  for (auto& s : v) {
    const string& p = s.nlpRow.speakerId;
    if (!p.empty()) { if (!cur.empty() && p != cur) at.push_back(row); cur = p; }
    if (!kind(s, "ins")) row++;
  }
  h::eq(GetSpeakerSwitchIndices(v), at, "speaker switch rows");
  RecordSpeakerSwitchWer(v, ctx);
  C4 c; row = 0;
  for (auto& s : v) {
    bool in = false, inside = false;   // a reference word in a window; an insertion strictly inside one
    for (int k : at) { in |= row >= k - ctx && row < k + ctx; inside |= row > k - ctx && row < k + ctx; }
    if (kind(s, "ins")) c.i += inside;
    else { if (in) { c.n++; c.d += kind(s, "del"); c.s += kind(s, "sub"); } row++; }
  }
  w["wer"]["speakerSwitchWER"] = rec(c);
  J got = root();
  h::check(got["wer"]["speakerSwitchWER"]["meta"]["windowSize"] == ctx, "windowSize");
  jeq(got, w);
}
// ------------------------------------------------------------- case
static void cases(h::Rng& r, const vector<Stitching>& v) {
  h::start(shows(v), v.size() > 3);
  J w = base(r);
  root() = w;
  RecordCaseWer(v);
  long t[2] = {0, 0}, fp[2] = {0, 0}, fn[2] = {0, 0};
  auto up = [](const string& s) { int n = 0; for (unsigned char c : s) n += c >= 'A' && c <= 'Z'; return n; };
  for (auto& s : v) {
    if (s.hyptk == "<del>" || s.reftk == "<ins>") continue;
    int sub = s.reftk != s.hyptk, hu = up(s.hyp_orig), ru = up(s.nlpRow.token);
    if (s.nlpRow.casing == "LC") fp[sub] += hu > 0;
    else { t[sub] += hu == ru; fp[sub] += hu > ru; fn[sub] += hu < ru; }
  }
  for (int all = 0; all < 2; all++) {
    long T = t[0] + all * t[1], P = fp[0] + all * fp[1], Nn = fn[0] + all * fn[1];
    J& j = w["wer"]["caseWER"][all ? "all" : "matching"];
    j["true_positive"] = (int)T; j["false_positive"] = (int)P; j["false_negative"] = (int)Nn;
    j["precision"] = (double)((float)T / (float)(T + P)); j["recall"] = (double)((float)T / (float)(T + Nn));
  }
  jeq(root(), w);
}
// ------------------------------------------------------------- unigrams and bigrams
struct G { long c = 0, d = 0, fp = 0, fn = 0, i = 0; };
static bool plain(const string& t) { return t.find("<ins>") == string::npos && t.find("<del>") == string::npos && t.find("<eps>") == string::npos && t.find("___") == string::npos; }
static float prec(const G& g) { return g.c + g.i + g.fp ? (float)g.c / (float)(g.c + g.i + g.fp) * 100 : 0; }
static float recl(const G& g) { return g.c + g.d + g.fn ? (float)g.c / (float)(g.c + g.d + g.fn) * 100 : 0; }
static void cmpgrams(const vector<pair<string, gram_error_counter>>& got, const map<string, G>& want, int thr, const char* what) {
  set<string> seen;
  for (size_t k = 0; k < got.size(); k++) {
    const string& w = got[k].first; auto& g = got[k].second;
    h::check(seen.insert(w).second, string(what) + " \"" + w + "\" listed twice");
    auto it = want.find(w);
    h::check(it != want.end(), string(what) + " \"" + w + "\" does not occur");
    const G& e = it->second;
    if (g.correct != e.c || g.del != e.d || g.subst_fp != e.fp || g.subst_fn != e.fn || g.ins != e.i)
      h::fail(string(what) + " \"" + w + "\": counts (correct del sub_fp sub_fn ins) " + h::show(vector<long>{g.correct, g.del, g.subst_fp, g.subst_fn, g.ins}) + " expected " + h::show(vector<long>{e.c, e.d, e.fp, e.fn, e.i}));
    h::check(std::fabs(g.precision - prec(e)) < 1e-3 && std::fabs(g.recall - recl(e)) < 1e-3, string(what) + " \"" + w + "\": precision/recall " + h::show(g.precision) + "/" + h::show(g.recall) + " expected " + h::show(prec(e)) + "/" + h::show(recl(e)));
    h::check(e.c + e.d + e.fp + e.fn + e.i >= thr, string(what) + " \"" + w + "\" is below the threshold");
    if (k) {
      auto& l = got[k - 1];
      bool ok = l.second.precision < g.precision || (l.second.precision == g.precision && (l.second.recall < g.recall || (l.second.recall == g.recall && l.first < w)));
      h::check(ok, string(what) + " not in ascending order of precision, recall, word at \"" + w + "\"");
    }
  }
  for (auto& e : want) if (e.second.c + e.second.d + e.second.fp + e.second.fn + e.second.i >= thr) h::check(seen.count(e.first), string(what) + " \"" + e.first + "\" is missing");
}
static void grams(h::Rng& r) {
  wer_alignment a; a.precision = a.recall = 0;
  vector<string> ws = {"a", "b", "c", "dd", "e<del", "<unk>", "f"};
  int nw = r.range(1, 7);
  int n = r.range(1, r.chance(20) ? 60 : 12), cls = 0;
  string d;
  vector<pair<string, string>> flat;
  auto tok = [&](wer_alignment* in) {
    string x = ws[r.below(nw)], y = ws[r.below(nw)];
    int k = r.below(100);
    pair<string, string> p;
    auto each = [&](auto f) { f(a); if (in) f(*in); };
    if (k < 20) { p = {"<ins>", y}; each([&](wer_alignment& t) { t.insertions++; t.numWordsInHypothesis++; t.ins_words.push_back(y); t.hyp_words.push_back(y); t.ref_words.push_back("<ins>"); }); }
    else if (k < 40) { p = {x, "<del>"}; each([&](wer_alignment& t) { t.deletions++; t.numWordsInReference++; t.del_words.push_back(x); t.ref_words.push_back(x); t.hyp_words.push_back("<del>"); }); }
    else if (k < 60 && x != y) { p = {x, y}; each([&](wer_alignment& t) { t.substitutions++; t.numWordsInReference++; t.numWordsInHypothesis++; t.sub_words.push_back(p); t.ref_words.push_back(x); t.hyp_words.push_back(y); }); }
    else { p = {x, x}; each([&](wer_alignment& t) { t.numWordsInReference++; t.numWordsInHypothesis++; t.ref_words.push_back(x); t.hyp_words.push_back(x); }); }
    (in ? *in : a).tokens.push_back(p);
    flat.push_back(p);
    d += (in ? " {" : " ") + p.first + "/" + p.second + (in ? "}" : "");
  };
  int pcls = r.chance(50) ? r.range(5, 30) : 0;
  for (int i = 0; i < n; i++) {
    if (r.chance(pcls)) {
      wer_alignment x; x.precision = x.recall = 0;
      x.classLabel = "___" + std::to_string(cls++) + "_TIME___";
      a.tokens.push_back({x.classLabel, "<del>"});
      d += " " + x.classLabel;
      int m = r.range(0, 3);
      for (int q = 0; q < m; q++) tok(&x);
      a.label_alignments.push_back(x);
    } else tok(nullptr);
  }
  if (flat.empty()) tok(nullptr);
  if (r.chance(50)) std::reverse(a.label_alignments.begin(), a.label_alignments.end());   // as the walker leaves them
  int thr = r.chance(50) ? r.below(4) : 0;
  h::start("threshold " + std::to_string(thr) + " tokens" + d, n > 2);
  // a bug elsewhere: statistics already there are kept
  map<string, G> uni, bi;
  for (auto& p : flat) {
    if (p.first == "<ins>") uni[p.second].i++;
    else if (p.second == "<del>") uni[p.first].d++;
    else if (p.first == p.second) uni[p.first].c++;
    else { uni[p.first].fn++; uni[p.second].fp++; }
  }
  for (size_t k = 0; k + 1 < flat.size(); k++) {
    string R = flat[k].first + " " + flat[k + 1].first, H = flat[k].second + " " + flat[k + 1].second;
    bool pr = plain(R), ph = plain(H);
    if (pr) bi[R];
    if (ph) bi[H];
    if (R == H && pr) bi[R].c++;
    if (R != H && pr && ph) { bi[R].fn++; bi[H].fp++; }
    if (H.find("<del>") != string::npos && pr) bi[R].d++;
    if (R.find("<ins>") != string::npos && ph) bi[H].i++;
  }
  long ins = a.insertions, del = a.deletions, sub = a.substitutions, ref = a.numWordsInReference;
  CalculatePrecisionRecall(a, thr);
  float cor = ref - del - sub;
  float P = cor / (cor + ins + sub), R = cor / (cor + sub + del);
  auto feq = [](float x, float y) { return (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) < 1e-5; };
  h::check(feq(a.precision, P), "precision " + h::show(a.precision) + " expected " + h::show(P));
  h::check(feq(a.recall, R), "recall " + h::show(a.recall) + " expected " + h::show(R));
  cmpgrams(a.unigram_stats, uni, thr, "unigram");
  cmpgrams(a.bigrams_stats, bi, thr, "bigram");
  J w = base(r);
  root() = w;
  JsonLogUnigramBigramStats(a);
  for (int b = 0; b < 2; b++)
    for (auto& x : b ? a.bigrams_stats : a.unigram_stats) {
      J& j = w["wer"][b ? "bigrams" : "unigrams"][x.first];
      j["correct"] = x.second.correct; j["insertions"] = x.second.ins; j["deletions"] = x.second.del;
      j["substitutions_fp"] = x.second.subst_fp; j["substitutions_fn"] = x.second.subst_fn;
      j["precision"] = x.second.precision; j["recall"] = x.second.recall;
    }
  jeq(root(), w);
}
// ------------------------------------------------------------- side-by-side file
static string pad(const string& s, bool right) {
  size_t w = 0;
  for (unsigned char c : s) w += (c & 0xC0) != 0x80;
  string f(w < 20 ? 20 - w : 0, ' ');
  return right ? f + s : s + f;
}
static void sbs(h::Rng& r, vector<Stitching> v) {
  for (auto& s : v) if (r.chance(3)) s.reftk = s.hyptk = "!!noop-token!!";
  if (r.chance(10)) for (auto& s : v) if (r.chance(10)) s.hyptk = "a word of more than twenty letters";
  h::start(shows(v), v.size() > 3);
  vector<string> want;
  want.push_back(pad("ref_token", true) + "\t" + pad("hyp_token", false) + "\tIsErr\tClass\tWer_Tag_Entities");
  vector<string> groups;
  bool open = false; size_t first = 0; string R, H;
  auto flush = [&] { if (open) groups.push_back(pad(std::to_string(first), true) + "\t" + (R.empty() ? "*** " : R) + "<->" + (H.empty() ? " ***" : H)); open = false; R = H = ""; };
  auto word = [](const string& t) { return !t.empty() && t != "<ins>" && t != "<del>" && t != "<sub>"; };
  for (auto& s : v) {
    if (s.reftk == "!!noop-token!!") continue;
    bool err = s.reftk != s.hyptk;
    string tg;
    for (auto& t : s.nlpRow.wer_tags) tg += "###" + t.tag_id + "_" + t.entity_type + "###|";
    want.push_back(pad(s.reftk, true) + "\t" + pad(s.hyptk, false) + "\t" + (err ? "ERR" : "") + "\t" + (s.classLabel == "global" ? "" : s.classLabel) + "\t" + tg);
    if (err) {
      if (!open) { open = true; first = want.size(); }
      if (word(s.reftk)) R += s.reftk + " ";
      if (word(s.hyptk)) H += " " + s.hyptk;
    } else flush();
  }
  flush();
  want.push_back(string(60, '-'));
  want.push_back(pad("Line", true) + "\t" + pad("Group", false));
  for (auto& g : groups) want.push_back(g);
  wer_alignment a; a.precision = a.recall = 0;
  string f = "sbs_out.txt";
  { std::ofstream junk(f); junk << "left over\n"; }
  WriteSbs(a, v, f);
  std::ifstream in(f);
  vector<string> got; string l;
  while (std::getline(in, l)) got.push_back(l);
  for (size_t i = 0; i < std::max(got.size(), want.size()); i++) {
    string g = i < got.size() ? got[i] : "(no line)", w = i < want.size() ? want[i] : "(no line)";
    if (g != w) h::fail("line " + std::to_string(i + 1) + " of the side-by-side file is " + h::q(g) + ", expected " + h::q(w));
  }
}

int main(int argc, char** argv) {
  h::init(argc, argv);
  h::Rng r(h::seed);
  using F = std::function<void(h::Rng&, const vector<Stitching>&)>;
  vector<pair<string, F>> fs = {{"sent", sent}, {"speaker", speaker}, {"tag", tags}, {"case", cases}, {"sbs", sbs},
    {"switch", [](h::Rng& r, const vector<Stitching>& v) { sw(r, v, r.chance(10) ? 0 : r.range(1, r.chance(20) ? 12 : 5)); }}};
  if (h::begin("wer")) for (int i = 0; i < h::N(3000, 30000); i++) wer(r);
  if (h::begin("grams")) for (int i = 0; i < h::N(3000, 30000); i++) grams(r);
  for (auto& f : fs)
    if (h::begin(f.first)) {
      f.second(r, {});
      for (int i = 0; i < h::N(4000, 40000); i++) f.second(r, gen(r, i % 40 == 0 ? r.range(30, 120) : r.range(1, 16)));
    }
  return h::done();
}
