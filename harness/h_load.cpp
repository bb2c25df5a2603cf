// Replay harness for the loaders, readers, label parsing and token classification.
#include "h.h"
#include <cmath>
#include <fstream>
#include "Ctm.h"
#include "FstFileLoader.h"
#include "Nlp.h"
#include "OneBestFstLoader.h"
#include "utilities.h"
using std::string; using std::vector; using std::map; using std::set; using std::pair;
using Sym = fst::SymbolTable; using VF = fst::StdVectorFst;

// ---------------------------------------------------------------- words
static const vector<pair<string, string>> CAP = {{"\xc3\x89", "\xc3\xa9"}, {"\xd0\x96", "\xd0\xb6"}, {"\xc3\x9c", "\xc3\xbc"}, {"\xc3\x91", "\xc3\xb1"}};
static string low(const string& s) {
  string o;
  for (size_t i = 0; i < s.size();) {
    bool f = false;
    for (auto& p : CAP) if (s.compare(i, p.first.size(), p.first) == 0) { o += p.second; i += p.first.size(); f = true; break; }
    if (!f) { char c = s[i++]; o += c >= 'A' && c <= 'Z' ? c + 32 : c; }
  }
  return o;
}
static string word(h::Rng& r) {
  int k = r.below(30);
  if (k == 0) return "<noise>";
  if (k == 1) return "<Foreign:fr>";
  if (k == 2) return "<unk>";
  if (k == 3) return "eat-IN";
  if (k == 4) return "-";
  if (k == 5) return "5$";
  if (k == 6) return "<a>b";
  string o;
  int n = r.range(1, 3);
  while (n--) { int c = r.below(12); o += c < 5 ? string(1, 'a' + c) : c < 9 ? string(1, 'A' + c - 5) : c == 9 ? CAP[r.below(4)].first : c == 10 ? CAP[r.below(4)].second : "'"; }
  return o;
}
static Sym table(h::Rng& r, bool opts) {
  Sym s("symbols");
  if (opts) { FstAlignOption o; o.RegisterSymbols(s); }
  int n = r.below(4);
  while (n--) s.AddSymbol(low(word(r)));
  return s;
}
static string dump(const VF& f, const Sym& s) {
  std::ostringstream o;
  for (int i = 0; i < f.NumStates(); i++) {
    for (fst::ArcIterator<VF> a(f, i); !a.Done(); a.Next()) o << i << "->" << a.Value().nextstate << ":" << s.Find(a.Value().ilabel) << "/" << a.Value().weight.Value() << " ";
    if (f.Final(i) != fst::TropicalWeight::Zero()) o << i << " final ";
  }
  return o.str();
}
struct Step { int label; float w; bool operator<(const Step& b) const { return label < b.label || (label == b.label && w < b.w); } bool operator==(const Step& b) const { return label == b.label && w == b.w; } };
static std::ostream& operator<<(std::ostream& o, const Step& s) { return o << s.label << "/" << s.w; }
// every path from the start to a final state, without its epsilons
static void paths(const VF& f, int st, vector<Step>& cur, vector<vector<Step>>& out, int depth) {
  h::check(depth < 4000 && out.size() < 20000, "the automaton has unbounded paths");
  if (f.Final(st) != fst::TropicalWeight::Zero()) { h::check(f.Final(st).Value() == 0, "final weight is not one"); out.push_back(cur); }
  for (fst::ArcIterator<VF> a(f, st); !a.Done(); a.Next()) {
    auto& x = a.Value();
    h::check(x.ilabel == x.olabel, "an arc does not read what it writes");
    h::check(x.nextstate >= 0 && x.nextstate < f.NumStates(), "an arc leaves the automaton");
    if (x.ilabel != 0) cur.push_back({(int)x.ilabel, x.weight.Value()});
    else h::check(x.weight.Value() == 0, "epsilon with a weight");
    paths(f, x.nextstate, cur, out, depth + 1);
    if (x.ilabel != 0) cur.pop_back();
  }
}
static vector<vector<Step>> paths(const VF& f) {
  vector<vector<Step>> o; vector<Step> c;
  h::check(f.Start() >= 0, "no start state");
  paths(f, f.Start(), c, o, 0);
  std::sort(o.begin(), o.end());
  return o;
}
static string showp(const vector<vector<Step>>& p) { string o; for (auto& x : p) o += h::show(x) + " "; return o; }
static void eqpaths(vector<vector<Step>> got, vector<vector<Step>> want) {
  std::sort(want.begin(), want.end());
  if (!(got == want)) h::fail("the automaton accepts (label/weight) " + showp(got) + ", expected " + showp(want));
}
static void grown(const Sym& was, const Sym& is, const set<string>& added) {
  for (fst::SymbolTableIterator i(was); !i.Done(); i.Next()) h::check(is.Find(i.Value()) == i.Symbol(), "symbol " + i.Symbol() + " was renumbered");
  set<string> now;
  for (fst::SymbolTableIterator i(is); !i.Done(); i.Next()) { h::check(now.insert(i.Symbol()).second, "symbol twice"); h::check(is.Find(i.Symbol()) == i.Value(), "symbol table not invertible"); }
  for (auto& a : added) h::check(now.count(a), "symbol " + h::q(a) + " was not added");
  for (auto& x : now) h::check(added.count(x) || was.Find(x) >= 0, "symbol " + h::q(x) + " was added for no reason");
}
static vector<int> anchors(h::Rng& r, int n) {
  vector<int> m;
  int l = r.chance(40) ? 0 : r.chance(80) ? n : r.below(n + 3);
  for (int i = 0; i < l; i++) m.push_back(r.below(4) - 1);
  return m;
}

// ---------------------------------------------------------------- one-best text and CTM
template <class L> static void linear(h::Rng& r, L& ld, const vector<string>& eff) {
  Sym s = table(r, true), was = s;
  Sym si = table(r, r.chance(50)), wasi = si;
  vector<int> m = anchors(r, eff.size());
  ld.addToSymbolTable(s);
  grown(was, s, set<string>(eff.begin(), eff.end()));
  VF f = ld.convertToFst(s, m);
  vector<Step> want;
  for (size_t i = 0; i < eff.size(); i++) want.push_back({(int)s.Find(eff[i]), i < m.size() && m[i] > 0 ? 1.0f : 0.0f});
  eqpaths(paths(f), {want});
  vector<int> v = ld.convertToIntVector(si), wv;
  grown(wasi, si, set<string>(eff.begin(), eff.end()));
  for (auto& w : eff) wv.push_back(si.Find(w));
  h::eq(v, wv, "int vector");
  h::eq(ld.convertToIntVector(si), wv, "int vector, second call");
}
static void onebest(h::Rng& r) {
  int n = r.below(r.chance(10) ? 60 : 9);
  vector<string> ws;
  string text = r.chance(20) ? " \n" : "";
  static const vector<string> sp = {" ", "\n", "\t", "  ", " \n ", "\r\n"};
  for (int i = 0; i < n; i++) { ws.push_back(word(r)); text += ws.back(); if (i + 1 < n || r.chance(60)) text += r.pick(sp); }
  bool uc = r.chance(40), file = r.chance(40);
  h::start((uc ? "use_case " : "") + string(file ? "file " : "") + h::q(text), n > 1);
  OneBestFstLoader ld(uc);
  if (file) { { std::ofstream o("onebest.txt"); o << text; } ld.LoadTextFile("onebest.txt"); }
  else ld.BuildFromString(text);
  h::eq(ld.TokensSize(), n, "number of tokens");
  for (int i = 0; i < n; i++) h::eq(ld.getToken(i), ws[i], "token " + std::to_string(i));
  vector<string> eff;
  for (auto& w : ws) eff.push_back(uc ? w : low(w));
  linear(r, ld, eff);
}
static void ctm(h::Rng& r) {
  int n = r.below(r.chance(10) ? 60 : 9);
  vector<RawCtmRecord> rs;
  bool uc = r.chance(40), file = r.chance(60), conf = r.chance(50);
  string text, d;
  for (int i = 0; i < n; i++) {
    RawCtmRecord c;
    c.recording = "rec" + std::to_string(r.below(3)); c.channel = r.chance(50) ? "1" : "A";
    c.start_time_secs = r.below(100000) / 8.0f; c.duration_secs = r.below(100) / 8.0f; c.word = word(r); c.confidence = conf ? r.below(9) / 8.0f : 1;
    std::ostringstream o;
    o.precision(12);
    o << c.recording << " " << c.channel << " " << c.start_time_secs << " " << c.duration_secs << " " << c.word;
    if (conf) o << " " << c.confidence;
    text += o.str() + (r.chance(90) || i + 1 < n ? "\n" : "");
    if (r.chance(5) && i) text += "\n";
    rs.push_back(c);
  }
  h::start((uc ? "use_case " : "") + string(file ? "file " : "") + h::q(text), n > 1);
  vector<RawCtmRecord> in = rs;
  if (file) { { std::ofstream o("x.ctm"); o << text; } in = CtmReader().read_from_disk("x.ctm"); }
  h::eq((int)in.size(), n, "number of CTM rows");
  for (int i = 0; i < n; i++) {
    auto &a = in[i], &b = rs[i];
    h::check(a.recording == b.recording && a.channel == b.channel && a.word == b.word && a.start_time_secs == b.start_time_secs && a.duration_secs == b.duration_secs && a.confidence == b.confidence, "CTM row " + std::to_string(i) + " read as " + a.recording + " " + a.channel + " " + h::show(a.start_time_secs) + " " + h::show(a.duration_secs) + " " + a.word + " " + h::show(a.confidence));
  }
  CtmFstLoader ld(in, uc);
  h::eq((int)ld.mCtmRows.size(), n, "rows kept");
  vector<string> eff;
  for (int i = 0; i < n; i++) { h::eq(ld.mCtmRows[i].word, rs[i].word, "row word"); eff.push_back(uc ? rs[i].word : low(rs[i].word)); h::eq(ld.getToken(i), eff.back(), "token"); }
  linear(r, ld, eff);
}
// ---------------------------------------------------------------- NLP
static string cls(const string& l) { string o = "___" + l + "___"; for (auto& c : o) if (c == ':') c = '_'; return o; }
static void nlp(h::Rng& r) {
  int n = r.below(r.chance(6) ? 40 : 8), id = 0;
  bool labels = r.chance(75), punct = r.chance(35), uc = r.chance(35);
  vector<RawNlpRecord> rs;
  string cur, d;
  int left = 0, plab = r.below(60);
  for (int i = 0; i < n; i++) {
    RawNlpRecord x;
    x.token = word(r);
    if (!left) { cur = ""; if (r.chance(plab) && id < 4) { cur = std::to_string(id++) + ":" + vector<string>{"CARDINAL", "TIME", "ORG_X"}[r.below(3)]; left = r.range(1, 3); } }
    if (left) left--;
    x.best_label = cur;
    x.best_label_id = cur.empty() ? "" : cur.substr(0, cur.find(':'));
    x.labels = cur.empty() ? "[]" : "['" + cur + "']";
    x.speakerId = std::to_string(r.below(3));
    x.punctuation = r.chance(60) ? "" : vector<string>{".", ",", "?"}[r.below(3)];
    x.casing = "LC"; x.ts = std::to_string(i); x.endTs = std::to_string(i + 1);
    int t = r.chance(60) ? 0 : r.range(1, 3);
    for (int q = 0; q < t; q++) x.wer_tags.push_back({std::to_string(r.below(5)), ""});
    rs.push_back(x);
    d += " " + x.token + (cur.empty() ? "" : "[" + cur + "]") + x.punctuation;
  }
  Json::Value norm, side;
  map<string, vector<vector<string>>> cand;   // label id -> alternatives of the normalisation file
  bool hasnorm = r.chance(70);
  if (labels || r.chance(50)) norm = Json::Value(Json::objectValue);   // the command line always passes an object
  if (hasnorm) {
    norm["zz"]["candidates"] = Json::Value(Json::arrayValue);
    for (int k = 0; k < id; k++) if (r.chance(70)) {
      int q = r.range(0, 2);
      for (int a = 0; a < q; a++) {
        vector<string> ws; int m = r.range(1, 3);
        while (m--) ws.push_back(word(r));
        cand[std::to_string(k)].push_back(ws);
        Json::Value v(Json::arrayValue), c;
        for (auto& w : ws) v.append(w);
        c["verbalization"] = v; c["probability"] = 0.5;
        norm[std::to_string(k)]["candidates"].append(c);
        d += " norm " + std::to_string(k) + "=" + h::show(ws);
      }
    }
  }
  bool hasside = r.chance(50);
  if (r.chance(50)) side = Json::Value(Json::objectValue);
  if (hasside) for (int k = 0; k < 4; k++) if (k != 2) side[std::to_string(k)]["entity_type"] = "T" + std::to_string(k);
  h::start(string(labels ? "labels " : "") + (punct ? "punctuation " : "") + (uc ? "use_case" : "") + d, n > 1);
  vector<RawNlpRecord> in = rs;
  NlpFstLoader ld(in, norm, side, labels, punct, uc);
  // tokens, rows, alternatives
  struct Tok { string t; string spk; string id; };
  vector<Tok> toks;
  vector<RawNlpRecord> rows;
  map<string, vector<string>> fused;
  string last = "";
  for (int i = 0; i < n; i++) {
    auto& x = rs[i];
    rows.push_back(x);
    if (labels && !x.best_label.empty()) {
      if (x.best_label != last) toks.push_back({cls(x.best_label), x.speakerId, x.best_label_id});
      fused[x.best_label_id].push_back(x.token);
    } else toks.push_back({uc ? x.token : low(x.token), x.speakerId, ""});
    if (punct && !x.punctuation.empty()) {
      toks.push_back({x.punctuation, x.speakerId, ""});
      RawNlpRecord p; p.speakerId = x.speakerId; rows.push_back(p);
    }
    last = x.best_label;
  }
  h::eq((int)ld.mNlpRows.size(), (int)rows.size(), "number of rows");
  for (size_t i = 0; i < rows.size(); i++) {
    auto &a = ld.mNlpRows[i], &b = rows[i];
    h::check(a.speakerId == b.speakerId && (a.token == b.token || b.token.empty()) && a.best_label == b.best_label && a.best_label_id == b.best_label_id && a.labels == b.labels && a.punctuation == b.punctuation && a.casing == b.casing && a.ts == b.ts && a.endTs == b.endTs && a.wer_tags.size() == b.wer_tags.size(), "row " + std::to_string(i) + " differs");
    for (size_t q = 0; q < b.wer_tags.size(); q++) {
      h::eq(a.wer_tags[q].tag_id, b.wer_tags[q].tag_id, "wer tag");
      h::eq(a.wer_tags[q].entity_type, hasside && side.isMember(b.wer_tags[q].tag_id) ? side[b.wer_tags[q].tag_id]["entity_type"].asString() : string(), "entity type of tag " + b.wer_tags[q].tag_id);
    }
  }
  h::eq((int)ld.mSpeakers.size(), (int)toks.size(), "number of tokens");
  for (size_t i = 0; i < toks.size(); i++) { h::eq(ld.getToken(i), toks[i].t, "token " + std::to_string(i)); h::eq(ld.mSpeakers[i], toks[i].spk, "speaker of token " + std::to_string(i)); }
  map<string, vector<vector<string>>> alt = cand;
  for (auto& f : fused) alt[f.first].push_back(f.second);
  auto eff = [&](const string& w) { return uc ? w : low(w); };
  set<string> want;
  for (auto& t : toks) {
    if (!t.id.empty()) { want.insert(t.t); for (auto& a : alt[t.id]) for (auto& w : a) want.insert(eff(w)); }
    else if (t.t.size() > 1 && t.t[0] == '<' && t.t.find('>') == t.t.size() - 1 && t.t.find(':') != string::npos) want.insert(t.t.substr(0, t.t.find(':')) + ">");
    else want.insert(t.t);
  }
  Sym s = table(r, true), was = s;
  vector<int> m = anchors(r, toks.size());
  ld.addToSymbolTable(s);
  grown(was, s, want);
  auto id_of = [&](const Sym& s, const string& w) { int k = s.Find(w); return k == -1 ? (int)s.Find("<unk>") : k; };
  vector<vector<Step>> ps = {{}};
  for (size_t i = 0; i < toks.size(); i++) {
    auto& t = toks[i];
    float w = i < m.size() && m[i] > 0 ? 1 : 0;
    vector<vector<Step>> nx;
    for (auto& p : ps) {
      auto q = p;
      q.push_back({id_of(s, t.t), w});
      if (t.id.empty()) { nx.push_back(q); continue; }
      for (auto& a : alt[t.id]) {
        auto z = q;
        for (auto& x : a) z.push_back({id_of(s, eff(x)), 0});
        z.push_back({id_of(s, t.t), 0});
        nx.push_back(z);
      }
    }
    ps = nx;
    if (ps.size() > 3000) return;
  }
  eqpaths(paths(ld.convertToFst(s, m)), ps);
  Sym si = table(r, r.chance(50)), wasi = si;
  vector<int> v = ld.convertToIntVector(si), wv;
  grown(wasi, si, want);
  for (auto& t : toks) wv.push_back(id_of(si, t.t));
  h::eq(v, wv, "int vector");
}
static void nlpfile(h::Rng& r) {
  vector<string> cols = {"token", "speaker", "ts", "endTs", "punctuation", "prepunctuation", "case", "tags", "wer_tags", "oldTs", "oldEndTs", "ali_comment", "confidence"};
  if (r.chance(50)) { vector<string> c; for (auto& x : cols) if (!((x == "prepunctuation" || x == "wer_tags" || x == "confidence" || x == "oldTs" || x == "oldEndTs" || x == "ali_comment") && r.chance(50))) c.push_back(x); cols = c; }
  if (r.chance(20)) cols.push_back("extra");
  auto has = [&](const char* c) { return std::find(cols.begin(), cols.end(), c) != cols.end(); };
  int n = r.below(6);
  string text;
  for (size_t i = 0; i < cols.size(); i++) text += (i ? "|" : "") + cols[i];
  text += "\n";
  struct R { map<string, string> f; string best, id; vector<string> tags; };
  vector<R> rs;
  for (int i = 0; i < n; i++) {
    R x;
    x.f["token"] = word(r); x.f["speaker"] = std::to_string(r.below(3)); x.f["ts"] = r.chance(50) ? "" : "1.5"; x.f["endTs"] = r.chance(50) ? "" : "2.25";
    x.f["punctuation"] = r.chance(50) ? "" : "."; x.f["prepunctuation"] = r.chance(80) ? "" : "("; x.f["case"] = vector<string>{"LC", "UC", "CA", "MC"}[r.below(4)];
    x.f["tags"] = "[]";
    if (r.chance(50)) {
      x.id = std::to_string(r.below(120)); x.best = x.id + ":" + vector<string>{"CARDINAL", "T", "FALLBACK"}[r.below(3)];
      x.f["tags"] = "['" + x.best + "'";
      int more = r.chance(30) ? r.range(1, 2) : 0;
      bool sp = r.chance(50);
      while (more--) x.f["tags"] += string(sp ? ", " : ",") + "'" + std::to_string(r.below(30)) + ":MONEY'";
      x.f["tags"] += "]";
    }
    x.f["wer_tags"] = "[";
    int t = r.chance(40) ? 0 : r.range(1, 4);
    bool sp = r.chance(70);
    for (int q = 0; q < t; q++) { x.tags.push_back(std::to_string(r.below(1000))); x.f["wer_tags"] += string(q ? (sp ? ", " : ",") : "") + "'" + x.tags.back() + "'"; }
    x.f["wer_tags"] += "]";
    x.f["oldTs"] = "0.5"; x.f["oldEndTs"] = "0.75"; x.f["ali_comment"] = r.chance(50) ? "sub(x)" : ""; x.f["confidence"] = r.chance(50) ? "0.5" : ""; x.f["extra"] = "e";
    for (size_t c = 0; c < cols.size(); c++) text += (c ? "|" : "") + x.f[cols[c]];
    text += "\n";
    rs.push_back(x);
  }
  h::start(h::q(text), n > 0);
  { std::ofstream o("x.nlp"); o << text; }
  auto got = NlpReader().read_from_disk("x.nlp");
  h::eq((int)got.size(), n, "number of rows");
  for (int i = 0; i < n; i++) {
    auto& g = got[i]; auto& x = rs[i];
    auto f = [&](const string& v, const char* c) { h::eq(v, has(c) ? x.f[c] : string(), string(c) + " of row " + std::to_string(i)); };
    f(g.token, "token"); f(g.speakerId, "speaker"); f(g.ts, "ts"); f(g.endTs, "endTs"); f(g.punctuation, "punctuation"); f(g.casing, "case"); f(g.labels, "tags");
    f(g.prepunctuation, "prepunctuation"); f(g.confidence, "confidence");
    h::eq(g.best_label, x.best, "best label of row " + std::to_string(i));
    h::eq(g.best_label_id, x.id, "label id of row " + std::to_string(i));
    vector<string> t;
    for (auto& e : g.wer_tags) { t.push_back(e.tag_id); h::eq(e.entity_type, string(), "entity type"); }
    h::eq(t, has("wer_tags") ? x.tags : vector<string>(), "wer tags of row " + std::to_string(i));
  }
}
// ---------------------------------------------------------------- FST file
static void fstfile(h::Rng& r) {
  VF f;
  int n = r.range(1, 6);
  for (int i = 0; i < n; i++) f.AddState();
  f.SetStart(r.below(n));
  int m = r.below(12);
  for (int i = 0; i < m; i++) { int l = r.below(5); f.AddArc(r.below(n), fst::StdArc(l, l, r.below(4) / 2.0f, r.below(n))); }
  for (int i = 0; i < n; i++) if (r.chance(40)) f.SetFinal(i, r.below(2));
  Sym s = table(r, true), was = s;
  h::start(dump(f, s), m > 1);
  f.Write("x.fst");
  FstFileLoader ld("x.fst");
  ld.addToSymbolTable(s);
  grown(was, s, {});
  VF g = ld.convertToFst(s, {});
  h::check(fst::Equal(f, g), "read back as " + dump(g, s));
}
// ---------------------------------------------------------------- tokens, labels, text
static bool occurs(const string& s, const string& p) { for (size_t i = 0; i + p.size() <= s.size(); i++) if (s.compare(i, p.size(), p) == 0) return true; return false; }
static void text(h::Rng& r) {
  static const vector<string> bits = {"___", "__", "_", "SYN", "_SYN_", "<", ">", "<ins>", "<del>", "<eps>", "a", "B", " ", "\t", "1", "12", ":", "-", "FALLBACK", "", "\n", "ins", "CARDINAL"};
  string s;
  int n = r.below(6);
  while (n--) s += r.pick(bits);
  h::start(h::q(s), s.size() > 3);
  h::eq(isEntityLabel(s), s.compare(0, 3, "___") == 0, "isEntityLabel");
  h::eq(isSynonymLabel(s), s.compare(0, 3, "___") == 0 && occurs(s, "_SYN_"), "isSynonymLabel");
  h::eq(isValidNgram(s), !occurs(s, "<ins>") && !occurs(s, "<del>") && !occurs(s, "<eps>") && !occurs(s, "___"), "isValidNgram");
  h::eq(IsNoisecodeToken(s), s.size() >= 2 && s[0] == '<' && s.find('>') == s.size() - 1, "IsNoisecodeToken");
  string t = s;
  size_t a = 0, b = t.size();
  auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (a < b && sp(t[a])) a++;
  while (b > a && sp(t[b - 1])) b--;
  h::eq(trim_copy(s), s.substr(a, b - a), "trim_copy");
  string u = s; ltrim(u); h::eq(u, s.substr(a), "ltrim");
  u = s; while (b < s.size() && false) {} rtrim(u);
  { size_t e = s.size(); while (e > 0 && sp(s[e - 1])) e--; h::eq(u, s.substr(0, e), "rtrim"); }
  u = s; trim(u); h::eq(u, s.substr(a, b - a), "trim");
  string w = s;
  for (auto& c : w) if (r.chance(40)) c = isupper(c) ? tolower(c) : toupper(c);
  if (r.chance(30) && !w.empty()) w[r.below(w.size())] = "xB1 "[r.below(4)];
  if (r.chance(15)) w += "a";
  auto lc = [](string x) { for (auto& c : x) if (c >= 'A' && c <= 'Z') c += 32; return x; };
  h::eq(iequals(s, w), lc(s) == lc(w), "iequals with " + h::q(w));
  string e = w.substr(r.below(w.size() + 1));
  h::eq(EndsWithCaseInsensitive(s, e), e.size() <= s.size() && lc(s.substr(s.size() - e.size())) == lc(e), "EndsWithCaseInsensitive with " + h::q(e));
  vector<string> es; int k = r.below(5);
  string j;
  for (int i = 0; i < k; i++) { es.push_back(r.pick(bits)); j += (i ? ", " : "") + es.back(); }
  h::eq(string_join(es, ", "), j, "string_join of " + h::show(es));
  string x;
  int m = r.range(0, 6);
  while (m--) x += word(r);
  h::eq(UnicodeLowercase(x), low(x), "UnicodeLowercase of " + h::q(x));
}
static void labels(h::Rng& r) {
  string id = std::to_string(r.below(1200)), name = vector<string>{"CARDINAL", "TIME", "A_B", "SYN_1-2", "X", "FALLBACK_1"}[r.below(6)];
  string l = id + ":" + name, c = "___" + id + "_" + name + "___";
  h::start(l, true);
  h::eq(GetClassLabel(l), c, "GetClassLabel");
  h::eq(GetClassLabel(""), string(), "GetClassLabel of no label");
  h::eq(GetLabelNameFromClassLabel(c), name, "GetLabelNameFromClassLabel");
  h::eq(getLabelIdFromToken(c), id, "getLabelIdFromToken");
  string w = word(r);
  h::eq(getLabelIdFromToken(w), string(), "getLabelIdFromToken of a word");
  NlpReader rd;
  h::eq(rd.GetLabelId(l), id, "GetLabelId");
  string none = "";
  h::eq(rd.GetLabelId(none), string(), "GetLabelId of no label");
  string t = "['" + l + "'"; int k = r.below(3);
  bool sp = r.chance(50);
  while (k--) t += string(sp ? ", " : ",") + "'" + std::to_string(r.below(99)) + ":" + vector<string>{"MONEY", "O", "PERCENT"}[r.below(3)] + "'";
  t += "]";
  h::eq(rd.GetBestLabel(t), l, "GetBestLabel of " + t);
  string e = "[]";
  h::eq(rd.GetBestLabel(e), string(), "GetBestLabel of []");
  vector<string> ids; int m = r.below(6); string ts = "[";
  for (int i = 0; i < m; i++) { ids.push_back(r.chance(80) ? std::to_string(r.below(2000)) : "id-" + std::to_string(i)); ts += string(i ? (sp ? ", " : ",") : "") + "'" + ids.back() + "'"; }
  ts += "]";
  vector<string> g;
  for (auto& x : rd.GetWerTags(ts)) g.push_back(x.tag_id);
  h::eq(g, ids, "GetWerTags of " + ts);
}

int main(int argc, char** argv) {
  h::init(argc, argv);
  h::Rng r(h::seed);
  struct { const char* n; void (*f)(h::Rng&); int q; } gs[] = {{"load-onebest", onebest, 2500}, {"load-ctm", ctm, 2500}, {"load-nlp", nlp, 4000}, {"load-fst", fstfile, 150},
    {"parse-nlpfile", nlpfile, 2000}, {"parse-labels", labels, 3000}, {"text", text, 30000}};
  for (auto& g : gs) if (h::begin(g.n)) for (int i = 0; i < h::N(g.q, g.q * 12); i++) g.f(r);
  return h::done();
}
