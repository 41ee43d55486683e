// C01, C02: template parsing against the grammar.
#include "grpc_transcoding/http_template.h"
#include "model.h"

using namespace model;
namespace gt = google::grpc::transcoding;

namespace {

void CheckAccept(Case& c, const string& text) {
  std::unique_ptr<Tmpl> ref = RefParser::Parse(text);
  std::unique_ptr<gt::HttpTemplate> got = gt::HttpTemplate::Parse(text);
  if ((got != nullptr) != (ref != nullptr)) c.fail(pbt::Format("HttpTemplate::Parse(%s) %s, but the grammar %s it", pbt::Show(text).c_str(), got ? "accepted" : "rejected", ref ? "derives" : "does not derive"));
}

string Range(int s, int e) { return pbt::Format("[%d,%d)", s, e); }

// Compares the parsed template with the model's syntax tree.
void CheckStructure(Case& c, const string& text, const Tmpl& t, gt::HttpTemplate* got) {
  if (!got) c.fail(pbt::Format("HttpTemplate::Parse(%s) rejected a valid template", pbt::Show(text).c_str()));
  vector<string> segs;
  for (const Seg& s : t.segs) segs.push_back(s.text());
  if (got->segments() != segs) {
    string o;
    for (auto& s : got->segments()) o += "/" + s;
    c.fail(pbt::Format("segments of %s are %s", pbt::Show(text).c_str(), pbt::Show(o).c_str()));
  }
  if (got->verb() != t.verb) c.fail(pbt::Format("verb of %s is %s, expected %s", pbt::Show(text).c_str(), pbt::Show(got->verb()).c_str(), pbt::Show(t.verb).c_str()));
  auto& vars = got->Variables();
  if (vars.size() != t.vars.size()) c.fail(pbt::Format("%s has %zu variables, expected %zu", pbt::Show(text).c_str(), vars.size(), t.vars.size()));
  const int n = static_cast<int>(segs.size());
  const int ss = t.starstar();
  for (size_t i = 0; i < vars.size(); i++) {
    const auto& v = vars[i];
    const Var& w = t.vars[i];
    if (v.field_path != w.field) c.fail(pbt::Format("variable %zu of %s has field path %s, expected %s", i, pbt::Show(text).c_str(), pbt::Show(JoinField(v.field_path)).c_str(), pbt::Show(JoinField(w.field)).c_str()));
    int s = v.start_segment >= 0 ? v.start_segment : n + 1 + v.start_segment;
    int e = v.end_segment >= 0 ? v.end_segment : n + 1 + v.end_segment;
    if (s != w.start || e != w.end) c.fail(pbt::Format("variable %zu (%s) of %s covers %s of its segments, expected %s", i, pbt::Show(JoinField(w.field)).c_str(), pbt::Show(text).c_str(), Range(s, e).c_str(), Range(w.start, w.end).c_str()));
    // An end (start) that moves with what "**" matches must be relative to the
    // end of the path, one that does not must not be.
    const bool end_moves = ss >= 0 && w.end > ss;
    const bool start_moves = ss >= 0 && w.start > ss;
    if ((v.end_segment < 0) != end_moves || (v.start_segment < 0) != start_moves) c.fail(pbt::Format("variable %zu (%s) of %s has range %s, which is %s where \"**\" is at segment %d", i, pbt::Show(JoinField(w.field)).c_str(), pbt::Show(text).c_str(), Range(v.start_segment, v.end_segment).c_str(), "wrongly (not) relative to the end", ss));
    if (v.has_wildcard_path != t.var_has_starstar(w)) c.fail(pbt::Format("has_wildcard_path of variable %zu (%s) of %s is %d", i, pbt::Show(JoinField(w.field)).c_str(), pbt::Show(text).c_str(), v.has_wildcard_path));
  }
}

// Rebuilds a canonical text from the parsed template alone.
string PrintParsed(gt::HttpTemplate* t) {
  if (t->segments().empty()) return "/";
  string o;
  const int n = static_cast<int>(t->segments().size());
  size_t vi = 0;
  int i = 0;
  while (i < n) {
    o += "/";
    int s = -1, e = -1;
    if (vi < t->Variables().size()) {
      const auto& v = t->Variables()[vi];
      s = v.start_segment >= 0 ? v.start_segment : n + 1 + v.start_segment;
      e = v.end_segment >= 0 ? v.end_segment : n + 1 + v.end_segment;
    }
    if (s == i && e > s && e <= n) {
      o += "{" + JoinField(t->Variables()[vi].field_path) + "=";
      for (int k = s; k < e; k++) o += (k > s ? "/" : "") + t->segments()[k];
      o += "}";
      vi++;
      i = e;
    } else {
      o += t->segments()[i++];
    }
  }
  if (!t->verb().empty()) o += ":" + t->verb();
  return o;
}

// A string near the grammar.
string GenNearTemplate(Case& c) {
  static const vector<string> tok = {"/", "*", "**", "{", "}", "=", ":", ".", "a", "b", "x", "{x}", "{x=*}", "{x=**}", "{a.b=c/*}", "***", "//", "\xff", string("\0", 1), "?", "%2F", " "};
  if (c.weighted({3, 1}) == 1) {
    string s = c.chance(5, 6) ? "/" : "";
    size_t n = c.size(30);
    for (size_t i = 0; i < n; i++) s += c.pick(tok);
    return s;
  }
  TmplGen g;
  g.vars_of_8 = 6;
  string s = Print(GenTmpl(c, g));
  size_t edits = c.below(4);
  for (size_t e = 0; e < edits; e++) {
    size_t i = c.below(s.size() + 1);
    switch (c.below(4)) {
      case 0: s.insert(i, c.pick(tok)); break;
      case 1:
        if (i < s.size()) s.erase(i, 1 + c.below(3));
        break;
      case 2:
        if (i < s.size()) s[i] = c.pick(tok)[0];
        break;
      default: {
        size_t j = c.below(s.size() + 1);
        if (j < i) std::swap(i, j);
        s.insert(i, s.substr(i, j - i));
        break;
      }
    }
  }
  return s;
}

// All strings over the structural alphabet.
constexpr char kAlpha[] = "/*{}=:.a";
template <class F>
void SmallStrings(Case& c, int tail_max, F f) {
  // Case i: the first three characters after the leading byte.
  uint64_t i = c.raw(2 * 512 - 1);
  string head = i < 512 ? "/" : "";
  uint64_t code = i % 512;
  for (int k = 0; k < 3; k++) {
    head += kAlpha[code % 8];
    code /= 8;
  }
  if (i >= 512) tail_max = std::min(tail_max, 2);
  uint64_t n = 0, nt = 0;
  for (int len = 0; len <= tail_max; len++) {
    uint64_t total = 1;
    for (int k = 0; k < len; k++) total *= 8;
    for (uint64_t x = 0; x < total; x++) {
      string s = head;
      uint64_t y = x;
      for (int k = 0; k < len; k++) {
        s += kAlpha[y % 8];
        y /= 8;
      }
      if (f(s)) nt++;
      n++;
    }
  }
  // Shorter strings: prefixes of this head.
  for (size_t l = 0; l < head.size(); l++) {
    if (f(head.substr(0, l))) nt++;
    n++;
  }
  c.note("all strings %s + up to %d characters of %s", pbt::Show(head).c_str(), tail_max, kAlpha);
  c.evaluations(n);
  c.bulk_nontrivial(nt);
}

}  // namespace

PBT_ENUM(C01, small_strings, 1024, 1024) {
  SmallStrings(c, c.thorough ? 6 : 4, [&](const string& s) {
    CheckAccept(c, s);
    return RefParser::Parse(s) != nullptr;
  });
}

PBT(C01, near_grammar, 2000000, 60000000) {
  string s = GenNearTemplate(c);
  c.note("%s", pbt::Show(s).c_str());
  CheckAccept(c, s);
  auto ref = RefParser::Parse(s);
  c.label(ref ? "accepted" : "rejected");
  if (s.size() > 1) c.nontrivial(pbt::HashStr(s));
}

PBT(C01, random_bytes, 500000, 10000000) {
  string s = (c.chance(3, 4) ? "/" : "") + GenBytes(c, c.chance(1, 50) ? 5000 : 24, "");
  // Sprinkle structure.
  size_t n = c.below(4);
  for (size_t i = 0; i < n; i++) s.insert(c.below(s.size() + 1), c.pickc({"/", "{", "}", "*", ":", "=", ".", "**"}));
  c.note("%s", pbt::Show(s).c_str());
  CheckAccept(c, s);
  c.label(RefParser::Parse(s) ? "accepted" : "rejected");
  c.nontrivial(pbt::HashStr(s));
}

PBT(C01, single_byte_positions, 300000, 3000000) {
  // Every byte value at every structural position of a valid template.
  static const vector<string> frames = {"/@", "/a@", "/@a", "/a@b", "/{@}", "/{x@}", "/{@x}", "/{x.@}", "/{x=@}", "/{x=a@}", "/{x=a/@}", "/a:@", "/a:v@", "/*@", "/**@", "/a/@/b", "/{x}@", "/{x=**}@", "/{x=*}/@", "@/a", "/**/@", "/a@:v", "/{x@y=*}"};
  string f = c.pick(frames);
  string b(1, static_cast<char>(c.below(256)));
  if (c.chance(1, 4)) b += static_cast<char>(c.below(256));
  size_t p = f.find('@');
  string s = f.substr(0, p) + b + f.substr(p + 1);
  c.note("%s", pbt::Show(s).c_str());
  CheckAccept(c, s);
  c.label(RefParser::Parse(s) ? "accepted" : "rejected");
  c.nontrivial(pbt::HashStr(s));
}

PBT_ENUM(C02, small_strings, 1024, 1024) {
  SmallStrings(c, c.thorough ? 6 : 4, [&](const string& s) {
    auto ref = RefParser::Parse(s);
    auto got = gt::HttpTemplate::Parse(s);
    if (!ref || !got) return false;  // acceptance is C01's
    CheckStructure(c, s, *ref, got.get());
    return true;
  });
}

PBT(C02, structure, 900000, 40000000) {
  TmplGen g;
  g.vars_of_8 = 7;
  g.verb_of_8 = 3;
  Tmpl t = GenTmpl(c, g);
  string text = Print(t);
  c.note("%s", pbt::Show(text).c_str());
  auto got = gt::HttpTemplate::Parse(text);
  CheckStructure(c, text, t, got.get());
  // Round trip through the canonical form, from the parsed object only.
  string canon = PrintParsed(got.get());
  if (canon != Print(t, true)) c.fail(pbt::Format("parsing %s and printing it gives %s", pbt::Show(text).c_str(), pbt::Show(canon).c_str()));
  auto again = gt::HttpTemplate::Parse(canon);
  CheckStructure(c, canon, t, again.get());
  for (const Var& v : t.vars) {
    int ss = t.starstar();
    c.label(v.shorthand ? "var:shorthand" : ss >= 0 && v.start > ss ? "var:after-starstar" : t.var_has_starstar(v) ? "var:contains-starstar" : v.end - v.start > 1 ? "var:multi-segment" : "var:single");
  }
  if (!t.verb.empty()) c.label("has-verb");
  if (t.vars.size() > 1) c.label("several-variables");
  if (!t.vars.empty() || !t.verb.empty() || t.segs.size() > 2) c.nontrivial(pbt::HashStr(text));
}

// A parsed template owns its data: parsing others does not change it.
PBT(C02, independent_objects, 60000, 2000000) {
  TmplGen g;
  g.vars_of_8 = 7;
  vector<Tmpl> ts;
  vector<string> texts;
  vector<std::unique_ptr<gt::HttpTemplate>> got;
  size_t n = 2 + c.below(6);
  for (size_t i = 0; i < n; i++) {
    if (c.chance(1, 4)) gt::HttpTemplate::Parse(GenNearTemplate(c));
    ts.push_back(i && c.coin() ? GenNear(c, ts[0], g) : GenTmpl(c, g));
    texts.push_back(Print(ts.back()));
    string copy = texts.back();
    got.push_back(gt::HttpTemplate::Parse(copy));
    copy.assign(copy.size(), '#');
  }
  uint64_t h = 0;
  for (size_t i = 0; i < n; i++) {
    c.note("%s", pbt::Show(texts[i]).c_str());
    CheckStructure(c, texts[i], ts[i], got[i].get());
    h = pbt::HashStr(texts[i], h);
  }
  c.evaluations(n);
  c.nontrivial(h);
}
