// Independent reference model of HTTP templates, routing, bindings and
// percent-decoding, plus generators. Nothing here calls the code under test.
#ifndef MODEL_H_
#define MODEL_H_

#include <algorithm>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "pbt.h"

namespace model {

using pbt::Case;
using std::string;
using std::vector;

// ---------------------------------------------------------------- templates

struct Seg {
  enum Kind { kLit, kStar, kStarStar } kind;
  string lit;
  string text() const { return kind == kLit ? lit : kind == kStar ? "*" : "**"; }
  bool operator==(const Seg& o) const { return kind == o.kind && lit == o.lit; }
  bool operator<(const Seg& o) const { return kind != o.kind ? kind < o.kind : lit < o.lit; }
};

struct Var {
  int start, end;  // [start, end) in segs
  vector<string> field;
  bool shorthand = false;  // printed as {x} (only for exactly one "*")
};

struct Tmpl {
  bool root = false;  // the special template "/"
  vector<Seg> segs;
  vector<Var> vars;
  string verb;

  int starstar() const {
    for (size_t i = 0; i < segs.size(); i++)
      if (segs[i].kind == Seg::kStarStar) return static_cast<int>(i);
    return -1;
  }
  bool var_has_starstar(const Var& v) const {
    int s = starstar();
    return s >= v.start && s < v.end;
  }
};

inline string JoinField(const vector<string>& f) {
  string o;
  for (size_t i = 0; i < f.size(); i++) o += (i ? "." : "") + f[i];
  return o;
}

// Text of a template. With `canonical`, {x} is written {x=*}.
inline string Print(const Tmpl& t, bool canonical = false) {
  if (t.root) return "/";
  string o;
  size_t i = 0;
  size_t vi = 0;
  while (i < t.segs.size()) {
    o += "/";
    if (vi < t.vars.size() && t.vars[vi].start == static_cast<int>(i)) {
      const Var& v = t.vars[vi++];
      o += "{" + JoinField(v.field);
      if (!(v.shorthand && !canonical)) {
        o += "=";
        for (int k = v.start; k < v.end; k++) o += (k > v.start ? "/" : "") + t.segs[k].text();
      }
      o += "}";
      i = v.end;
    } else {
      o += t.segs[i++].text();
    }
  }
  if (!t.verb.empty()) o += ":" + t.verb;
  return o;
}

// The grammar, written directly as a recogniser over positions.
class RefParser {
 public:
  static std::unique_ptr<Tmpl> Parse(const string& s) {
    std::unique_ptr<Tmpl> t(new Tmpl);
    if (s == "/") {
      t->root = true;
      return t;
    }
    RefParser p(s, t.get());
    if (!p.Template()) return nullptr;
    bool after = false;
    for (const Seg& g : t->segs) {
      if (after && g.kind != Seg::kLit) return nullptr;
      if (g.kind == Seg::kStarStar) after = true;
    }
    return t;
  }

 private:
  RefParser(const string& s, Tmpl* t) : s_(s), t_(t) {}
  bool At(char c) const { return i_ < s_.size() && s_[i_] == c; }
  bool Eat(char c) {
    if (!At(c)) return false;
    i_++;
    return true;
  }
  string Run(const char* stop) {
    size_t e = s_.find_first_of(stop, i_);
    if (e == string::npos) e = s_.size();
    string r = s_.substr(i_, e - i_);
    i_ = e;
    return r;
  }
  bool Template() {
    if (!Eat('/') || !Segments(false)) return false;
    if (Eat(':')) {
      t_->verb = Run("/:}");
      if (t_->verb.empty()) return false;
    }
    return i_ == s_.size();
  }
  bool Segments(bool in_var) {
    do {
      if (!Segment(in_var)) return false;
    } while (Eat('/'));
    return true;
  }
  bool Segment(bool in_var) {
    if (Eat('*')) {
      t_->segs.push_back(Seg{Eat('*') ? Seg::kStarStar : Seg::kStar, ""});
      return true;
    }
    if (At('{')) return !in_var && Variable();
    string lit = Run("/:}");
    if (lit.empty()) return false;
    t_->segs.push_back(Seg{Seg::kLit, lit});
    return true;
  }
  bool Variable() {
    Eat('{');
    Var v;
    v.start = static_cast<int>(t_->segs.size());
    do {
      string id = Run(".}=");
      if (id.empty()) return false;
      v.field.push_back(id);
    } while (Eat('.'));
    if (Eat('=')) {
      if (!Segments(true)) return false;
    } else {
      v.shorthand = true;
      t_->segs.push_back(Seg{Seg::kStar, ""});
    }
    if (!Eat('}')) return false;
    v.end = static_cast<int>(t_->segs.size());
    t_->vars.push_back(v);
    return true;
  }
  const string& s_;
  Tmpl* t_;
  size_t i_ = 0;
};

// ---------------------------------------------------------- percent-decoding

enum Spec { kExceptReserved = 0, kExceptSlash = 1, kAll = 2 };

inline int HexVal(unsigned char c) {
  static const string digits = "0123456789abcdef";
  static const string upper = "0123456789ABCDEF";
  size_t p = digits.find(static_cast<char>(c));
  if (p == string::npos) p = upper.find(static_cast<char>(c));
  return p == string::npos ? -1 : static_cast<int>(p);
}

inline bool Keeps(Spec spec, unsigned char b) {
  static const string reserved = "!#$&'()*+,/:;=?@[]";
  if (spec == kExceptReserved) return b != 0 && reserved.find(static_cast<char>(b)) != string::npos;
  if (spec == kExceptSlash) return b == '/';
  return false;
}

inline string RefDecode(const string& s, Spec spec, bool plus, bool* changed = nullptr) {
  string o;
  if (changed) *changed = false;
  for (size_t i = 0; i < s.size(); i++) {
    if (plus && s[i] == '+') {
      o += ' ';
      if (changed) *changed = true;
      continue;
    }
    if (s[i] == '%' && s.size() - i >= 3) {
      int h = HexVal(s[i + 1]), l = HexVal(s[i + 2]);
      if (h >= 0 && l >= 0 && !Keeps(spec, static_cast<unsigned char>(h * 16 + l))) {
        o += static_cast<char>(h * 16 + l);
        i += 2;
        if (changed) *changed = true;
        continue;
      }
    }
    o += s[i];
  }
  return o;
}

// ------------------------------------------------------------------ matching

struct Match {
  bool ok = false;
  // Request segment range matched by template segment i: [begin[i], begin[i+1]).
  vector<int> begin;
};

inline Match MatchTemplate(const Tmpl& t, const vector<string>& parts) {
  Match m;
  const int n = static_cast<int>(parts.size());
  const int k = static_cast<int>(t.segs.size());
  const int ss = t.starstar();
  int span = 0;  // segments matched by "**"
  if (ss < 0) {
    if (n != k) return m;
  } else {
    span = n - (k - 1);
    const bool final = ss == k - 1;
    if (span < (final ? 0 : 1)) return m;
  }
  int pos = 0;
  for (int i = 0; i < k; i++) {
    m.begin.push_back(pos);
    switch (t.segs[i].kind) {
      case Seg::kLit:
        if (parts[pos] != t.segs[i].lit) return m;
        pos++;
        break;
      case Seg::kStar:
        pos++;
        break;
      case Seg::kStarStar:
        pos += span;
        break;
    }
  }
  m.begin.push_back(pos);
  m.ok = pos == n;
  return m;
}

// Specificity of a matching template, smaller is more specific.
inline vector<int> Rank(const Tmpl& t, const Match& m) {
  vector<int> r;
  for (size_t i = 0; i < t.segs.size(); i++) {
    if (t.segs[i].kind == Seg::kStarStar) {
      r.push_back(2);
      r.push_back(-static_cast<int>(t.segs.size() - i - 1));
      return r;
    }
    r.push_back(t.segs[i].kind == Seg::kLit ? 0 : 1);
  }
  return r;
}

struct Reg {
  string method;
  Tmpl tmpl;
  string body;
  std::set<string> sys;
  int id = 0;
};

struct Options {
  Spec spec = kExceptReserved;
  bool plus = false;
  bool unregistered_verb = false;
};

struct Binding {
  vector<string> field;
  string value;
  bool operator==(const Binding& o) const { return field == o.field && value == o.value; }
};

inline string ShowBindings(const vector<Binding>& b) {
  string o = "[";
  for (size_t i = 0; i < b.size(); i++) o += (i ? ", " : "") + pbt::Show(JoinField(b[i].field)) + "=" + pbt::Show(b[i].value);
  return o + "]";
}

struct Request {
  vector<string> parts;
  bool has_verb = false;
  string verb;
};

inline Request SplitRequest(const string& path_in, const std::set<string>& verbs, bool any_verb) {
  Request r;
  string path = path_in.substr(0, std::min(path_in.find('?'), path_in.size()));
  // the text after the last '/'
  size_t slash = path.rfind('/');
  size_t colon = path.rfind(':');
  if (colon != string::npos && slash != string::npos && colon > slash) {
    string v = path.substr(colon + 1);
    if (any_verb || verbs.count(v)) {
      r.has_verb = true;
      r.verb = v;
      path.resize(colon);
    }
  }
  string cur;
  for (size_t i = 1; i < path.size(); i++) {
    if (path[i] == '/') {
      r.parts.push_back(cur);
      cur.clear();
    } else {
      cur += path[i];
    }
  }
  if (!path.empty()) r.parts.push_back(cur);
  while (!r.parts.empty() && r.parts.back().empty()) r.parts.pop_back();
  return r;
}

inline vector<Binding> PathBindings(const Tmpl& t, const Match& m, const vector<string>& parts, Spec spec) {
  vector<Binding> out;
  for (const Var& v : t.vars) {
    Binding b;
    b.field = v.field;
    const bool single = v.end - v.start == 1 && t.segs[v.start].kind != Seg::kStarStar;
    for (int i = m.begin[v.start]; i < m.begin[v.end]; i++) {
      if (i > m.begin[v.start]) b.value += "/";
      b.value += RefDecode(parts[i], single ? kAll : spec, false);
    }
    out.push_back(b);
  }
  return out;
}

inline vector<Binding> QueryBindings(const string& q, const std::set<string>& sys, bool plus) {
  vector<Binding> out;
  size_t i = 0;
  while (true) {
    size_t e = q.find('&', i);
    string item = q.substr(i, e == string::npos ? string::npos : e - i);
    size_t eq = item.find('=');
    if (eq != string::npos && eq > 0) {
      string name = item.substr(0, eq);
      if (!sys.count(name)) {
        Binding b;
        string cur;
        for (char ch : name) {
          if (ch == '.') {
            b.field.push_back(cur);
            cur.clear();
          } else {
            cur += ch;
          }
        }
        b.field.push_back(cur);
        b.value = RefDecode(item.substr(eq + 1), kAll, plus);
        out.push_back(b);
      }
    }
    if (e == string::npos) break;
    i = e + 1;
  }
  return out;
}

struct Answer {
  const Reg* reg = nullptr;  // winning registration, nullptr: no method
  bool ambiguous = false;    // the winning route was registered more than once
  int candidates = 0;        // matching registrations
  int distinct_ranks = 0;
  Request req;
  Match match;
};

// Reference lookup over the flat list of registrations. `accepted` includes
// refused duplicates (they make the route ambiguous as well).
inline Answer RefLookup(const vector<Reg>& regs, const Options& o, const string& method, const string& path) {
  Answer a;
  std::set<string> verbs;
  for (const Reg& r : regs)
    if (!r.tmpl.verb.empty()) verbs.insert(r.tmpl.verb);
  a.req = SplitRequest(path, verbs, o.unregistered_verb);
  struct Cand {
    vector<int> rank;
    bool exact;
    const Reg* reg;
    Match m;
  };
  vector<Cand> cands;
  std::set<vector<int>> ranks;
  for (const Reg& r : regs) {
    if (r.tmpl.verb != a.req.verb) continue;
    if (r.method != method && r.method != "*") continue;
    Match m = MatchTemplate(r.tmpl, a.req.parts);
    if (!m.ok) continue;
    cands.push_back(Cand{Rank(r.tmpl, m), r.method == method, &r, m});
    ranks.insert(cands.back().rank);
  }
  a.candidates = static_cast<int>(cands.size());
  a.distinct_ranks = static_cast<int>(ranks.size());
  if (cands.empty()) return a;
  const Cand* best = &cands[0];
  for (const Cand& cd : cands) {
    if (cd.rank < best->rank || (cd.rank == best->rank && cd.exact && !best->exact)) best = &cd;
  }
  int same = 0;
  for (const Cand& cd : cands)
    if (cd.rank == best->rank && cd.exact == best->exact) same++;
  if (same > 1) {
    a.ambiguous = true;
    return a;
  }
  a.reg = best->reg;
  a.match = best->m;
  return a;
}

inline vector<Binding> RefBindings(const Answer& a, const Options& o, const string& query) {
  vector<Binding> b = PathBindings(a.reg->tmpl, a.match, a.req.parts, o.spec);
  vector<Binding> q = QueryBindings(query, a.reg->sys, o.plus);
  b.insert(b.end(), q.begin(), q.end());
  return b;
}

// Same (shape, verb, method): the registrations denote one route.
inline bool SameRoute(const Reg& a, const Reg& b) {
  return a.method == b.method && a.tmpl.verb == b.tmpl.verb && a.tmpl.segs == b.tmpl.segs;
}

// ---------------------------------------------------------------- generators

// Arbitrary byte string without the bytes in `avoid`.
inline string GenBytes(Case& c, size_t max, const string& avoid) {
  string s;
  size_t n = c.range(1, static_cast<int64_t>(max));
  for (size_t i = 0; i < n; i++) {
    unsigned char b;
    switch (c.weighted({5, 3, 1})) {
      case 0: b = static_cast<unsigned char>('a' + c.below(6)); break;
      case 1: b = static_cast<unsigned char>(32 + c.below(95)); break;
      default: b = static_cast<unsigned char>(c.below(256)); break;
    }
    s += avoid.find(static_cast<char>(b)) == string::npos ? static_cast<char>(b) : 'z';
  }
  return s;
}

// A literal path segment of a template.
inline string GenLiteral(Case& c, bool exotic, bool dense = false) {
  if (dense) return c.pickc({"a", "b"});
  static const vector<string> kPlain = {"a", "b", "c", "d", "aa", "ab", "foo"};
  static const vector<string> kOdd = {"a.b", "x=y", "a*", "a**", "a{b", "a{", "%2F", "%41", "%", "a b", "-", ".", "..", "A",
                                      "=", "=a", ".a", "0", "_", "a+b", "&", "GET", string("\0", 1), "\xff", "\xc3\xa9", ".x"};
  if (!exotic || !c.chance(1, 6)) return c.pick(kPlain);
  if (c.chance(2, 3)) return c.pick(kOdd);
  string s = GenBytes(c, c.chance(1, 8) ? 300 : 8, "/:}");
  if (c.chance(1, 60)) s += string(c.raw(70000), 'l');
  if (s[0] == '*' || s[0] == '{') s[0] = 'q';
  return s;
}

inline vector<string> GenField(Case& c, bool exotic) {
  static const vector<string> kNames = {"x", "y", "z", "name", "id", "x_y", "user_id", "n2"};
  static const vector<string> kOdd = {"a/b", "*", "**", "{", "a:b", "[0]", "a b", "\xc3\xa9", "/", ":", string("\0", 1)};
  vector<string> f;
  size_t n = 1 + (c.chance(1, 3) ? c.below(c.chance(1, 60) ? 60 : 3) : 0);
  for (size_t i = 0; i < n; i++) {
    if (exotic && c.chance(1, 300))
      f.push_back(string(1 + c.raw(600), 'n'));
    else if (exotic && c.chance(1, 10))
      f.push_back(c.chance(3, 4) ? c.pick(kOdd) : GenBytes(c, 12, ".}="));
    else
      f.push_back(c.pick(kNames));
  }
  return f;
}

inline string GenVerb(Case& c, bool exotic) {
  static const vector<string> kPlain = {"v", "w", "verb", "aa", "b"};
  static const vector<string> kOdd = {"*", "**", "{x", "a*b", "v.w", "=", "GET", "%41", "\xff", "v v"};
  if (exotic && c.chance(1, 400)) return string(1 + c.raw(9000), 'V');
  if (exotic && c.chance(1, 6)) return c.chance(3, 4) ? c.pick(kOdd) : GenBytes(c, c.chance(1, 8) ? 300 : 8, "/:}");
  return c.pick(kPlain);
}

struct TmplGen {
  bool exotic = true;   // odd literals, field names, verbs
  bool dense = false;   // tiny alphabets: many overlapping templates
  unsigned verb_of_8 = 2;
  unsigned starstar_of_8 = 3;
  unsigned vars_of_8 = 5;
  size_t max_segs = 24;
  bool allow_root = true;
};

// Places variables over an existing segment list.
inline void GenVars(Case& c, Tmpl* t, const TmplGen& g) {
  t->vars.clear();
  if (!c.chance(g.vars_of_8, 8)) return;
  int i = 0;
  const int k = static_cast<int>(t->segs.size());
  while (i < k) {
    if (c.chance(1, 2)) {
      Var v;
      v.start = i;
      int len = 1;
      if (c.chance(1, 3)) len = static_cast<int>(1 + c.below(std::min(k - i, 4)));
      v.end = i + len;
      v.field = GenField(c, g.exotic);
      v.shorthand = len == 1 && t->segs[i].kind == Seg::kStar && c.coin();
      t->vars.push_back(v);
      i += len;
    } else {
      i++;
    }
  }
}

inline Tmpl GenTmpl(Case& c, const TmplGen& g) {
  Tmpl t;
  if (g.allow_root && c.chance(1, 24)) {
    t.root = true;
    return t;
  }
  size_t n = 1 + c.size((c.chance(1, 300) ? 300 : g.max_segs) - 1);
  int ss = c.chance(g.starstar_of_8, 8) ? static_cast<int>(c.below(n)) : -1;
  if (ss >= 0 && c.coin()) ss = static_cast<int>(n) - 1;
  for (size_t i = 0; i < n; i++) {
    if (static_cast<int>(i) == ss)
      t.segs.push_back(Seg{Seg::kStarStar, ""});
    else if ((ss < 0 || static_cast<int>(i) < ss) && c.chance(2, 5))
      t.segs.push_back(Seg{Seg::kStar, ""});
    else
      t.segs.push_back(Seg{Seg::kLit, GenLiteral(c, g.exotic, g.dense)});
  }
  GenVars(c, &t, g);
  if (c.chance(g.verb_of_8, 8)) t.verb = GenVerb(c, g.exotic);
  return t;
}

// A template near an existing one: overlapping shapes are what makes routing
// interesting.
inline Tmpl GenNear(Case& c, const Tmpl& base, const TmplGen& g) {
  Tmpl t = base;
  if (t.root) return GenTmpl(c, g);
  size_t edits = 1 + c.below(2);
  for (size_t e = 0; e < edits; e++) {
    size_t i = c.below(t.segs.size());
    switch (c.weighted({4, 3, 2, 2, 2, 1})) {
      case 0: t.segs[i] = Seg{Seg::kStar, ""}; break;
      case 1: t.segs[i] = Seg{Seg::kLit, GenLiteral(c, g.exotic, g.dense)}; break;
      case 2: t.segs[i] = Seg{Seg::kStarStar, ""}; break;
      case 3: t.segs.insert(t.segs.begin() + i, Seg{Seg::kLit, GenLiteral(c, g.exotic, g.dense)}); break;
      case 4:
        if (t.segs.size() > 1) t.segs.erase(t.segs.begin() + i);
        break;
      default:
        t.verb = t.verb.empty() ? GenVerb(c, g.exotic) : "";
        break;
    }
  }
  // Restore the rule "only literals after **".
  bool after = false;
  for (Seg& s : t.segs) {
    if (after && s.kind != Seg::kLit) s = Seg{Seg::kLit, GenLiteral(c, g.exotic, g.dense)};
    if (s.kind == Seg::kStarStar) after = true;
  }
  GenVars(c, &t, g);
  return t;
}

// One request path segment (no '/').
inline string GenPart(Case& c, bool dense = false) {
  if (dense && !c.chance(1, 8)) return c.pickc({"a", "b", "c"});
  static const vector<string> kPlain = {"a", "b", "c", "d", "aa", "ab", "foo", "xyz"};
  static const vector<string> kOdd = {"*", "**", "{x}", "", "%2F", "%2f", "%41", "%", "%4", "%zz", "%25", "+", "a+b", "%2B", "%20",
                                      "a:b", ":", "a%3Ab", "%25252F", "%2", "a%", "a%4", "%c3%a9", "\xff", "{x=*}", "x.y", "..",
                                      ".", "%00", "a=b", "&", "GET", "%5B%5d%21%40", "a*", "%7e", string("\0", 1)};
  switch (c.weighted({10, 5, 1})) {
    case 0: return c.pick(kPlain);
    case 1: return c.pick(kOdd);
    default: return GenBytes(c, c.chance(1, 8) ? 200 : 10, "/?");
  }
}

// A percent-heavy segment.
inline string GenEncoded(Case& c, size_t max_items) {
  static const char* kHex = "0123456789abcdefABCDEF";
  string s;
  size_t n = c.below(c.chance(1, 150) ? 600 : max_items + 1);
  for (size_t i = 0; i < n; i++) {
    switch (c.weighted({4, 4, 2, 2, 1, 1})) {
      case 0: s += static_cast<char>('a' + c.below(26)); break;
      case 1: {  // a well-formed escape
        s += '%';
        s += kHex[c.below(22)];
        s += kHex[c.below(22)];
        break;
      }
      case 2: {  // escape of a reserved or otherwise special character
        static const string sp = "!#$&'()*+,/:;=?@[]%~-_. \"<>\\^`{|}";
        static const char* up = "0123456789ABCDEF";
        static const char* lo = "0123456789abcdef";
        unsigned char b = static_cast<unsigned char>(sp[c.below(sp.size())]);
        const char* h = c.coin() ? up : lo;
        s += '%';
        s += h[b >> 4];
        s += h[b & 15];
        break;
      }
      case 3: {  // malformed
        static const vector<string> bad = {"%", "%%", "%4", "%g1", "%1g", "% 1", "%-1", "%+1", "%\xff" "0", "%@0", "%G0", "%:0", "%`0", "%/0"};
        s += c.pick(bad);
        break;
      }
      case 4: s += '+'; break;
      default: {
        char b = static_cast<char>(c.below(256));
        s += (b == '/' || b == '?') ? '!' : b;
      }
    }
  }
  return s;
}

inline string GenMethod(Case& c, bool allow_star, bool dense = false) {
  if (dense) return allow_star ? c.pickc({"GET", "GET", "*", "POST"}) : c.pickc({"GET", "POST"});
  static const vector<string> kM = {"GET", "POST", "PUT", "DELETE", "PATCH", "*", "HEAD", "GETv", "G", "get", "CUSTOM", "GET:v", "ET", "*v", ":", "GETverb"};
  if (c.chance(1, 800)) return string(1 + c.raw(9000), 'M');
  size_t r = c.weighted({8, 4, 2, 1, 1, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1});
  if (kM[r] == "*" && !allow_star) r = 0;
  return kM[r];
}

// A request path matching `t` (unless literals contain '?'), or close to it.
inline vector<string> GenPartsFor(Case& c, const Tmpl& t, bool encoded, bool dense = false) {
  vector<string> p;
  for (size_t i = 0; i < t.segs.size(); i++) {
    const Seg& s = t.segs[i];
    if (s.kind == Seg::kLit) {
      p.push_back(s.lit);
    } else if (s.kind == Seg::kStar) {
      p.push_back(encoded && c.coin() ? GenEncoded(c, 6) : GenPart(c, dense));
    } else {
      size_t n = c.size(c.chance(1, 100) ? 300 : 12);
      if (i + 1 < t.segs.size() && n == 0) n = 1;
      for (size_t k = 0; k < n; k++) p.push_back(encoded && c.coin() ? GenEncoded(c, 6) : GenPart(c, dense));
    }
  }
  return p;
}

inline string JoinPath(const vector<string>& parts) {
  string s;
  for (auto& p : parts) s += "/" + p;
  return s.empty() ? "/" : s;
}

inline string GenPath(Case& c, const vector<Reg>& regs, bool encoded, bool dense = false) {
  vector<string> parts;
  string verb;
  bool with_verb = false;
  if (!regs.empty() && c.weighted({5, 1}) == 0) {
    const Tmpl& t = regs[c.below(regs.size())].tmpl;
    parts = GenPartsFor(c, t, encoded, dense);
    if (!t.verb.empty() && !c.chance(1, 6)) {
      with_verb = true;
      verb = t.verb;
    }
    if (c.chance(1, 3)) {
      // near miss
      size_t i = c.below(parts.size() + 1);
      switch (c.below(4)) {
        case 0: parts.insert(parts.begin() + i, GenPart(c, dense)); break;
        case 1:
          if (i < parts.size()) parts.erase(parts.begin() + i);
          break;
        case 2:
          if (i < parts.size()) parts[i] = GenPart(c, dense);
          break;
        default:
          if (i < parts.size()) parts[i] += "x";
          break;
      }
    }
    if (c.chance(1, 10)) {
      with_verb = true;
      verb = c.chance(1, 4) ? "" : c.coin() ? GenVerb(c, true) : regs[c.below(regs.size())].tmpl.verb;
    }
  } else {
    size_t n = c.size(16);
    for (size_t i = 0; i < n; i++) parts.push_back(GenPart(c, dense));
    if (c.chance(1, 3)) {
      with_verb = true;
      verb = !regs.empty() && c.coin() ? regs[c.below(regs.size())].tmpl.verb : GenVerb(c, true);
    }
  }
  string path = JoinPath(parts);
  if (with_verb) path += ":" + verb;
  if (c.chance(1, 12)) path += string(1 + c.size(80), '/');
  if (c.chance(1, 1500)) {  // very long ones
    const size_t len = 1 + c.raw(c.chance(1, 4) ? 1300000 : 70000);
    const size_t at = path.rfind('/', path.empty() ? 0 : c.below(path.size()));
    path.insert(at == string::npos ? 0 : at + 1, string(len, c.chance(1, 8) ? '/' : 'p'));
  }
  if (c.chance(1, 12)) path += c.pickc({"?", "?a=b", "?x/y:v", "?a?b", "?/:v"});
  if (c.chance(1, 2000)) path += "?" + string(c.raw(1200000), 'q');
  return path;
}

// A name that is almost the given one: nothing but the name itself counts.
inline string NearName(Case& c, string s) {
  const size_t at = s.empty() ? 0 : c.below(s.size());
  switch (c.below(8)) {
    case 0: return c.pickc({"$", ".", "_", "%24", " ", "x.", "-"}) + s;
    case 1: return s + c.pickc({".", "s", "%20", "[]", "[0]", ".x", " ", "*"});
    case 2: return s.empty() ? s : s.substr(1);
    case 3: return s.empty() ? s : s.substr(0, s.size() - 1);
    case 4:
      for (char& k : s) k = static_cast<char>(toupper(static_cast<unsigned char>(k)));
      return s;
    case 5:
      if (!s.empty()) s[at] = static_cast<char>(s[at] ^ 0x20);
      return s;
    case 6:
      if (!s.empty()) s = s.substr(0, at) + pbt::Format("%%%02X", static_cast<unsigned char>(s[at])) + s.substr(at + 1);
      return s;
    default: return s.insert(at, c.pickc({"_", ".", "-"}));
  }
}

inline string GenQuery(Case& c, const vector<string>& names) {
  string q;
  size_t n = c.size(c.chance(1, 80) ? 400 : 10);
  const bool lengthy = c.chance(1, 300);  // very long names and values
  for (size_t i = 0; i < n; i++) {
    if (i) q += "&";
    switch (c.weighted({8, 1, 1, 1, 1})) {
      case 0: {
        string name = !names.empty() && c.chance(1, 3) ? c.pick(names) : JoinField(GenField(c, true));
        if (c.chance(1, 5)) name = NearName(c, name);
        if (lengthy && c.chance(1, 4)) name += string(c.raw(c.coin() ? 70000 : 300), 'n');
        if (c.chance(1, 16)) name = c.pickc({"a..b", ".a", "a.", ".", "%61", "a%2Eb", "key ", "+", "x+y"});
        q += name + "=" + (c.coin() ? GenEncoded(c, 6) : string(c.pickc({"1", "", "abc", "a=b", "=", "a%3Db", "a+b", "%26", "a?b", "/", "a;b", "%2B", "1 2"})));
        if (lengthy && c.coin()) q += string(c.raw(70000), 'v') + c.pickc({"", "%41", "+", "%4", "=x"});
        break;
      }
      case 1: q += c.pickc({"", "&", "=", "=v", "==", "=&="}); break;
      case 2: q += c.pickc({"novalue", "x", "a.b", "key"}); break;
      case 3: {
        string s = GenBytes(c, 10, "");
        q += s;
        break;
      }
      default: q += (names.empty() ? string("key") : c.pick(names)) + c.pickc({"=1", "", "==", "=%41+"}); break;
    }
  }
  return q;
}

// A set of registrations with overlapping shapes.
struct ConfigGen {
  TmplGen tg;
  size_t max_regs = 40;
  bool fillers = false;  // now and then very many plain registrations
  bool allow_duplicates = false;
  bool sys_params = false;
  bool star_methods = true;
};

// Turns a configuration into one with very many overlaps.
inline void MakeDense(ConfigGen* g) {
  g->tg.dense = true;
  g->tg.exotic = false;
  g->tg.max_segs = 8;
  g->tg.verb_of_8 = 1;
}

// Very many plain registrations that are all different.
inline void AddFillers(Case& c, size_t n, vector<Reg>* regs) {
  Tmpl t;
  Seg lit;
  lit.kind = Seg::kLit;
  lit.lit = "a";
  const bool deeper = c.coin(), wide = c.coin();
  if (deeper) t.segs.push_back(lit);
  t.segs.push_back(lit);
  for (size_t k = 0; k < n; k++) {
    Reg f;
    t.segs.back().lit = "filler" + std::to_string(wide ? k : k / 8);
    f.tmpl = t;
    f.method = wide ? "GET" : "M" + std::to_string(k % 8);
    f.id = static_cast<int>(regs->size()) + 1;
    regs->push_back(f);
  }
}

inline vector<Reg> GenRegs(Case& c, const ConfigGen& g) {
  static const vector<string> kSys = {"key", "api_key", "x", "a.b", "prettyPrint", "$alt", "name", "%61"};
  static const vector<string> kBody = {"", "*", "body", "a.b", "x", "{"};
  vector<Reg> regs;
  size_t n = 1 + c.size((c.chance(1, 250) ? 300 : g.max_regs) - 1);
  size_t fill = 0;
  if (g.fillers && c.chance(1, 3000)) fill = 1 + c.raw(2500);
  const size_t fill_at = fill ? c.below(n + 1) : 0;
  for (size_t i = 0; i < n; i++) {
    if (fill && i == fill_at) AddFillers(c, fill, &regs);
    Reg r;
    if (!regs.empty() && c.chance(g.tg.dense ? 4 : 3, 5))
      r.tmpl = GenNear(c, regs[c.below(regs.size())].tmpl, g.tg);
    else
      r.tmpl = GenTmpl(c, g.tg);
    if (!regs.empty() && g.allow_duplicates && c.chance(1, 5)) {
      r.tmpl = regs[c.below(regs.size())].tmpl;
      GenVars(c, &r.tmpl, g.tg);
    }
    r.method = GenMethod(c, g.star_methods, g.tg.dense);
    if (!regs.empty() && c.chance(1, 3)) r.method = regs[c.below(regs.size())].method;
    r.body = c.pick(kBody);
    if (g.sys_params) {
      size_t k = c.chance(1, 2) ? c.below(4) : 0;
      for (size_t j = 0; j < k; j++) r.sys.insert(c.pick(kSys));
      if (c.chance(1, 60))
        for (size_t j = c.below(70); j > 0; j--) r.sys.insert("p" + std::to_string(j));
    }
    if (!g.allow_duplicates) {
      bool dup = false;
      for (const Reg& o : regs) dup = dup || SameRoute(o, r);
      if (dup) continue;
    }
    r.id = static_cast<int>(regs.size()) + 1;
    regs.push_back(r);
  }
  return regs;
}

inline string ShowRegs(const vector<Reg>& regs) {
  string o;
  for (const Reg& r : regs) {
    o += pbt::Format("  #%d %s %s body=%s", r.id, pbt::Show(r.method).c_str(), pbt::Show(Print(r.tmpl)).c_str(), pbt::Show(r.body).c_str());
    if (!r.sys.empty()) {
      o += " sys={";
      for (auto& s : r.sys) o += pbt::Show(s) + " ";
      o += "}";
    }
    o += "\n";
  }
  return o;
}

inline uint64_t HashRegs(const vector<Reg>& regs) {
  uint64_t h = 1;
  for (const Reg& r : regs) h = pbt::HashStr(Print(r.tmpl), pbt::HashStr(r.method, h));
  return h;
}

}  // namespace model

#endif  // MODEL_H_
