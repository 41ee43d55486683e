// C03, C04: routing against the flat reference matcher.
#include "sut.h"

using namespace model;
using namespace sut;

namespace {

struct Scenario {
  bool dense = false;
  vector<Reg> regs;
  Options opt;
};

Scenario GenScenario(Case& c, bool dup, unsigned verb_of_8 = 2) {
  Scenario s;
  ConfigGen g;
  g.allow_duplicates = dup;
  g.tg.verb_of_8 = verb_of_8;
  g.max_regs = c.thorough ? 120 : 60;
  g.fillers = true;
  s.dense = c.coin();
  if (s.dense) MakeDense(&g);
  if (s.dense && verb_of_8 > 2) g.tg.verb_of_8 = verb_of_8;
  s.regs = GenRegs(c, g);
  s.opt = GenOptions(c);
  return s;
}

void Describe(Case& c, const Scenario& s) {
  if (c.verbose) {
    c.note("options: %s", ShowOptions(s.opt).c_str());
    c.note_str(ShowRegs(s.regs));
  }
}

bool Matches(const Reg& r, const Answer& a, const string& method) {
  return r.tmpl.verb == a.req.verb && (r.method == method || r.method == "*") && MatchTemplate(r.tmpl, a.req.parts).ok;
}

void CheckExistence(Case& c, const vector<Reg>& regs, const Answer& a, Method got, const string& method, const string& path) {
  if (got == nullptr && a.candidates > 0) c.fail(pbt::Format("Lookup(%s, %s) found no method although %d registered pair(s) match, e.g. %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), a.candidates, Name(a.reg).c_str()));
  if (got != nullptr && !Matches(*got, a, method)) c.fail(pbt::Format("Lookup(%s, %s) returned #%d %s %s, which does not match the request", pbt::Show(method).c_str(), pbt::Show(path).c_str(), got->id, pbt::Show(got->method).c_str(), pbt::Show(Print(got->tmpl)).c_str()));
}

void CheckBest(Case& c, const Answer& a, Method got, const string& method, const string& path) {
  if (got != a.reg) c.fail(pbt::Format("Lookup(%s, %s) returned %s, the most specific matching template is %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), Name(a.reg).c_str()));
}

// A method near `m`: other case, blanks around it, a prefix or an extension.
string NearMethod(Case& c, const string& m) {
  string r = m;
  switch (c.below(8)) {
    case 0: case 1: for (char& ch : r) ch = static_cast<char>(tolower(static_cast<unsigned char>(ch))); break;
    case 2: for (char& ch : r) ch = static_cast<char>(toupper(static_cast<unsigned char>(ch))); break;
    case 3: if (!r.empty()) { char& ch = r[c.below(r.size())]; ch = static_cast<char>(isupper(static_cast<unsigned char>(ch)) ? tolower(ch) : toupper(ch)); } break;
    case 4: r += c.pickc({" ", "*", ":", "S", "\t"}); break;
    case 5: r = c.pickc({" ", "*", ":", "X"}) + r; break;
    case 6: if (!r.empty()) r.pop_back(); break;
    default: if (!r.empty()) r.erase(0, 1); break;
  }
  return r;
}

string GenRequestMethod(Case& c, const vector<Reg>& regs) {
  if (!regs.empty() && c.chance(1, 10)) return NearMethod(c, regs[c.below(regs.size())].method);
  if (!regs.empty() && c.chance(5, 6)) {
    string m = regs[c.below(regs.size())].method;
    if (m != "*" || c.chance(1, 8)) return m;
    return c.pickc({"GET", "POST", "HEAD", "PURGE"});
  }
  return c.coin() ? GenMethod(c, true) : c.pickc({"GET", "POST", "HEAD", "", "gET", "GETv", "GET:", "OPTIONS"});
}

}  // namespace

PBT(C03, routing, 130000, 6000000) {
  Scenario s = GenScenario(c, false);
  Describe(c, s);
  auto m = sut::Build(c, s.regs, s.opt);
  std::set<string> literals;
  for (const Reg& r : s.regs)
    for (const Seg& g : r.tmpl.segs) literals.insert(g.text());
  size_t n = 2 + c.below(10);
  uint64_t h = HashRegs(s.regs);
  bool interesting = false;
  for (size_t i = 0; i < n; i++) {
    string method = GenRequestMethod(c, s.regs);
    string path = GenPath(c, s.regs, false, s.dense);
    Answer a = RefLookup(s.regs, s.opt, method, path);
    Method got = m->Lookup(method, path);
    {
      std::vector<gt::VariableBinding> vb;
      string body;
      Method full = m->Lookup(method, path, "", &vb, &body);
      if (full != got) c.fail(pbt::Format("Lookup(%s, %s) returns %s, with variable bindings asked for %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), Name(full).c_str()));
    }
    c.note("request %s %s -> %s (expected %s, %d candidates)", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), Name(a.reg).c_str(), a.candidates);
    CheckExistence(c, s.regs, a, got, method, path);
    h = pbt::HashStr(path, pbt::HashStr(method, h));
    if (a.candidates == 0) {
      c.label("request:no-match");
    } else if (a.candidates == 1) {
      c.label("request:one-candidate");
    } else {
      c.label("request:several-candidates");
    }
    bool pattern_text = false;
    for (auto& p : a.req.parts) pattern_text = pattern_text || p == "*" || p == "**";
    if (pattern_text) c.label("request:pattern-characters-in-path");
    if (a.candidates > 0 || !a.req.parts.empty()) interesting = interesting || a.candidates > 0;
    // Metamorphic: a segment that is no literal of any template may be any
    // other such text, and the answer stays the same.
    if (path.find('?') == string::npos && !a.req.has_verb) {
      vector<string> parts = a.req.parts;
      bool changed = false;
      for (size_t k = 0; k < parts.size(); k++) {
        bool is_literal = false;
        for (const Reg& r : s.regs)
          for (const Seg& g : r.tmpl.segs) is_literal = is_literal || (g.kind == Seg::kLit && g.lit == parts[k]);
        if (is_literal || parts[k].empty() || parts[k].find(':') != string::npos) continue;
        string fresh = "zq" + std::to_string(k);
        if (literals.count(fresh)) continue;
        parts[k] = fresh;
        changed = true;
      }
      if (changed && (parts.empty() || parts.back().find(':') == string::npos)) {
        Method got2 = m->Lookup(method, JoinPath(parts));
        c.label("request:renamed-segments");
        if (got2 != got) c.fail(pbt::Format("Lookup(%s, %s) gives %s but with segments that no template mentions renamed, %s gives %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), pbt::Show(JoinPath(parts)).c_str(), Name(got2).c_str()));
      }
    }
    // Trailing slashes and query strings in the path are ignored.
    if (path.find('?') == string::npos && !a.req.has_verb && path.find(':') == string::npos) {
      string p2 = path + c.pickc({"/", "//", "?", "?x=/a/b:v", "/?*"});
      Method got3 = m->Lookup(method, p2);
      if (got3 != got) c.fail(pbt::Format("Lookup(%s, %s) gives %s but %s gives %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), pbt::Show(p2).c_str(), Name(got3).c_str()));
    }
  }
  c.evaluations(n);
  if (interesting) c.nontrivial(h);
}

// ---- exhaustive small scope: all pairs / triples of small templates, all
// short paths.
namespace {

const vector<Tmpl>& SmallTemplates() {
  static const vector<Tmpl>* v = [] {
    auto* out = new vector<Tmpl>();
    Tmpl root;
    root.root = true;
    out->push_back(root);
    const vector<Seg> alpha = {Seg{Seg::kLit, "a"}, Seg{Seg::kStar, ""}, Seg{Seg::kStarStar, ""}, Seg{Seg::kLit, "b"}};
    for (int len = 1; len <= 3; len++) {
      int total = 1;
      for (int i = 0; i < len; i++) total *= 4;
      for (int code = 0; code < total; code++) {
        Tmpl t;
        int x = code;
        bool ok = true, after = false;
        for (int i = 0; i < len; i++) {
          Seg s = alpha[x % 4];
          x /= 4;
          if (after && s.kind != Seg::kLit) ok = false;
          if (s.kind == Seg::kStarStar) after = true;
          t.segs.push_back(s);
        }
        if (ok) out->push_back(t);
      }
    }
    return out;
  }();
  return *v;
}

const vector<string>& SmallPaths() {
  static const vector<string>* v = [] {
    auto* out = new vector<string>();
    const vector<string> alpha = {"a", "b", "*", "c"};
    for (int len = 0; len <= 4; len++) {
      int total = 1;
      for (int i = 0; i < len; i++) total *= 4;
      for (int code = 0; code < total; code++) {
        vector<string> p;
        int x = code;
        for (int i = 0; i < len; i++) {
          p.push_back(alpha[x % 4]);
          x /= 4;
        }
        out->push_back(JoinPath(p));
      }
    }
    return out;
  }();
  return *v;
}



// Case i: one pair (x, y), with every third template z registered for another
// method ("*" or POST).
template <class F>
void SmallScope(Case& c, bool triples, F check) {
  const vector<Tmpl>& u = SmallTemplates();
  uint64_t n = u.size();
  c.check(n * n == 4225, "harness: size of the small scope");
  uint64_t i = c.raw(n * n - 1);
  Options opt;
  uint64_t evals = 0, nt = 0;
  const size_t zs = triples ? n : 1;
  for (size_t z = 0; z < zs; z++) {
    vector<Reg> regs;
    auto add = [&](const Tmpl& t, const char* method) {
      Reg r;
      r.tmpl = t;
      r.method = method;
      for (const Reg& o : regs)
        if (SameRoute(o, r)) return;
      r.id = static_cast<int>(regs.size()) + 1;
      regs.push_back(r);
    };
    regs.reserve(3);
    add(u[i / n], "GET");
    add(u[i % n], triples ? ((i / n + i % n + z) % 2 ? "GET" : "POST") : "*");
    if (triples) add(u[z], "GET");
    auto m = sut::Build(c, regs, opt);
    for (const string& p : SmallPaths()) {
      Answer a = RefLookup(regs, opt, "GET", p);
      Method got = m->Lookup("GET", p);
      evals++;
      if (a.candidates > 1) nt++;
      check(regs, a, got, p);
    }
    if (c.verbose && z == 0) c.note_str(ShowRegs(regs));
  }
  c.evaluations(evals);
  c.bulk_nontrivial(nt);
}

}  // namespace

PBT_ENUM(C03, small_scope_pairs, 4225, 4225) {
  SmallScope(c, false, [&](const vector<Reg>& regs, const Answer& a, Method got, const string& p) { CheckExistence(c, regs, a, got, "GET", p); });
}
PBT_ENUM(C03, small_scope_triples, 0, 4225) {
  SmallScope(c, true, [&](const vector<Reg>& regs, const Answer& a, Method got, const string& p) { CheckExistence(c, regs, a, got, "GET", p); });
}
PBT_ENUM(C04, small_scope_pairs, 4225, 4225) {
  SmallScope(c, false, [&](const vector<Reg>&, const Answer& a, Method got, const string& p) { CheckBest(c, a, got, "GET", p); });
}
PBT_ENUM(C04, small_scope_triples, 0, 4225) {
  SmallScope(c, true, [&](const vector<Reg>&, const Answer& a, Method got, const string& p) { CheckBest(c, a, got, "GET", p); });
}

PBT(C04, precedence, 120000, 6000000) {
  Scenario s = GenScenario(c, false);
  Describe(c, s);
  auto m = sut::Build(c, s.regs, s.opt);
  // The same registrations in another order.
  vector<const Reg*> order;
  for (const Reg& r : s.regs) order.push_back(&r);
  if (c.chance(1, 4)) {
    std::reverse(order.begin(), order.end());
  } else {
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.below(i)]);
  }
  auto m2 = sut::Build(c, order, s.opt);
  size_t n = 2 + c.below(8);
  uint64_t h = HashRegs(s.regs);
  bool interesting = false;
  for (size_t i = 0; i < n; i++) {
    string method = GenRequestMethod(c, s.regs);
    string path = GenPath(c, s.regs, false, s.dense);
    Answer a = RefLookup(s.regs, s.opt, method, path);
    Method got = m->Lookup(method, path);
    c.note("request %s %s -> %s (expected %s, %d candidates of %d ranks)", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), Name(a.reg).c_str(), a.candidates, a.distinct_ranks);
    CheckBest(c, a, got, method, path);
    {
      std::vector<gt::VariableBinding> vb;
      string body;
      CheckBest(c, a, m->Lookup(method, path, "", &vb, &body), method, path);
    }
    Method got2 = m2->Lookup(method, path);
    if (got2 != got) c.fail(pbt::Format("Lookup(%s, %s) returns %s, but %s when the templates are registered in another order", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), Name(got2).c_str()));
    // Without the templates that do not match this request (keeping one user of
    // each verb so that verb recognition stays the same) nothing changes.
    if (a.reg && c.chance(1, 4)) {
      vector<const Reg*> keep;
      std::set<string> verbs;
      for (const Reg& r : s.regs) {
        bool match = Matches(r, a, method);
        if (match || (!r.tmpl.verb.empty() && verbs.insert(r.tmpl.verb).second)) keep.push_back(&r);
      }
      auto m3 = sut::Build(c, keep, s.opt);
      Method got3 = m3->Lookup(method, path);
      c.label("request:non-matching-templates-removed");
      if (got3 != got) c.fail(pbt::Format("Lookup(%s, %s) returns %s, but %s when templates that do not match it are not registered", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), Name(got3).c_str()));
    }
    h = pbt::HashStr(path, pbt::HashStr(method, h));
    if (a.candidates > 1) {
      interesting = true;
      c.label(a.distinct_ranks > 2 ? "request:3+ranks" : a.distinct_ranks == 2 ? "request:2-ranks" : "request:method-vs-any-method");
    }
    // A more specific template exists for another method only.
    bool hole = false;
    if (a.reg) {
      vector<int> best = Rank(a.reg->tmpl, a.match);
      for (const Reg& r : s.regs) {
        if (r.method == method || r.method == "*" || r.tmpl.verb != a.req.verb) continue;
        Match mm = MatchTemplate(r.tmpl, a.req.parts);
        if (mm.ok && Rank(r.tmpl, mm) < best) hole = true;
      }
    }
    if (hole) {
      interesting = true;
      c.label("request:method-hole");
    }
  }
  c.evaluations(n);
  if (interesting) c.nontrivial(h);
}

// ------------------------------------------------------------- C08 verbs

PBT(C08, verbs, 130000, 6000000) {
  Scenario s = GenScenario(c, false, 5);
  Describe(c, s);
  auto m = sut::Build(c, s.regs, s.opt);
  std::set<string> verbs;
  for (const Reg& r : s.regs)
    if (!r.tmpl.verb.empty()) verbs.insert(r.tmpl.verb);
  size_t n = 2 + c.below(8);
  uint64_t h = HashRegs(s.regs);
  bool interesting = false;
  for (size_t i = 0; i < n; i++) {
    string method = GenRequestMethod(c, s.regs);
    string path = GenPath(c, s.regs, false, s.dense);
    switch (c.below(8)) {
      case 0: {  // colon in an inner segment
        size_t p = path.find('/', 1);
        if (p != string::npos) path.insert(p, ":" + GenVerb(c, true));
        break;
      }
      case 1:
        if (path.find('?') == string::npos) path += ":" + GenVerb(c, true);
        break;
      case 2:  // method that swallows the verb, or the verb the method
        if (!verbs.empty()) {
          string v = *verbs.begin();
          if (c.coin())
            method += v;
          else if (method.size() > 1 && path.find('?') == string::npos) {
            path += ":" + method.substr(method.size() - 1);
            method.pop_back();
          }
        }
        break;
      case 3:
        if (path.find('?') == string::npos) path += c.pickc({":", "::", ":/", ":v:", ":v/", "?:v", "/:v"});
        break;
      default: break;
    }
    Answer a = RefLookup(s.regs, s.opt, method, path);
    std::vector<gt::VariableBinding> vb;
    string body;
    Method got = m->Lookup(method, path, "", &vb, &body);
    c.note("request %s %s -> %s (expected %s; verb %s)", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), Name(a.reg).c_str(), a.req.has_verb ? pbt::Show(a.req.verb).c_str() : "-");
    if (got != a.reg) c.fail(pbt::Format("Lookup(%s, %s) returned %s, expected %s (verb of the request: %s)", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), Name(a.reg).c_str(), a.req.has_verb ? pbt::Show(a.req.verb).c_str() : "none"));
    if (got) {
      vector<Binding> want = RefBindings(a, s.opt, "");
      if (!(FromSut(vb) == want)) c.fail(pbt::Format("Lookup(%s, %s) bound %s, expected %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), ShowBindings(FromSut(vb)).c_str(), ShowBindings(want).c_str()));
    }
    h = pbt::HashStr(path, pbt::HashStr(method, h));
    bool colon = path.substr(0, path.find('?')).find(':') != string::npos;
    if (a.req.has_verb) c.label(a.reg ? "request:verb-matched" : "request:verb-unmatched");
    else if (colon) c.label(a.reg ? "request:colon-kept-matched" : "request:colon-kept-unmatched");
    if (a.reg && a.reg->method == "*" && a.req.has_verb) c.label("request:any-method-with-verb");
    if (colon && (a.req.has_verb || a.reg)) interesting = true;
  }
  c.evaluations(n);
  if (interesting) c.nontrivial(h);
}
