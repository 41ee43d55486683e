// C05, C07: bindings.
#include "sut.h"

using namespace model;
using namespace sut;

namespace {
const char* FragmentOf(const Tmpl& t, const Var& v) {
  int ss = t.starstar();
  if (ss < 0) return v.end - v.start > 1 ? "var:multi-segment" : t.segs[v.start].kind == Seg::kLit ? "var:single-literal" : "var:single";
  if (v.start > ss) return "var:after-starstar";
  if (v.end <= ss) return "var:before-starstar";
  return "var:contains-starstar";
}
}  // namespace

PBT(C05, path_bindings, 220000, 10000000) {
  ConfigGen g;
  g.tg.vars_of_8 = 8;
  g.tg.verb_of_8 = 1;
  g.tg.starstar_of_8 = 4;
  g.max_regs = 6;
  vector<Reg> regs = GenRegs(c, g);
  Options opt = GenOptions(c);
  if (c.verbose) {
    c.note("options: %s", ShowOptions(opt).c_str());
    c.note_str(ShowRegs(regs));
  }
  auto m = sut::Build(c, regs, opt);
  size_t n = 1 + c.below(6);
  uint64_t h = HashRegs(regs);
  bool interesting = false;
  for (size_t i = 0; i < n; i++) {
    const Reg& target = regs[c.below(regs.size())];
    string path;
    if (c.chance(5, 6)) {
      path = JoinPath(GenPartsFor(c, target.tmpl, true));
      if (!target.tmpl.verb.empty()) path += ":" + target.tmpl.verb;
    } else {
      path = GenPath(c, regs, true);
    }
    if (c.chance(1, 16)) path += c.pickc({"/", "//", "?x=y", "?/z"});
    string method = target.method == "*" ? "GET" : target.method;
    Answer a = RefLookup(regs, opt, method, path);
    vector<gt::VariableBinding> vb = Junk(static_cast<int>(c.below(3)));
    string body = "stale";
    string query = c.chance(1, 4) ? "q1=v%2f1&q2=2" : "";
    Method got = m->Lookup(method, path, query, &vb, &body);
    if (got != a.reg) {
      c.label("request:routed-elsewhere");  // C03/C04 territory
      continue;
    }
    if (!got) {
      c.label("request:no-match");
      continue;
    }
    vector<Binding> want = PathBindings(a.reg->tmpl, a.match, a.req.parts, opt.spec);
    vector<Binding> have = FromSut(vb);
    c.note("request %s %s (query %s) -> %s %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), pbt::Show(query).c_str(), Name(got).c_str(), ShowBindings(have).c_str());
    const size_t extra = query.empty() ? 0 : 2;
    if (have.size() < extra) c.fail("query bindings are missing");
    vector<Binding> have_path(have.begin(), have.size() > want.size() ? have.begin() + want.size() : have.end());
    if (!(have_path == want) || have.size() != want.size() + extra) c.fail(pbt::Format("template %s, path %s, %s: bindings %s, expected %s%s", pbt::Show(Print(a.reg->tmpl)).c_str(), pbt::Show(path).c_str(), ShowOptions(opt).c_str(), ShowBindings(have).c_str(), ShowBindings(want).c_str(), extra ? " followed by q1, q2" : ""));
    // Independent of the model's decoding: the full-mode encoding of the raw
    // text is invisible to single-segment variables.
    h = pbt::HashStr(path, h);
    for (const Var& v : a.reg->tmpl.vars) {
      c.label(FragmentOf(a.reg->tmpl, v));
      interesting = true;
    }
    if (a.reg->tmpl.starstar() >= 0 && a.match.begin[a.reg->tmpl.starstar()] == a.match.begin[a.reg->tmpl.starstar() + 1]) c.label("match:starstar-empty");
  }
  c.evaluations(n);
  if (interesting) c.nontrivial(h);
}

// Metamorphic: what is percent-encoded into a single-segment variable comes out
// again, for every byte string, and identically for all path options.
PBT(C05, encode_roundtrip, 60000, 3000000) {
  static const char* kUp = "0123456789ABCDEF";
  static const char* kLo = "0123456789abcdef";
  string value = c.chance(1, 12) ? string() : GenBytes(c, c.chance(1, 10) ? 400 : 20, "");
  string enc;
  for (unsigned char b : value) {
    bool must = b == '/' || b == '%' || b == '?' || b == ':';
    if (must || c.coin()) {
      const char* d = c.coin() ? kUp : kLo;
      enc += '%';
      enc += d[b >> 4];
      enc += d[b & 15];
    } else {
      enc += static_cast<char>(b);
    }
  }
  if (enc.empty()) {
    c.label("value:empty");
    return;
  }
  Reg r;
  r.id = 1;
  r.method = "GET";
  r.tmpl = *RefParser::Parse(c.pickc({"/p/{f.g}", "/{f.g}/q", "/p/{f.g=*}/q:v", "/{a}/{f.g}", "/p/{f.g}/**", "/{f.g}/{z=**}"}));
  vector<string> parts;
  int which = -1;
  for (size_t i = 0; i < r.tmpl.vars.size(); i++)
    if (JoinField(r.tmpl.vars[i].field) == "f.g") which = static_cast<int>(i);
  for (size_t i = 0; i < r.tmpl.segs.size(); i++) {
    if (static_cast<int>(i) == r.tmpl.vars[which].start)
      parts.push_back(enc);
    else if (r.tmpl.segs[i].kind == Seg::kLit)
      parts.push_back(r.tmpl.segs[i].lit);
    else
      parts.push_back("s");
  }
  Options opt = GenOptions(c);
  pbt::Fresh<Builder> b_at;
  Builder& b = *b_at;
  SetOptions(c, &b, opt);
  c.check(RegisterOne(&b, r), "Register of a valid template returned false");
  auto m = b.Build();
  string path = JoinPath(parts) + (r.tmpl.verb.empty() ? "" : ":" + r.tmpl.verb);
  vector<gt::VariableBinding> vb;
  string body;
  Method got = m->Lookup("GET", path, "", &vb, &body);
  c.note("%s %s %s", pbt::Show(Print(r.tmpl)).c_str(), pbt::Show(path).c_str(), got ? ShowBindings(FromSut(vb)).c_str() : "no match");
  if (!got) c.fail(pbt::Format("template %s does not match %s", pbt::Show(Print(r.tmpl)).c_str(), pbt::Show(path).c_str()));
  c.check(static_cast<int>(vb.size()) == static_cast<int>(r.tmpl.vars.size()), "wrong number of bindings");
  if (vb[which].value != value) c.fail(pbt::Format("template %s, path %s: variable f.g is %s, but %s was encoded", pbt::Show(Print(r.tmpl)).c_str(), pbt::Show(path).c_str(), pbt::Show(vb[which].value).c_str(), pbt::Show(value).c_str()));
  c.nontrivial(pbt::HashStr(enc));
}

PBT(C07, query_bindings, 220000, 10000000) {
  ConfigGen g;
  g.tg.vars_of_8 = 2;
  g.tg.max_segs = 4;
  g.tg.exotic = false;
  g.max_regs = 5;
  g.sys_params = true;
  vector<Reg> regs = GenRegs(c, g);
  Options opt = GenOptions(c);
  if (c.verbose) {
    c.note("options: %s", ShowOptions(opt).c_str());
    c.note_str(ShowRegs(regs));
  }
  auto m = sut::Build(c, regs, opt);
  vector<string> names = {"key", "x", "a.b", "name", "$alt", "%61", "api_key"};
  for (const Reg& r : regs)
    for (auto& s : r.sys) names.push_back(s);
  size_t n = 1 + c.below(6);
  uint64_t h = HashRegs(regs);
  bool interesting = false;
  for (size_t i = 0; i < n; i++) {
    const Reg& target = regs[c.below(regs.size())];
    string path = JoinPath(GenPartsFor(c, target.tmpl, false));
    if (!target.tmpl.verb.empty()) path += ":" + target.tmpl.verb;
    // A query inside the path is not a source of bindings.
    if (c.chance(1, 16)) path += "?x=1&y=2";
    string method = target.method == "*" ? "GET" : target.method;
    string query = GenQuery(c, names);
    Answer a = RefLookup(regs, opt, method, path);
    vector<gt::VariableBinding> vb = Junk(static_cast<int>(c.below(3)));
    string body;
    Method got = m->Lookup(method, path, query, &vb, &body);
    if (got != a.reg || !got) {
      c.label(got == a.reg ? "request:no-match" : "request:routed-elsewhere");
      continue;
    }
    vector<Binding> have = FromSut(vb);
    const size_t npath = a.reg->tmpl.vars.size();
    vector<Binding> want = QueryBindings(query, a.reg->sys, opt.plus);
    c.note("request %s %s query %s -> %s %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), pbt::Show(query).c_str(), Name(got).c_str(), ShowBindings(have).c_str());
    vector<Binding> have_q;
    if (have.size() >= npath) have_q.assign(have.begin() + npath, have.end());
    if (have.size() < npath || !(have_q == want)) c.fail(pbt::Format("query %s (%s): bindings %s after %zu path binding(s), expected %s", pbt::Show(query).c_str(), ShowOptions(opt).c_str(), ShowBindings(have).c_str(), npath, ShowBindings(want).c_str()));
    for (size_t k = 0; k < npath; k++)
      if (have[k].field != a.reg->tmpl.vars[k].field) c.fail("path bindings do not come first");
    h = pbt::HashStr(query, h);
    vector<Binding> all = QueryBindings(query, {}, opt.plus);
    if (all.size() != want.size()) c.label("query:system-parameter-dropped");
    if (!want.empty()) {
      c.label(want.size() > 1 ? "query:several-bindings" : "query:one-binding");
      interesting = true;
    } else {
      c.label("query:no-binding");
    }
    bool other_sys = false;
    for (const Reg& r : regs)
      if (&r != a.reg)
        for (const Binding& b : want) other_sys = other_sys || r.sys.count(JoinField(b.field));
    if (other_sys) c.label("query:system-parameter-of-another-method-kept");
    if (opt.plus && query.find('+') != string::npos) c.label("query:plus-decoded");
  }
  c.evaluations(n);
  if (interesting) c.nontrivial(h);
}

// C06 seen through Lookup: the decoder is applied once, in the right mode.
PBT(C06, through_lookup, 60000, 3000000) {
  Reg r;
  r.id = 1;
  r.method = "GET";
  r.tmpl = *RefParser::Parse("/s/{one}/m/{two=*/k/*}/{rest=**}");
  Options opt = GenOptions(c);
  opt.unregistered_verb = false;
  pbt::Fresh<Builder> b_at;
  Builder& b = *b_at;
  SetOptions(c, &b, opt);
  c.check(RegisterOne(&b, r), "Register of a valid template returned false");
  auto m = b.Build();
  auto enc = [&] {
    string s = GenEncoded(c, 8);
    for (char& ch : s)
      if (ch == '?' || ch == '/') ch = '_';
    return s;
  };
  string one = enc(), two_a = enc(), two_b = enc(), q = enc();
  vector<string> rest;
  size_t n = c.below(5);
  for (size_t i = 0; i < n; i++) rest.push_back(enc());
  while (!rest.empty() && rest.back().empty()) rest.pop_back();
  if (rest.empty() && two_b.empty()) two_b = "e";
  string path = "/s/" + one + "/m/" + two_a + "/k/" + two_b;
  string want_rest;
  for (size_t i = 0; i < rest.size(); i++) {
    path += "/" + rest[i];
    want_rest += (i ? "/" : "") + RefDecode(rest[i], opt.spec, false);
  }
  for (char& ch : q)
    if (ch == '&') ch = '_';
  vector<gt::VariableBinding> vb;
  string body;
  Method got = m->Lookup("GET", path, "f=" + q, &vb, &body);
  c.note("%s path %s query f=%s -> %s", ShowOptions(opt).c_str(), pbt::Show(path).c_str(), pbt::Show(q).c_str(), got ? ShowBindings(FromSut(vb)).c_str() : "no match");
  if (!got || vb.size() != 4) c.fail(pbt::Format("no match or wrong number of bindings for %s", pbt::Show(path).c_str()));
  const string want[4] = {RefDecode(one, kAll, false), RefDecode(two_a, opt.spec, false) + "/k/" + RefDecode(two_b, opt.spec, false), want_rest, RefDecode(q, kAll, opt.plus)};
  for (int i = 0; i < 4; i++)
    if (vb[i].value != want[i]) c.fail(pbt::Format("%s, path %s, query f=%s: binding %d is %s, expected %s", ShowOptions(opt).c_str(), pbt::Show(path).c_str(), pbt::Show(q).c_str(), i, pbt::Show(vb[i].value).c_str(), pbt::Show(want[i]).c_str()));
  if (path.find('%') != string::npos) c.nontrivial(pbt::HashStr(path));
}
