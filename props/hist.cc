// C09: registration histories; C11: lookup is pure.
#include "sut.h"

using namespace model;
using namespace sut;

namespace {

string GenInvalid(Case& c, const vector<Reg>& regs) {
  // Text near a template that the grammar does not derive.
  for (int attempt = 0; attempt < 3; attempt++) {
    TmplGen g;
    g.exotic = c.coin();
    g.verb_of_8 = 4;
    Tmpl t = !regs.empty() && c.coin() ? regs[c.below(regs.size())].tmpl : GenTmpl(c, g);
    string s = Print(t);
    string verb = c.coin() ? ":" + GenVerb(c, false) : "";
    switch (c.below(9)) {
      case 0: s += "/" + verb; break;
      case 1: s += "//x" + verb; break;
      case 2: s += "/**/**" + verb; break;
      case 3: s += "/{" + verb; break;
      case 4: s += "}"; break;
      case 5: s = s.substr(1); break;
      case 6: s += "/{a={b}}" + verb; break;
      case 7: s += "/***" + verb; break;
      default: s = s.substr(0, c.below(s.size() + 1)); break;
    }
    if (!RefParser::Parse(s)) return s;
  }
  return "";
}

}  // namespace

PBT(C09, histories, 110000, 5000000) {
  Options opt = GenOptions(c);
  pbt::Fresh<Builder> b_at;
  Builder& b = *b_at;
  SetOptions(c, &b, opt);
  TmplGen g;
  bool dense = c.chance(2, 3);
  g.dense = dense;
  g.exotic = !dense;
  if (dense) g.max_segs = 5;
  bool fail_dup = false;
  vector<std::unique_ptr<Reg>> storage;
  vector<Reg> regs;          // every valid attempt; storage[i] is its method
  vector<string> lost_verbs; // verbs that only occur in refused text
  size_t n = 2 + c.size(30);
  uint64_t h = 0;
  int refused = 0, dups = 0, invalid = 0;
  if (c.verbose) c.note("options: %s", ShowOptions(opt).c_str());
  if (c.chance(1, 4000)) {  // many registrations before anything happens
    AddFillers(c, 1 + c.raw(2500), &regs);
    for (const Reg& r : regs) {
      storage.emplace_back(new Reg(r));
      if (!sut::RegisterOne(&b, *storage.back())) c.fail(pbt::Format("Register(%s, %s) returned 0, it is registration %d", pbt::Show(r.method).c_str(), pbt::Show(Print(r.tmpl)).c_str(), r.id));
    }
    c.note("%zu plain registrations", regs.size());
  }
  for (size_t i = 0; i < n; i++) {
    size_t op = c.weighted({6, 4, 3, 2});
    if (op == 1 && regs.empty()) op = 0;
    switch (op) {
      case 0:
      case 1: {
        Reg r;
        if (op == 1) {  // likely a duplicate: same shape, other variables
          r = regs[c.below(regs.size())];
          GenVars(c, &r.tmpl, g);
          if (c.chance(1, 4)) r.method = GenMethod(c, true, dense);
          if (c.chance(1, 8)) r.tmpl.verb = r.tmpl.verb.empty() ? GenVerb(c, false) : "";
        } else {
          r.tmpl = !regs.empty() && c.coin() ? GenNear(c, regs[c.below(regs.size())].tmpl, g) : GenTmpl(c, g);
          r.method = GenMethod(c, true, dense);
        }
        if (r.tmpl.root) r.tmpl.verb.clear();
        r.id = static_cast<int>(regs.size()) + 1;
        r.body = "body" + std::to_string(r.id);
        bool dup = false;
        for (const Reg& o : regs) dup = dup || SameRoute(o, r);
        storage.emplace_back(new Reg(r));
        bool want = !(dup && fail_dup);
        bool got = sut::RegisterOne(&b, *storage.back());
        c.note("Register(%s, %s) -> %d   [#%d%s]", pbt::Show(r.method).c_str(), pbt::Show(Print(r.tmpl)).c_str(), got, r.id, dup ? ", duplicate" : "");
        if (got != want) c.fail(pbt::Format("Register(%s, %s) returned %d, expected %d (%s, fail-on-duplicate %s)", pbt::Show(r.method).c_str(), pbt::Show(Print(r.tmpl)).c_str(), got, want, dup ? "a duplicate" : "not registered before", fail_dup ? "on" : "off"));
        regs.push_back(r);
        h = pbt::HashStr(Print(r.tmpl), pbt::HashStr(r.method, h));
        if (dup) dups++;
        if (!want) refused++;
        break;
      }
      case 2: {
        string s = GenInvalid(c, regs);
        string method = GenMethod(c, true, dense);
        Reg dummy;
        bool got = b.Register(method, s, "b", &dummy);
        c.note("Register(%s, %s) -> %d   [invalid]", pbt::Show(method).c_str(), pbt::Show(s).c_str(), got);
        if (got) c.fail(pbt::Format("Register accepted the invalid template %s", pbt::Show(s).c_str()));
        invalid++;
        size_t p = s.rfind(':');
        if (p != string::npos && s.find('/', p) == string::npos && s.find('}', p) == string::npos) lost_verbs.push_back(s.substr(p + 1));
        h = pbt::HashStr(s, h);
        break;
      }
      default:
        fail_dup = !fail_dup;
        b.SetFailRegistrationOnDuplicate(fail_dup);
        c.note("SetFailRegistrationOnDuplicate(%d)", fail_dup);
        break;
    }
  }
  auto m = b.Build();
  size_t k = 4 + c.below(10);
  for (size_t i = 0; i < k; i++) {
    string method = !regs.empty() && !c.chance(1, 6) ? regs[c.below(regs.size())].method : GenMethod(c, true, dense);
    if (method == "*") method = "GET";
    string path = GenPath(c, regs, false, dense);
    if (!lost_verbs.empty() && c.chance(1, 5) && path.find('?') == string::npos) path += ":" + c.pick(lost_verbs);
    Answer a = RefLookup(regs, opt, method, path);
    Method want = a.reg ? storage[a.reg->id - 1].get() : nullptr;
    vector<gt::VariableBinding> vb;
    string body;
    Method got = c.coin() ? m->Lookup(method, path, "", &vb, &body) : m->Lookup(method, path);
    c.note("Lookup(%s, %s) -> %s (expected %s%s)", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), Name(want).c_str(), a.ambiguous ? ", ambiguous" : "");
    if (got != want) c.fail(pbt::Format("Lookup(%s, %s) returned %s, expected %s%s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(got).c_str(), Name(want).c_str(), a.ambiguous ? " (the winning route was registered more than once)" : ""));
    Method again = m->Lookup(method, path);
    if (again != got) c.fail("the same lookup gives different answers");
    if (a.ambiguous) {
      c.label(a.distinct_ranks > 1 ? "request:ambiguous-over-less-specific" : "request:ambiguous");
    } else {
      c.label(a.reg ? "request:matched" : "request:no-match");
    }
    h = pbt::HashStr(path, h);
  }
  c.evaluations(n + k);
  if (dups) c.label("history:duplicates");
  if (refused) c.label("history:refused-duplicates");
  if (invalid) c.label("history:invalid-templates");
  if (dups + invalid > 0) c.nontrivial(h);
}

// Registering invalid text between good registrations changes nothing: compare
// with a builder that never saw it.
PBT(C09, invalid_without_effect, 60000, 2500000) {
  ConfigGen g;
  g.max_regs = 10;
  g.fillers = true;
  g.allow_duplicates = c.chance(1, 3);
  if (c.coin()) MakeDense(&g);
  vector<Reg> regs = GenRegs(c, g);
  Options opt = GenOptions(c);
  Builder b1, b2;
  SetOptions(c, &b1, opt);
  SetOptions(c, &b2, opt);
  vector<string> bad;
  uint64_t h = HashRegs(regs);
  for (const Reg& r : regs) {
    while (c.chance(1, 2) && bad.size() < 8) {
      bad.push_back(GenInvalid(c, regs));
      Reg dummy;
      c.check(!b1.Register(r.method, bad.back(), "x", &dummy), "Register accepted the invalid template " + pbt::Show(bad.back()));
      h = pbt::HashStr(bad.back(), h);
      c.note("refused: %s", pbt::Show(bad.back()).c_str());
    }
    sut::RegisterOne(&b1, r);
    sut::RegisterOne(&b2, r);
  }
  if (c.verbose) c.note_str(ShowRegs(regs));
  auto m1 = b1.Build(), m2 = b2.Build();
  size_t k = 4 + c.below(8);
  for (size_t i = 0; i < k; i++) {
    string method = regs[c.below(regs.size())].method;
    string path = GenPath(c, regs, false, g.tg.dense);
    if (!bad.empty() && c.chance(1, 3)) {
      // A request spelled like the refused text.
      path = c.pick(bad);
      if (path.empty() || path[0] != '/') path = "/" + path;
    }
    vector<gt::VariableBinding> v1, v2;
    string d1, d2;
    Method r1 = m1->Lookup(method, path, "", &v1, &d1), r2 = m2->Lookup(method, path, "", &v2, &d2);
    c.note("Lookup(%s, %s) -> %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(r1).c_str());
    if (r1 != r2 || d1 != d2 || !(FromSut(v1) == FromSut(v2))) c.fail(pbt::Format("Lookup(%s, %s) gives %s, without the refused registrations %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(r1).c_str(), Name(r2).c_str()));
  }
  c.evaluations(k);
  if (!bad.empty()) c.nontrivial(h);
}

PBT(C11, pure_lookup, 110000, 5000000) {
  ConfigGen g;
  g.max_regs = 24;
  g.fillers = true;
  g.sys_params = true;
  g.allow_duplicates = c.chance(1, 3);
  if (c.coin()) MakeDense(&g);
  g.tg.vars_of_8 = 5;
  vector<Reg> regs = GenRegs(c, g);
  Options opt = GenOptions(c);
  if (c.verbose) {
    c.note("options: %s", ShowOptions(opt).c_str());
    c.note_str(ShowRegs(regs));
  }
  auto m = sut::Build(c, regs, opt);
  struct Req {
    string method, path, query;
    Answer a;
    vector<Binding> want;
  };
  vector<Req> reqs;
  size_t n = 2 + c.below(6);
  uint64_t h = HashRegs(regs);
  for (size_t i = 0; i < n; i++) {
    Req q;
    q.method = c.chance(5, 6) ? regs[c.below(regs.size())].method : GenMethod(c, true);
    q.path = GenPath(c, regs, true, g.tg.dense);
    if (c.coin()) q.query = GenQuery(c, {"key", "x", "name"});
    q.a = RefLookup(regs, opt, q.method, q.path);
    if (q.a.reg) q.want = RefBindings(q.a, opt, q.query);
    reqs.push_back(q);
    h = pbt::HashStr(q.path, pbt::HashStr(q.query, h));
  }
  // A history of lookups with arbitrary output arguments, which keep the
  // results of earlier lookups.
  vector<gt::VariableBinding> vb = Junk(2);
  string body = "stale";
  size_t steps = 4 + c.below(12);
  int hits = 0, misses = 0;
  std::map<int, Method> seen;
  for (size_t i = 0; i < steps; i++) {
    int idx = static_cast<int>(c.below(reqs.size()));
    const Req& q = reqs[idx];
    vector<gt::VariableBinding> before_vb = vb;
    string before_body = body;
    Method got;
    size_t form = c.weighted({5, 2, 1, 1, 1});
    switch (form) {
      case 1: got = m->Lookup(q.method, q.path); break;
      case 2: got = m->Lookup(q.method, q.path, q.query, nullptr, &body); break;
      case 3: got = m->Lookup(q.method, q.path, q.query, &vb, nullptr); break;
      case 4: got = m->Lookup(q.method, q.path, q.query, nullptr, nullptr); break;
      default: got = m->Lookup(q.method, q.path, q.query, &vb, &body); break;
    }
    c.note("Lookup form %zu (%s, %s, query %s) -> %s %s body=%s", form, pbt::Show(q.method).c_str(), pbt::Show(q.path).c_str(), pbt::Show(q.query).c_str(), Name(got).c_str(), ShowBindings(FromSut(vb)).c_str(), pbt::Show(body).c_str());
    string what = pbt::Format("Lookup(%s, %s, %s) call form %zu", pbt::Show(q.method).c_str(), pbt::Show(q.path).c_str(), pbt::Show(q.query).c_str(), form);
    auto it = seen.find(idx);
    if (it != seen.end() && it->second != got) c.fail(what + ": answer changed from " + Name(it->second) + " to " + Name(got));
    seen[idx] = got;
    if (got != q.a.reg) c.fail(what + ": returned " + Name(got) + ", expected " + Name(q.a.reg));
    const bool vb_given = form == 0 || form == 3, body_given = form == 0 || form == 2;
    if (got && vb_given) {
      if (!(FromSut(vb) == q.want)) c.fail(what + ": bindings " + ShowBindings(FromSut(vb)) + ", expected exactly " + ShowBindings(q.want));
    } else if (!(FromSut(vb) == FromSut(before_vb))) {
      c.fail(what + ": changed the caller's bindings although there was no match");
    }
    if (got && body_given) {
      if (body != got->body) c.fail(what + ": body field path " + pbt::Show(body) + ", expected " + pbt::Show(got->body));
    } else if (body != before_body) {
      c.fail(what + ": changed the caller's body field path although there was no match");
    }
    (got ? hits : misses)++;
  }
  c.evaluations(steps);
  if (hits) c.label("history:hits");
  if (misses) c.label("history:misses");
  if (hits && misses) c.label("history:both");
  if (hits) c.nontrivial(h);
}
