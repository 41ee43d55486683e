// C10: HttpRule registration.
#include "google/api/http.pb.h"
#include "grpc_transcoding/path_matcher_utility.h"
#include "sut.h"

using namespace model;
using namespace sut;
using google::api::HttpRule;

namespace {

string GenRulePath(Case& c, vector<string>* pool, bool dense) {
  if (!pool->empty() && c.chance(1, 4)) return c.pick(*pool);
  if (c.chance(1, 10)) return c.pickc({"", "a", "/a//b", "/{x", "/**/**", "/a/", "/{x={y}}", "/a:", "/***", "//"});
  TmplGen g;
  g.dense = dense;
  g.exotic = false;  // proto string fields hold UTF-8
  if (dense) g.max_segs = 4;
  string s = Print(GenTmpl(c, g));
  pool->push_back(s);
  return s;
}

void GenRule(Case& c, HttpRule* r, int depth, vector<string>* pool, bool dense) {
  string path = GenRulePath(c, pool, dense);
  switch (c.weighted({4, 2, 2, 2, 2, 3, 2})) {
    case 0: r->set_get(path); break;
    case 1: r->set_put(path); break;
    case 2: r->set_post(path); break;
    case 3: r->set_delete_(path); break;
    case 4: r->set_patch(path); break;
    case 5:
      r->mutable_custom()->set_kind(c.pickc({"HEAD", "*", "GET", "OPTIONS", "", "POST", "get"}));
      r->mutable_custom()->set_path(path);
      break;
    default: break;  // no pattern
  }
  if (c.chance(2, 3)) r->set_body(c.pickc({"*", "b", "a.b", "other", "x"}));
  if (c.chance(1, 4)) r->set_response_body(c.pickc({"resp", "*"}));
  if (c.chance(1, 4)) r->set_selector("some.Selector");
  if (depth < 40) {
    // Now and then a long list or a deep nest of bindings.
    size_t n = 0;
    if (depth < 3) n = c.chance(1, depth == 0 ? 2 : 3) ? 1 + c.below(depth == 0 && c.chance(1, 60) ? 80 : 4) : 0;
    else if (c.chance(depth == 3 ? 1 : 19, 20)) n = 1;
    for (size_t i = 0; i < n; i++) GenRule(c, r->add_additional_bindings(), depth + 1, pool, dense);
  }
}

struct Flat {
  string method, path, body;
};

// The statement of C10 as a function: the bindings of a rule in order.
void Flatten(const HttpRule& r, vector<Flat>* out) {
  Flat f;
  bool has = true;
  if (r.pattern_case() == HttpRule::kGet) f = Flat{"GET", r.get(), r.body()};
  else if (r.pattern_case() == HttpRule::kPut) f = Flat{"PUT", r.put(), r.body()};
  else if (r.pattern_case() == HttpRule::kPost) f = Flat{"POST", r.post(), r.body()};
  else if (r.pattern_case() == HttpRule::kDelete) f = Flat{"DELETE", r.delete_(), r.body()};
  else if (r.pattern_case() == HttpRule::kPatch) f = Flat{"PATCH", r.patch(), r.body()};
  else if (r.pattern_case() == HttpRule::kCustom) f = Flat{r.custom().kind(), r.custom().path(), r.body()};
  else has = false;
  if (has) out->push_back(f);
  for (int i = 0; i < r.additional_bindings_size(); i++) Flatten(r.additional_bindings(i), out);
}

}  // namespace

PBT(C10, rules, 70000, 3000000) {
  bool dense = c.chance(2, 3);
  Options opt = GenOptions(c);
  bool fail_dup = c.coin();
  Builder real, plain;
  SetOptions(c, &real, opt);
  SetOptions(c, &plain, opt);
  real.SetFailRegistrationOnDuplicate(fail_dup);
  plain.SetFailRegistrationOnDuplicate(fail_dup);
  size_t n = 1 + c.below(4);
  vector<std::unique_ptr<Reg>> methods;
  vector<Reg> regs;  // model; Reg::id is the rule's index + 1
  vector<string> pool;
  uint64_t h = 0;
  bool nested = false, failed_any = false, multi = false;
  if (c.verbose) c.note("options: %s fail-on-duplicate=%d", ShowOptions(opt).c_str(), fail_dup);
  for (size_t i = 0; i < n; i++) {
    HttpRule rule;
    GenRule(c, &rule, 0, &pool, dense);
    std::unordered_set<string> sys;
    if (c.coin()) sys = {"key", "x"};
    methods.emplace_back(new Reg);
    Method method = methods.back().get();
    methods.back()->id = static_cast<int>(i) + 1;
    const string before = rule.SerializeAsString();
    bool got = sys.empty() && c.coin() ? gt::PathMatcherUtility::RegisterByHttpRule(real, rule, method) : gt::PathMatcherUtility::RegisterByHttpRule(real, rule, sys, method);
    c.check(rule.SerializeAsString() == before, "RegisterByHttpRule changed the rule");
    vector<Flat> flat;
    Flatten(rule, &flat);
    bool want = true;
    for (const Flat& f : flat) {
      bool ok = plain.Register(f.method, f.path, f.body, sys, method);
      auto t = RefParser::Parse(f.path);
      bool model_ok = t != nullptr;
      if (t) {
        Reg r;
        r.method = f.method;
        r.tmpl = *t;
        r.body = f.body;
        r.sys.insert(sys.begin(), sys.end());
        r.id = static_cast<int>(i) + 1;
        bool dup = false;
        for (const Reg& o : regs) dup = dup || SameRoute(o, r);
        regs.push_back(r);
        if (dup && fail_dup) model_ok = false;
      }
      if (ok != model_ok) c.label("register-differs-from-model");  // C09's business
      if (!ok) {
        want = false;
        break;
      }
    }
    if (c.verbose) {
      string d = rule.ShortDebugString();
      c.note("rule %zu: %s -> %d", i + 1, d.c_str(), got);
    }
    if (got != want) c.fail(pbt::Format("RegisterByHttpRule(%s) returned %d, registering its bindings one by one %s", rule.ShortDebugString().c_str(), got, want ? "succeeds" : "fails"));
    if (!got) failed_any = true;
    if (flat.size() > 1) multi = true;
    for (auto& ab : rule.additional_bindings()) nested = nested || ab.additional_bindings_size() > 0;
    h = pbt::HashStr(before, h);
  }
  auto m1 = real.Build(), m2 = plain.Build();
  size_t k = 6 + c.below(8);
  for (size_t i = 0; i < k; i++) {
    string method = !regs.empty() && !c.chance(1, 8) ? regs[c.below(regs.size())].method : c.pickc({"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD"});
    string path = !pool.empty() && c.chance(1, 8) ? c.pick(pool) : GenPath(c, regs, false, dense);
    string query = c.coin() ? "" : "key=1&x=2&y=3";
    vector<gt::VariableBinding> v1, v2;
    string b1 = "stale", b2 = "stale";
    Method g1 = m1->Lookup(method, path, query, &v1, &b1);
    Method g2 = m2->Lookup(method, path, query, &v2, &b2);
    c.note("Lookup(%s, %s, %s) -> %s body=%s %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), pbt::Show(query).c_str(), Name(g1).c_str(), pbt::Show(b1).c_str(), ShowBindings(FromSut(v1)).c_str());
    if (g1 != g2 || b1 != b2 || !(FromSut(v1) == FromSut(v2))) c.fail(pbt::Format("Lookup(%s, %s, %s): rule %s, body %s, bindings %s; with the bindings registered one by one: rule %s, body %s, bindings %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), pbt::Show(query).c_str(), Name(g1).c_str(), pbt::Show(b1).c_str(), ShowBindings(FromSut(v1)).c_str(), Name(g2).c_str(), pbt::Show(b2).c_str(), ShowBindings(FromSut(v2)).c_str()));
    Answer a = RefLookup(regs, opt, method, path);
    if (g1 && a.reg && (a.reg->id != g1->id || a.reg->body != b1)) c.fail(pbt::Format("Lookup(%s, %s): rule %s with body %s, expected #%d with body %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(g1).c_str(), pbt::Show(b1).c_str(), a.reg->id, pbt::Show(a.reg->body).c_str()));
    if ((g1 != nullptr) != (a.reg != nullptr)) c.fail(pbt::Format("Lookup(%s, %s) returned %s, the rules' bindings say %s", pbt::Show(method).c_str(), pbt::Show(path).c_str(), Name(g1).c_str(), a.reg ? "there is a match" : "there is none"));
    c.label(g1 ? "request:matched" : a.ambiguous ? "request:ambiguous" : "request:no-match");
  }
  c.evaluations(n + k);
  if (nested) c.label("rules:nested-additional-bindings");
  if (failed_any) c.label("rules:failing-rule");
  if (multi) c.label("rules:several-bindings");
  if (multi) c.nontrivial(h);
}
