// Adaptor between the reference model's data and the real path matcher.
#ifndef SUT_H_
#define SUT_H_

#include <memory>
#include <string>
#include <unordered_set>
#include <vector>

#include "grpc_transcoding/http_template.h"
#include "grpc_transcoding/path_matcher.h"
#include "model.h"

namespace sut {

namespace gt = google::grpc::transcoding;
using model::Binding;
using model::Options;
using model::Reg;
using std::string;
using std::vector;

typedef const Reg* Method;
typedef gt::PathMatcher<Method> Matcher;
typedef gt::PathMatcherBuilder<Method> Builder;

inline gt::UrlUnescapeSpec ToSpec(model::Spec s) {
  switch (s) {
    case model::kExceptReserved: return gt::UrlUnescapeSpec::kAllCharactersExceptReserved;
    case model::kExceptSlash: return gt::UrlUnescapeSpec::kAllCharactersExceptSlash;
    default: return gt::UrlUnescapeSpec::kAllCharacters;
  }
}

template <class B>
void PutOptions(B* b, const Options& o) {
  b->SetMatchUnregisteredCustomVerb(o.unregistered_verb);
  b->SetUrlUnescapeSpec(ToSpec(o.spec));
  b->SetQueryParamUnescapePlus(o.plus);
}

// Mostly leaves defaults alone when the option has its default value, so that
// the defaults are checked too. What was set last counts.
template <class B>
void SetOptions(pbt::Case& c, B* b, const Options& o) {
  const bool explicitly = c.chance(1, 3);
  if (explicitly && c.coin()) b->SetUrlUnescapeSpec(ToSpec(static_cast<model::Spec>(c.below(3))));
  if (explicitly && c.coin()) b->SetQueryParamUnescapePlus(c.coin());
  if (explicitly && c.coin()) b->SetMatchUnregisteredCustomVerb(c.coin());
  if (explicitly) return PutOptions(b, o);
  if (o.unregistered_verb) b->SetMatchUnregisteredCustomVerb(true);
  if (o.spec != model::kExceptReserved) b->SetUrlUnescapeSpec(ToSpec(o.spec));
  if (o.plus) b->SetQueryParamUnescapePlus(true);
}

inline bool RegisterOne(Builder* b, const Reg& r) {
  if (r.sys.empty() && r.id % 2 == 0) return b->Register(r.method, model::Print(r.tmpl), r.body, &r);
  return b->Register(r.method, model::Print(r.tmpl), r.body, std::unordered_set<string>(r.sys.begin(), r.sys.end()), &r);
}

inline std::unique_ptr<Matcher> Build(pbt::Case& c, const vector<const Reg*>& order, const Options& o) {
  pbt::Fresh<Builder> b_at;
  Builder& b = *b_at;
  const bool late = c.chance(1, 5);  // all that is set before Build() counts
  if (!late) SetOptions(c, &b, o);
  for (const Reg* r : order)
    if (!RegisterOne(&b, *r)) c.fail(pbt::Format("Register(%s, %s) of a valid template returned false", pbt::Show(r->method).c_str(), pbt::Show(model::Print(r->tmpl)).c_str()));
  if (late) SetOptions(c, &b, o);
  return b.Build();
}

inline std::unique_ptr<Matcher> Build(pbt::Case& c, const vector<Reg>& regs, const Options& o) {
  vector<const Reg*> v;
  for (const Reg& r : regs) v.push_back(&r);
  return Build(c, v, o);
}

inline vector<Binding> FromSut(const vector<gt::VariableBinding>& b) {
  vector<Binding> o;
  for (auto& x : b) {
    Binding y;
    y.field = x.field_path;
    y.value = x.value;
    o.push_back(y);
  }
  return o;
}

inline vector<gt::VariableBinding> Junk(int n) {
  vector<gt::VariableBinding> v;
  for (int i = 0; i < n; i++) {
    gt::VariableBinding b;
    b.field_path = {"stale", "binding"};
    b.value = "stale" + std::to_string(i);
    v.push_back(b);
  }
  return v;
}

inline string Name(Method m) { return m == nullptr ? "no method" : pbt::Format("#%d", m->id); }

inline Options GenOptions(pbt::Case& c) {
  Options o;
  o.spec = static_cast<model::Spec>(c.below(3));
  o.plus = c.coin();
  o.unregistered_verb = c.chance(1, 4);
  return o;
}

inline string ShowOptions(const Options& o) {
  static const char* kN[] = {"except-reserved", "except-slash", "all"};
  return pbt::Format("unescape=%s plus=%d match-unregistered-verb=%d", kN[o.spec], o.plus, o.unregistered_verb);
}

}  // namespace sut

#endif  // SUT_H_
