// C24: the modules together. A request is looked up, its bindings are resolved
// and woven into its body, and the messages go back through the response side.
#include "google/api/http.pb.h"
#include "grpc_transcoding/path_matcher_utility.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "req.h"
#include "sut.h"

using google::api::HttpRule;

namespace {

using namespace cv;
typedef cv::Binding Bound;
typedef gt::PathMatcherBuilder<const int*> RuleBuilder;

bool Unreserved(char x) { return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || (x >= '0' && x <= '9') || x == '-' || x == '_' || x == '.' || x == '~'; }

void Escape(Case& c, char x, string* out) { *out += Format(c.coin() ? "%%%02x" : "%%%02X", static_cast<unsigned char>(x)); }

// A value as it may stand in one path segment.
string PathText(Case& c, const string& v) {
  string s;
  for (char x : v) {
    // What would end the segment or the path, start an escape or look like a verb is escaped.
    const bool must = x == '/' || x == '?' || x == '%' || x == ':' || x == '#';
    if (must || c.chance(1, Unreserved(x) ? 12 : 2)) Escape(c, x, &s); else s += x;
  }
  return s;
}
string QueryText(Case& c, const string& v, bool plus) {
  string s;
  for (char x : v) {
    if (plus && x == ' ' && c.coin()) {
      s += '+';
      continue;
    }
    const bool must = x == '&' || x == '%' || x == '#' || (plus && x == '+');
    if (must || c.chance(1, Unreserved(x) ? 12 : 2)) Escape(c, x, &s); else s += x;
  }
  return s;
}

string Names(Case& c, const Path& p) {
  string s;
  for (const FD* f : p) s += (s.empty() ? "" : ".") + (c.coin() ? f->json_name() : f->name());
  return s;
}

struct Http {
  string tmpl, method, path, query, kind;
  size_t path_vars = 0, multi = 0;
};

void SetPattern(Case& c, HttpRule* r, const string& kind, const string& path) {
  if (kind == "GET" && c.chance(7, 8)) r->set_get(path);
  else if (kind == "PUT" && c.chance(7, 8)) r->set_put(path);
  else if (kind == "POST" && c.chance(7, 8)) r->set_post(path);
  else if (kind == "DELETE" && c.chance(7, 8)) r->set_delete_(path);
  else if (kind == "PATCH" && c.chance(7, 8)) r->set_patch(path);
  else {
    r->mutable_custom()->set_kind(kind);
    r->mutable_custom()->set_path(path);
  }
}

// Distributes the bindings over path and query; reorders q->bindings into the
// order in which they must come back.
Http GenHttp(Case& c, Request* q, const model::Options& opt, const std::unordered_set<string>& sys) {
  static const vector<string> lits = {"shelves", "books", "a", "x", "name", "*.txt", "v2"};
  Http h;
  h.kind = c.pickc({"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "*", "post"});
  h.method = h.kind == "*" ? c.pickc({"GET", "POST", "OPTIONS", "*"}) : h.kind;
  vector<Bound> in_path, in_query;
  std::set<string> used;
  h.tmpl = "/v1";
  h.path = "/v1";
  bool rest = false;  // a "**" was placed
  for (Bound& b : q->bindings) {
    const FD* leaf = b.path.back();
    const bool text = leaf->cpp_type() == FD::CPPTYPE_STRING && leaf->type() != FD::TYPE_BYTES;
    if (rest || b.value.empty() || !used.insert(b.key).second || c.chance(1, 3)) {
      in_query.push_back(b);
      continue;
    }
    if (c.coin()) {
      const string l = c.pickc({"shelves", "books", "a", "x", "name"});
      h.tmpl += "/" + l;
      h.path += "/" + l;
    } else if (c.chance(1, 6)) {
      h.tmpl += "/*";
      h.path += c.coin() ? "/anything" : "/a%2Fb";
    }
    string name = Names(c, b.path);
    if (text && c.chance(1, 2)) {
      // Several segments: the value is made to fit.
      const size_t kind = c.below(5);
      vector<string> pat, val;
      auto word = [&] {
        string w;
        for (size_t n = 1 + c.below(5); n > 0; n--) w += "abcxyz019-_.~"[c.below(13)];
        return w;
      };
      switch (kind) {
        case 0: pat = {"*", "*"}; val = {word(), word()}; break;
        case 1: pat = {"books", "*"}; val = {"books", word()}; break;
        case 2: pat = {"*", "books", "*"}; val = {word(), "books", word()}; break;
        default: {
          pat = {"**"};
          if (kind == 4) pat.insert(pat.begin(), "shelves"), val.push_back("shelves");
          for (size_t n = 1 + c.below(3); n > 0; n--) val.push_back(word());
          rest = true;
        }
      }
      string p, v, e;
      for (const string& s : pat) p += (p.empty() ? "" : "/") + s;
      for (const string& s : val) {
        v += (v.empty() ? "" : "/") + s;
        e += "/";
        for (char x : s)
          if (s != "books" && s != "shelves" && c.chance(1, 10)) Escape(c, x, &e); else e += x;
      }
      b.value = v;
      if (b.holder) {
        Message* m = b.holder.get();
        const Reflection* r = m->GetReflection();
        if (leaf->is_repeated()) r->SetRepeatedString(m, leaf, r->FieldSize(*m, leaf) - 1, v);
        else r->SetString(m, leaf, v);
      }
      h.tmpl += "/{" + name + "=" + p + "}";
      h.path += e;
      h.multi++;
    } else {
      h.tmpl += "/{" + name + (c.coin() ? "=*}" : "}");
      h.path += "/" + PathText(c, b.value);
    }
    in_path.push_back(b);
  }
  if (c.chance(1, 3)) {
    const string l = c.pickc({"shelves", "books", "end"});
    h.tmpl += "/" + l;
    h.path += "/" + l;
  }
  if (c.chance(1, 4)) {
    const string v = c.pickc({"cancel", "v", "GET"});
    h.tmpl += ":" + v;
    h.path += ":" + v;
  } else if (c.chance(1, 8)) {
    h.path += "/";
  }
  h.path_vars = in_path.size();
  // The query, with parameters that are not bindings in between.
  if (in_query.size() > 1 && c.coin()) {
    // Repeated paths must stay in order; everything else may move.
    std::stable_sort(in_query.begin(), in_query.end(), [](const Bound& a, const Bound& b) { return a.key < b.key; });
  }
  auto junk = [&] {
    string s;
    while (c.chance(1, 4)) s += (s.empty() ? "" : "&") + (sys.empty() || c.coin() ? string(c.pickc({"novalue", "", "=x", "="})) : *sys.begin() + "=" + c.pickc({"", "abc", "%41"}));
    return s;
  };
  for (const Bound& b : in_query) {
    string j = junk();
    if (!j.empty()) h.query += (h.query.empty() ? "" : "&") + j;
    string name = Names(c, b.path);
    if (c.chance(1, 8)) {
      string e;
      for (char x : name)
        if (x != '.' && c.chance(1, 4)) Escape(c, x, &e); else e += x;
      name = e;
    }
    h.query += (h.query.empty() ? "" : "&") + name + "=" + QueryText(c, b.value, opt.plus);
  }
  string j = junk();
  if (!j.empty()) h.query += (h.query.empty() ? "" : "&") + j;
  q->bindings = in_path;
  q->bindings.insert(q->bindings.end(), in_query.begin(), in_query.end());
  return h;
}

// Reads the texts of the response side while the request's text arrives.
void Echo(Case& c, const Request& q, const gt::RequestInfo& info, const vector<string>& messages) {
  framing::Script script;
  script.content.Append(q.text);
  script.total = script.content.size();
  framing::ScriptedStream in(&script.content);
  JsonCuts(c, script.total, &in);
  pbt::Fresh<gt::JsonRequestTranslator> t_at(Helper().Resolver(), &in, info, q.streaming, true);
  gt::JsonRequestTranslator& t = *t_at;
  auto stream = t.Output().CreateInputStream();
  pbt::Fresh<gt::JsonResponseTranslateOptions> opts_at;
  gt::JsonResponseTranslateOptions& opts = *opts_at;
  opts.stream_newline_delimited = c.chance(1, 3);
  opts.json_print_options.preserve_proto_field_names = c.chance(1, 3);
  opts.json_print_options.always_print_enums_as_ints = c.chance(1, 3);
  const string url = kUrl + string("conv.Msg");
  pbt::Fresh<gt::ResponseToJsonTranslator> back_at(Helper().Resolver(), url, q.streaming, stream.get(), opts);
  gt::ResponseToJsonTranslator& back = *back_at;
  vector<string> want;
  for (size_t i = 0; i < messages.size(); i++) {
    const string payload = messages[i].substr(5);
    string json;
    absl::Status st = [&] {
      pb::io::ArrayInputStream bytes(payload.data(), static_cast<int>(payload.size()));
      pb::io::StringOutputStream out(&json);
      return absl::Status(pb::util::BinaryToJsonStream(Helper().Resolver(), url, &bytes, &out, opts.json_print_options));
    }();
    if (!st.ok()) c.fail("the translated message has no JSON form: " + st.ToString());
    // Every message came from JSON, so its JSON is the same message again.
    conv::Msg m, n;
    m.ParsePartialFromString(payload);
    if (Det(m) == payload) {
      auto st = pb::util::JsonStringToMessage(json, &n);
      if (!st.ok() || !Same(m, n)) c.fail("test generator: the converter does not read its own text " + Show(json, 500));
      c.label("read back as a message");
    }
    want.push_back(!q.streaming ? json : opts.stream_newline_delimited ? json + "\n" : (i ? "," : "[") + json);
  }
  if (q.streaming) want.push_back(opts.stream_newline_delimited ? "" : messages.empty() ? "[]" : "]");  // the end is reported too
  size_t got = 0;
  int idle = 0;
  for (int step = 0;; step++) {
    if (step > 100000) c.fail("the response side makes no progress");
    const bool hurry = step > 1000;
    if (in.arrived_ < script.total) {
      if (hurry || !c.chance(1, 4)) {
        in.arrived_ = hurry || c.chance(1, 4) ? script.total : framing::GenArrival(c, script, in.arrived_);
        if (in.arrived_ == script.total && c.coin()) in.finished_ = true;
      }
    } else if (!in.finished_) {
      if (hurry || !c.chance(1, 4)) in.finished_ = true;
    }
    string m = "stale";
    if (back.NextMessage(&m)) {
      idle = 0;
      if (got >= want.size()) c.fail("more text than messages: " + Show(m, 400));
      if (m != want[got]) c.fail(Format("text %zu is %s, expected %s", got, Show(m, 500).c_str(), Show(want[got], 500).c_str()));
      got++;
      continue;
    }
    if (!back.Status().ok()) c.fail("error on the response side: " + back.Status().ToString() + " (request side: " + t.Output().Status().ToString() + ")");
    if (back.Finished()) break;
    if (in.finished_ && in.pos_ == script.total && ++idle > 12) break;
  }
  if (got != want.size()) c.fail(Format("%zu of %zu texts came back", got, want.size()));
  if (!back.Finished()) c.fail("the response side is not Finished()");
  if (!t.Output().Status().ok()) c.fail("error on the request side: " + t.Output().Status().ToString());
  if (!in.misuse_.empty()) c.fail("the input stream is misused: " + in.misuse_);
}

}  // namespace

PBT(C24, request_and_back, 20000, 400000) {
  ChooseHelper(c);
  Request q;
  q.streaming = c.chance(1, 3);
  q.delimiters = true;
  q.enum_case = c.chance(1, 4);
  if (c.chance(1, 3)) GenBodyPath(c, &q);
  else q.body_field_path = c.coin() ? "*" : "";
  GenOpts o;
  o.fields = c.coin() ? 6 : 3;
  Style st = GenStyle(c);
  const size_t n = q.streaming ? 1 + c.size(3) : 1;
  for (size_t i = 0; i < n; i++) GenElement(c, &q, st, o);
  GenBindings(c, &q, 6, o);
  // The rule and its request.
  const model::Options opt = sut::GenOptions(c);
  std::unordered_set<string> sys;
  if (c.coin()) sys = {"key", "$alt"};
  const Http h = GenHttp(c, &q, opt, sys);
  Assemble(c, &q, st);
  q.first.CopyFrom(q.elements[0]->msg);
  Weave(q, q.elements[0].get(), &q.first);
  NoteRequest(c, q);
  c.note("rule %s %s; request %s %s query %s", h.kind.c_str(), h.tmpl.c_str(), h.method.c_str(), Show(h.path).c_str(), Show(h.query).c_str());
  // The rule among others that must not win.
  static const int kIds[4] = {0, 1, 2, 3};
  HttpRule rules[4];
  const int target = static_cast<int>(c.below(4));
  for (int i = 0; i < 4; i++) {
    HttpRule* r = &rules[i];
    r->set_body(c.pickc({"*", "child", "", "inner.text"}));
    switch (i == target ? c.below(2) : 2 + c.below(4)) {
      case 0: break;
      case 1: SetPattern(c, r, "GET", Format("/v%d/other", i + 10)); break;
      case 2: SetPattern(c, r, c.pickc({"GET", "PUT", "*"}), Format("/v1%d/{name}", i)); break;
      case 3: SetPattern(c, r, "*", Format("/**/no%d", i)); break;
      case 4: if (h.kind != "*") SetPattern(c, r, Format("NO%d", i), h.tmpl); break;
      default: SetPattern(c, r, "GET", Format("/{name=w%d/**}", i)); break;
    }
    if (i != target) continue;
    HttpRule* mine = r;
    if (r->pattern_case() != HttpRule::PATTERN_NOT_SET || c.chance(1, 3)) {
      if (c.chance(1, 3)) SetPattern(c, r->add_additional_bindings(), "POST", "/v99/more");
      mine = r->add_additional_bindings();
    }
    SetPattern(c, mine, h.kind, h.tmpl);
    mine->set_body(q.body_field_path);
    if (c.chance(1, 4)) SetPattern(c, r->add_additional_bindings(), "POST", "/v98/more/{name}");
  }
  pbt::Fresh<RuleBuilder> b_at;
  RuleBuilder& b = *b_at;
  sut::SetOptions(c, &b, opt);
  for (int i = 0; i < 4; i++)
    if (!gt::PathMatcherUtility::RegisterByHttpRule(b, rules[i], sys, &kIds[i])) c.fail("RegisterByHttpRule fails for " + rules[i].ShortDebugString());
  auto matcher = b.Build();
  vector<gt::VariableBinding> found;
  string body_path = "stale";
  const int* who = matcher->Lookup(h.method, h.path, h.query, &found, &body_path);
  if (who != &kIds[target]) c.fail(Format("Lookup(%s, %s) finds rule %d, expected %d: %s", h.method.c_str(), Show(h.path).c_str(), who ? *who : -1, target, rules[target].ShortDebugString().c_str()));
  // From the matcher's answer to the translator's input, as a proxy does it.
  pbt::Fresh<gt::RequestInfo> info_at;
  gt::RequestInfo& info = *info_at;
  info.message_type = TypeOf(conv::Msg::descriptor());
  info.body_field_path = body_path;
  if (c.coin()) info.reject_binding_body_field_collisions = false;  // its default
  if (q.enum_case || c.coin()) info.case_insensitive_enum_parsing = q.enum_case;
  const bool dotted = c.coin();
  for (const auto& v : found) {
    gt::RequestWeaver::BindingInfo bi;
    string path;
    for (const string& s : v.field_path) path += (path.empty() ? "" : ".") + s;
    auto st = dotted ? Helper().ResolveFieldPath(*info.message_type, path, &bi.field_path) : Helper().ResolveFieldPath(*info.message_type, v.field_path, &bi.field_path);
    if (!st.ok()) c.fail("the binding of " + Show(path) + " does not resolve: " + st.ToString());
    bi.value = v.value;
    info.variable_bindings.push_back(std::move(bi));
  }
  const Outcome r = Translate(c, q, q.text, &info);
  ExpectValid(c, q, r);
  Echo(c, q, info, r.messages);
  c.label(q.streaming ? "streaming" : "unary");
  if (!found.empty()) c.label(h.path_vars == 0 ? "query bindings only" : h.path_vars == found.size() ? "path bindings only" : "path and query bindings");
  if (h.multi) c.label("a variable of several segments");
  if (!q.body_path.empty()) c.label("a body field");
  if (!found.empty()) c.nontrivial(pbt::HashStr(h.path + "?" + h.query, pbt::HashStr(q.text, q.streaming)));
}
