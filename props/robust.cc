// C16: no crash, no undefined behaviour, no hang, no exponential lookup.
// Built with ASan + UBSan, libstdc++ assertions and an edge counter.
#include "framing.h"
#include "grpc_transcoding/percent_encoding.h"
#include "sut.h"

using namespace model;
using namespace sut;

namespace {

// Bytes over an alphabet that makes structured accidents likely.
string Soup(Case& c, const char* alphabet, size_t max) {
  size_t n = c.size(max);
  string s;
  const size_t k = strlen(alphabet);
  for (size_t i = 0; i < n; i++) {
    if (c.chance(1, 12))
      s += static_cast<char>(c.below(256));
    else
      s += alphabet[c.below(k)];
  }
  return s;
}

string Repeat(const string& s, size_t n) {
  string o;
  o.reserve(s.size() * n);
  for (size_t i = 0; i < n; i++) o += s;
  return o;
}

string AnyTemplate(Case& c) {
  switch (c.weighted({4, 3, 2, 1})) {
    case 0: return Soup(c, "/{}*:=.ab", 60);
    case 1: {
      string s = Print(GenTmpl(c, TmplGen()));
      size_t edits = 1 + c.below(3);
      for (size_t e = 0; e < edits; e++) {
        size_t i = c.below(s.size() + 1);
        switch (c.below(3)) {
          case 0: s.insert(i, 1, "/{}*:=.a"[c.below(8)]); break;
          case 1: s = s.substr(0, i); break;
          default:
            if (i < s.size()) s[i] = "/{}*:=.a"[c.below(8)];
        }
      }
      return s;
    }
    case 2: return Print(GenTmpl(c, TmplGen()));
    default: {
      static const vector<string> unit = {"/a", "/*", "/{x}", "/{x=a/*}", "{", "}", "/", ":", "*", ".", "=", "/**", "a", "/{a.b.c=*}"};
      string s = Repeat(c.pick(unit), c.below(600));
      s += Soup(c, "/{}*:=.ab", 8);
      if (c.chance(1, 8)) s = "/" + string(c.below(70000), c.pickc({"a", "{", "*", ".", "\xff"})[0]);
      return s;
    }
  }
}

string AnyPath(Case& c) {
  switch (c.weighted({4, 2, 1, 1})) {
    case 0: return Soup(c, "/ab*{}:=.?%2F&+", 60);
    case 1: return Soup(c, "/", 40) + Soup(c, "ab*:?", 10);
    case 2: return GenBytes(c, 60, "");
    default: {
      static const vector<string> unit = {"/a", "/", "/*", "/**", "%", "%41", ":", "/:", "?", "/%2F", "a:b"};
      return Repeat(c.pick(unit), c.below(c.thorough ? 20000 : 6000)) + Soup(c, "/ab*:?", 6);
    }
  }
}

}  // namespace

PBT(C16, parse, 120000, 6000000) {
  const string t = AnyTemplate(c);
  c.note("Parse(%s)", pbt::Show(t).c_str());
  auto h = gt::HttpTemplate::Parse(t);
  uint64_t sum = 0;
  if (h) {
    for (auto& s : h->segments()) sum += s.size();
    for (auto& v : h->Variables())
      for (auto& f : v.field_path) sum += f.size();
    sum += h->verb().size();
    c.label("template:accepted");
  } else {
    c.label("template:refused");
  }
  if (t.size() > 1000) c.label("template:over-1000-bytes");
  if (t.size() > 2) c.nontrivial(pbt::HashStr(t, sum & 1));
}

PBT(C16, decode, 120000, 6000000) {
  string s = c.coin() ? GenEncoded(c, 40) : Soup(c, "%+/0aF2", 40);
  if (c.chance(1, 50)) s = Repeat(s, c.below(2000));
  // An exact-size allocation: any read beyond the end is a sanitizer report.
  std::unique_ptr<char[]> p(pbt::Bytes(s.size()));
  memcpy(p.get(), s.data(), s.size());
  absl::string_view v(p.get(), s.size());
  c.note("decode %s", pbt::Show(s).c_str());
  for (int spec = 0; spec < 3; spec++)
    for (int plus = 0; plus < 2; plus++) {
      string out = gt::UrlUnescapeString(v, ToSpec(static_cast<model::Spec>(spec)), plus != 0);
      if (out.size() > s.size()) c.fail("decoding made the string longer");
    }
  c.evaluations(6);
  if (s.find('%') != string::npos) c.nontrivial(pbt::HashStr(s));
}

PBT(C16, lookup, 60000, 3000000) {
  pbt::Fresh<Builder> b_at;
  Builder& b = *b_at;
  if (c.coin()) b.SetMatchUnregisteredCustomVerb(true);
  if (c.coin()) b.SetQueryParamUnescapePlus(true);
  if (c.coin()) b.SetFailRegistrationOnDuplicate(true);
  b.SetUrlUnescapeSpec(ToSpec(static_cast<model::Spec>(c.below(3))));
  static const Reg kReg = Reg();
  size_t n = 1 + c.size(12), ok = 0;
  uint64_t h = 0;
  vector<string> ts;
  for (size_t i = 0; i < n; i++) {
    string t = c.chance(1, 3) ? AnyTemplate(c) : Print(GenTmpl(c, TmplGen()));
    string m = c.chance(1, 6) ? Soup(c, "GET*:/", 6) : c.pickc({"GET", "*", "POST"});
    c.note("Register(%s, %s)", pbt::Show(m).c_str(), pbt::Show(t).c_str());
    if (b.Register(m, t, c.coin() ? "*" : "", {"key"}, &kReg)) {
      ok++;
      ts.push_back(t);
    }
    h = pbt::HashStr(t, h);
  }
  auto m = b.Build();
  size_t found = 0;
  const size_t k = 1 + c.below(8);
  for (size_t i = 0; i < k; i++) {
    string path = AnyPath(c);
    if (!ts.empty() && c.coin()) path = c.pick(ts) + (c.coin() ? Soup(c, "/ab*:?%", 6) : "");
    string method = c.chance(1, 6) ? Soup(c, "GET*:/", 6) : c.pickc({"GET", "*", "POST"});
    string query = c.coin() ? GenQuery(c, {"key", "a"}) : Soup(c, "&=%+.a", 30);
    if (c.chance(1, 60)) query = Repeat(query, c.below(500));
    c.note("Lookup(%s, %s, %s)", pbt::Show(method).c_str(), pbt::Show(path).c_str(), pbt::Show(query).c_str());
    vector<gt::VariableBinding> vb = Junk(static_cast<int>(c.below(2)));
    string body = "stale";
    if (m->Lookup(method, path, query, &vb, &body)) found++;
    Method other = m->Lookup(method, path);
    (void)other;
    h = pbt::HashStr(path, pbt::HashStr(query, h));
  }
  if (found) c.label("request:matched");
  c.evaluations(k);
  if (ok) c.nontrivial(h);
}

// The number of executed edges per lookup against a polynomial.
namespace {
// Each trie node is visited at most once per request position and each visit
// does a constant number of child lookups, so nodes*positions is the cost of a
// sane search. The constant leaves a factor of more than 20 to the worst lookup
// observed.
uint64_t WorkBound(uint64_t nodes, uint64_t parts, uint64_t bytes) { return 2000 * (nodes + 2) * (parts + 2) + 400 * (bytes + 64); }
}  // namespace

PBT_NOFUZZ(C16, lookup_cost, 20000, 600000) {
  if (!pbt::WorkAvailable()) c.fail("built without the edge counter");
  pbt::Fresh<Builder> b_at;
  Builder& b = *b_at;
  static const Reg kReg = Reg();
  // A family of templates that overlap as much as possible; requests that
  // match all of them but for their end.
  const size_t depth = 2 + c.below(c.thorough ? 60 : 40);
  const size_t n = 1 + c.below(10);
  const vector<string> alpha = c.coin() ? vector<string>{"a", "b"} : c.coin() ? vector<string>{"*", "a"} : vector<string>{"**", "*", "a"};
  uint64_t nodes = 1;
  size_t registered = 0;
  uint64_t h = depth;
  const bool unreg = c.chance(1, 4);
  if (unreg) b.SetMatchUnregisteredCustomVerb(true);
  for (size_t i = 0; i < n; i++) {
    string t;
    // Most templates end in something the requests never have.
    size_t ss = c.chance(1, 3) ? c.below(depth) : depth;
    const unsigned stars = static_cast<unsigned>(c.below(5));  // of 4: how many "*"
    for (size_t k = 0; k < depth; k++) {
      t += "/";
      if (k == ss) t += "**";
      else if (k < ss && c.chance(stars, 4)) t += "*";
      else t += c.chance(1, 6) ? "b" : "a";
    }
    if (!c.chance(1, 6)) t += "/end";
    if (c.chance(1, 6)) t += ":v";
    c.note("Register(GET, %s)", t.c_str());
    if (b.Register(c.chance(1, 5) ? "*" : "GET", t, "", &kReg)) {
      nodes += depth + 1;
      registered++;
    }
    h = pbt::HashStr(t, h);
  }
  if (c.chance(1, 8)) b.Register("GET", "/**", "", &kReg), nodes++;
  auto m = b.Build();
  size_t len = depth;
  switch (c.below(4)) {
    case 0: len = depth + c.below(3); break;
    case 1: len = c.below(depth + 1); break;
    case 2: len = depth * 2; break;
    default: break;
  }
  string path;
  for (size_t i = 0; i < len; i++) path += "/" + c.pick(alpha);
  if (c.chance(1, 5)) path += c.pickc({"/end", ":v", "/", "/end:v", ":w"});
  c.note("Lookup(GET, %s)", path.c_str());
  h = pbt::HashStr(path, h);
  const uint64_t bound = WorkBound(nodes, len, path.size());
  pbt::WorkReset();
  Method r = m->Lookup("GET", path);
  const uint64_t w = pbt::Work();
  c.note("%llu edges executed, bound %llu, %s", (unsigned long long)w, (unsigned long long)bound, r ? "matched" : "not matched");
  if (w > bound) c.fail(pbt::Format("Lookup of a %zu segment path among %zu templates (%llu segments) executed %llu edges; a search linear in segments x request segments needs less than %llu", len, registered, (unsigned long long)nodes, (unsigned long long)w, (unsigned long long)bound));
  c.label(r ? "lookup:matched" : "lookup:not-matched");
  if (w * 400 > bound) c.label("cost:over-1/400-of-the-bound");
  if (w * 100 > bound) c.label("cost:over-1/100-of-the-bound");
  if (w * 20 > bound) c.label("cost:over-1/20-of-the-bound");
  if (registered) c.nontrivial(h);
}

// Long requests and long templates, and many templates.
PBT(C16, large, 600, 20000) {
  pbt::Fresh<Builder> b_at;
  Builder& b = *b_at;
  static const Reg kReg = Reg();
  const size_t kinds = c.below(4);
  const size_t depth = 1 + c.below(1000);
  static const vector<string> unit = {"/a", "/*", "/{x}", "/{y=a/*}"};
  string t = Repeat(c.pick(unit), depth / (1 + kinds));
  if (c.coin()) t += c.pickc({"/**", "/{x=**}", "/**/a:v", "/a:v", "/{x=a/**}"});
  bool ok = b.Register("GET", t, "", &kReg);
  b.Register("GET", "/{all=**}", "", &kReg);
  for (size_t i = 0, n = c.below(300); i < n; i++) b.Register("GET", "/a/" + std::to_string(i) + "/{x}/y", "", &kReg);
  auto m = b.Build();
  const size_t len = c.below(c.thorough ? 200000 : 60000);
  string path = Repeat(c.pickc({"/a", "/", "/*", "/**", "/%41", "/a:v"}), len);
  if (c.coin()) path = "/" + string(len, c.pickc({"a", "%", ":", "?", "\xff"})[0]);
  string query = Repeat(c.pickc({"x=1&", "&", "=", "a.", "%41", "a.b=%2"}), c.below(20000));
  c.note("template %s, path %s, query %s", pbt::Show(t, 40).c_str(), pbt::Show(path, 40).c_str(), pbt::Show(query, 40).c_str());
  vector<gt::VariableBinding> vb;
  string body;
  Method r = m->Lookup("GET", path, query, &vb, &body);
  if (ok) c.label("template:accepted");
  if (r) c.label("request:matched");
  c.nontrivial(pbt::HashStr(path, pbt::HashStr(t, query.size())));
}

// Any byte sequence as a gRPC stream, arriving in any pieces.
PBT(C16, frames, 80000, 4000000) {
  using namespace framing;
  Content content;
  string s = c.coin() ? Soup(c, "\x01\x02\x05", 60) : GenBytes(c, 40, "");
  if (c.coin())
    for (char& ch : s)
      if (c.chance(2, 3)) ch = static_cast<char>(c.below(8) ? 0 : 1 + c.below(4));
  content.Append(s);
  ScriptedStream in(&content);
  in.every_ = static_cast<int64_t>(c.below(8));
  if (c.chance(1, 5)) in.zero_every_ = 2;
  pbt::Fresh<gt::MessageReader> reader_at(&in);
  gt::MessageReader& reader = *reader_at;
  size_t messages = 0;
  c.note("bytes %s", pbt::Show(s).c_str());
  for (int step = 0; step < 400; step++) {
    if (in.arrived_ < content.size()) {
      in.arrived_ = std::min<int64_t>(content.size(), in.arrived_ + 1 + static_cast<int64_t>(c.below(7)));
    } else if (c.coin()) {
      in.finished_ = true;
    }
    gt::MessageAndGrpcFrame mf = reader.NextMessageAndGrpcFrame();
    if (mf.message) {
      messages++;
      const void* d;
      int n;
      uint64_t sum = 0;
      while (mf.message->Next(&d, &n)) {
        for (int i = 0; i < n; i++) sum += static_cast<const unsigned char*>(d)[i];
        if (n > 0 && c.chance(1, 8)) mf.message->BackUp(n > 1 ? 1 : 0);
      }
      (void)sum;
    }
    if (reader.Finished()) break;
  }
  if (in.finished_ && !reader.Finished()) c.fail("the reader does not reach its end after the input has finished");
  if (!in.misuse_.empty()) c.fail("the underlying stream was misused: " + in.misuse_);
  if (messages) c.label("stream:some-messages");
  c.label(reader.Status().ok() ? "stream:ok" : "stream:error");
  if (!s.empty()) c.nontrivial(pbt::HashStr(s, static_cast<uint64_t>(in.every_)));
}
