// C19, C20, C21 at the level of writer events: any sequence of events straight
// into the request weaver and the prefix writer.
#include "verif_shim.h"

#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/strings/escaping.h"
#include "google/protobuf/util/converter/object_writer.h"
#include "grpc_transcoding/prefix_writer.h"
#include "grpc_transcoding/request_weaver.h"
#include "grpc_transcoding/status_error_listener.h"
#include "pbt.h"

namespace {

namespace pb = google::protobuf;
namespace gt = google::grpc::transcoding;
using pbt::Case;
using pbt::Format;
using pbt::Show;
using std::string;
using std::vector;
typedef pb::util::converter::ObjectWriter Writer;

// One value as events describe it.
struct Node {
  enum Kind { kObject, kList, kBool, kInt32, kUint32, kInt64, kUint64, kDouble, kFloat, kString, kBytes, kNull } kind = kObject;
  string name;
  vector<Node> children;
  int64_t i = 0;
  uint64_t u = 0;
  double d = 0;
  string s;
};

string Print(const Node& n) {
  static const char* const names[] = {"object", "list", "bool", "int32", "uint32", "int64", "uint64", "double", "float", "string", "bytes", "null"};
  string r = Show(n.name) + ":";
  switch (n.kind) {
    case Node::kObject:
    case Node::kList: {
      r += n.kind == Node::kObject ? "{" : "[";
      for (const Node& k : n.children) r += " " + Print(k);
      return r + (n.kind == Node::kObject ? " }" : " ]");
    }
    case Node::kBool: return r + (n.i ? "true" : "false");
    case Node::kInt32:
    case Node::kInt64: return r + names[n.kind] + Format(" %lld", static_cast<long long>(n.i));
    case Node::kUint32:
    case Node::kUint64: return r + names[n.kind] + Format(" %llu", static_cast<unsigned long long>(n.u));
    case Node::kDouble:
    case Node::kFloat: return r + names[n.kind] + Format(" %.17g", n.d);
    case Node::kString:
    case Node::kBytes: return r + names[n.kind] + " " + Show(n.s);
    case Node::kNull: return r + "null";
  }
  return r;
}

bool SameValue(const Node& a, const Node& b) {
  return a.kind == b.kind && a.i == b.i && a.u == b.u && (a.d == b.d || (std::isnan(a.d) && std::isnan(b.d))) && a.s == b.s;
}
bool SameTree(const Node& a, const Node& b) {
  if (a.name != b.name || !SameValue(a, b) || a.children.size() != b.children.size()) return false;
  for (size_t k = 0; k < a.children.size(); k++)
    if (!SameTree(a.children[k], b.children[k])) return false;
  return true;
}

void Emit(const Node& n, Writer* w) {
  switch (n.kind) {
    case Node::kObject:
      w->StartObject(n.name);
      for (const Node& k : n.children) Emit(k, w);
      w->EndObject();
      break;
    case Node::kList:
      w->StartList(n.name);
      for (const Node& k : n.children) Emit(k, w);
      w->EndList();
      break;
    case Node::kBool: w->RenderBool(n.name, n.i != 0); break;
    case Node::kInt32: w->RenderInt32(n.name, static_cast<int32_t>(n.i)); break;
    case Node::kUint32: w->RenderUint32(n.name, static_cast<uint32_t>(n.u)); break;
    case Node::kInt64: w->RenderInt64(n.name, n.i); break;
    case Node::kUint64: w->RenderUint64(n.name, n.u); break;
    case Node::kDouble: w->RenderDouble(n.name, n.d); break;
    case Node::kFloat: w->RenderFloat(n.name, static_cast<float>(n.d)); break;
    case Node::kString: w->RenderString(n.name, n.s); break;
    case Node::kBytes: w->RenderBytes(n.name, n.s); break;
    case Node::kNull: w->RenderNull(n.name); break;
  }
}

// Builds the tree of the events it receives.
class Recorder : public Writer {
 public:
  Recorder() { open_.push_back(&root_); }
  Recorder* StartObject(absl::string_view name) override { return Open(name, Node::kObject); }
  Recorder* EndObject() override { return Close(Node::kObject); }
  Recorder* StartList(absl::string_view name) override { return Open(name, Node::kList); }
  Recorder* EndList() override { return Close(Node::kList); }
  Recorder* RenderBool(absl::string_view name, bool v) override { Add(name, Node::kBool)->i = v; return this; }
  Recorder* RenderInt32(absl::string_view name, int32_t v) override { Add(name, Node::kInt32)->i = v; return this; }
  Recorder* RenderUint32(absl::string_view name, uint32_t v) override { Add(name, Node::kUint32)->u = v; return this; }
  Recorder* RenderInt64(absl::string_view name, int64_t v) override { Add(name, Node::kInt64)->i = v; return this; }
  Recorder* RenderUint64(absl::string_view name, uint64_t v) override { Add(name, Node::kUint64)->u = v; return this; }
  Recorder* RenderDouble(absl::string_view name, double v) override { Add(name, Node::kDouble)->d = v; return this; }
  Recorder* RenderFloat(absl::string_view name, float v) override { Add(name, Node::kFloat)->d = v; return this; }
  Recorder* RenderString(absl::string_view name, absl::string_view v) override { Add(name, Node::kString)->s = string(v); return this; }
  Recorder* RenderBytes(absl::string_view name, absl::string_view v) override { Add(name, Node::kBytes)->s = string(v); return this; }
  Recorder* RenderNull(absl::string_view name) override { Add(name, Node::kNull); return this; }

  const vector<Node>& roots() const { return root_.children; }
  // Not empty if the events do not form values.
  string problem() const { return !problem_.empty() ? problem_ : open_.size() != 1 ? "a value is left open" : ""; }

 private:
  Node* Add(absl::string_view name, Node::Kind kind) {
    Node* top = open_.back();
    top->children.emplace_back();
    top->children.back().name = string(name);
    top->children.back().kind = kind;
    return &top->children.back();
  }
  Recorder* Open(absl::string_view name, Node::Kind kind) {
    open_.push_back(Add(name, kind));
    return this;
  }
  Recorder* Close(Node::Kind kind) {
    if (open_.size() < 2) problem_ = "the end of a value that was not started";
    else if (open_.back()->kind != kind) problem_ = "the end of another kind of value than the one started";
    if (open_.size() > 1) open_.pop_back();
    return this;
  }
  Node root_;
  vector<Node*> open_;  // the last child of each is the next: pointers stay valid
  string problem_;
};

// ------------------------------------------------------------------ values

int64_t GenInt(Case& c) {
  switch (c.below(4)) {
    case 0: return c.range(-3, 300);
    case 1: return static_cast<int64_t>(c.raw(UINT64_MAX));
    case 2: return static_cast<int64_t>((uint64_t{1} << c.below(64)) + c.below(3) - 1);
    default: return static_cast<int64_t>(~((uint64_t{1} << c.below(64)) + c.below(3)) + 1);
  }
}
double GenReal(Case& c) {
  switch (c.below(6)) {
    case 0: return static_cast<double>(c.range(-3, 300)) / 4;
    case 1: return static_cast<double>(GenInt(c));
    case 2: return (c.coin() ? 1 : -1) * std::ldexp(1.0 + static_cast<double>(c.below(1000)) / 1000, static_cast<int>(c.range(-300, 300)));
    case 3: return static_cast<double>(c.below(1000000)) / 1000;
    case 4: return c.coin() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
    default: return (c.coin() ? 1 : -1) * std::ldexp(1.0 + static_cast<double>(c.below(1000)) / 1000, static_cast<int>(c.range(120, 127)));
  }
}
string GenStr(Case& c) {
  static const vector<string> some = {"", "a", "b", "x y", "true", "1", "0", "null", "\xc3\xa9", "%41", "a.b", "{}", "1.0", "01"};
  string s = c.pick(some);
  size_t n = c.coin() ? 0 : c.size(12);
  for (size_t k = 0; k < n; k++) s += static_cast<char>(c.coin() ? 'a' + c.below(26) : c.below(256));
  return s;
}

// A scalar of random kind.
Node GenScalar(Case& c) {
  Node n;
  n.kind = static_cast<Node::Kind>(Node::kBool + c.below(10));
  switch (n.kind) {
    case Node::kBool: n.i = c.coin(); break;
    case Node::kInt32: n.i = static_cast<int32_t>(GenInt(c)); break;
    case Node::kInt64: n.i = GenInt(c); break;
    case Node::kUint32: n.u = static_cast<uint32_t>(GenInt(c)); break;
    case Node::kUint64: n.u = static_cast<uint64_t>(GenInt(c)); break;
    case Node::kDouble: n.d = GenReal(c); break;
    case Node::kFloat: n.d = static_cast<float>(GenReal(c)); break;
    case Node::kString:
    case Node::kBytes: n.s = GenStr(c); break;
    default: break;
  }
  return n;
}

// -------------------------------------------------------- fields and bindings

struct Def {
  pb::Field field;
  bool message = false, repeated = false;
  vector<std::unique_ptr<Def>> fields;
};

void GenFields(Case& c, int depth, vector<std::unique_ptr<Def>>* out) {
  // Names that start alike, and equal names at several depths.
  static const vector<std::pair<const char*, const char*>> names = {
      {"a", "a"}, {"b", "b"}, {"ab", "ab"}, {"a_b", "aB"}, {"name", "name"}, {"name_two", "nameTwo"}, {"own", "renamed"}, {"plain_name", ""}, {"key", "key"}, {"value", "value"}};
  size_t n = 1 + c.below(5);
  std::set<size_t> used;
  for (size_t k = 0; k < n; k++) {
    size_t w = c.below(names.size());
    if (!used.insert(w).second) continue;
    std::unique_ptr<Def> d(new Def);
    d->field.set_name(names[w].first);
    d->field.set_json_name(names[w].second);
    d->message = depth > 0 && c.chance(2, 5);
    d->repeated = c.chance(1, 4);
    d->field.set_cardinality(d->repeated ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL);
    d->field.set_kind(d->message ? pb::Field::TYPE_MESSAGE : pb::Field::TYPE_STRING);
    if (d->message) GenFields(c, depth - 1, &d->fields);
    out->push_back(std::move(d));
  }
}

string NameIn(Case& c, const Def& d) { return d.field.json_name().empty() || c.coin() ? d.field.name() : d.field.json_name(); }

Node GenObject(Case& c, const vector<std::unique_ptr<Def>>& fields, int depth, bool repeat_names);

Node GenBodyValue(Case& c, const Def& d, int depth, bool repeat_names) {
  Node v;
  if (c.chance(1, 10)) {
    v.kind = Node::kNull;
  } else if (d.repeated) {
    v.kind = Node::kList;
    size_t n = c.size(3);
    for (size_t k = 0; k < n; k++) {
      v.children.push_back(d.message ? GenObject(c, d.fields, depth - 1, repeat_names) : GenScalar(c));
      if (c.coin()) v.children.back().name = "";
    }
  } else if (d.message) {
    v = GenObject(c, d.fields, depth - 1, repeat_names);
  } else {
    v = GenScalar(c);
  }
  v.name = NameIn(c, d);
  return v;
}

// Things the message type does not have, with names it has elsewhere.
Node GenUnknown(Case& c, int depth) {
  Node v;
  size_t k = c.below(3);
  if (k == 0 || depth <= 0) {
    v = GenScalar(c);
  } else {
    v.kind = k == 1 ? Node::kObject : Node::kList;
    size_t n = c.size(3);
    for (size_t j = 0; j < n; j++) {
      v.children.push_back(GenUnknown(c, depth - 1));
      if (v.kind == Node::kList) v.children.back().name = "";
      else v.children.back().name = c.pickc({"a", "b", "ab", "name", "key", "renamed"});
    }
  }
  v.name = c.pickc({"zz", "A", "nam", "names", "a_", "name.", ""});
  return v;
}

Node GenObject(Case& c, const vector<std::unique_ptr<Def>>& fields, int depth, bool repeat_names) {
  Node o;
  vector<size_t> left;
  for (size_t k = 0; k < fields.size(); k++) left.push_back(k);
  size_t n = c.size(fields.size() + 1);
  for (size_t k = 0; k < n; k++) {
    if (c.chance(1, 8)) {
      o.children.push_back(GenUnknown(c, 2));
      continue;
    }
    if (left.empty()) break;
    size_t at = c.below(left.size());
    const Def& d = *fields[left[at]];
    o.children.push_back(GenBodyValue(c, d, depth, repeat_names));
    // A JSON text may name a field twice.
    if (!(repeat_names && c.chance(1, 4))) left.erase(left.begin() + static_cast<long>(at));
  }
  return o;
}

struct Bound {
  vector<const Def*> path;
  string value;
};

void GenBound(Case& c, const vector<std::unique_ptr<Def>>& fields, size_t max, vector<Bound>* out) {
  size_t n = c.size(max);
  std::set<const Def*> once;
  for (size_t k = 0; k < n; k++) {
    Bound b;
    const vector<std::unique_ptr<Def>>* at = &fields;
    for (;;) {
      const Def* d = (*at)[c.below(at->size())].get();
      b.path.push_back(d);
      if (!d->message) break;
      at = &d->fields;
    }
    if (!b.path.back()->repeated && !once.insert(b.path.back()).second && !c.chance(1, 3)) continue;
    b.value = GenStr(c);
    out->push_back(b);
  }
}

gt::RequestWeaver::BindingInfo Info(const Bound& b) {
  gt::RequestWeaver::BindingInfo i;
  for (const Def* d : b.path) i.field_path.push_back(&d->field);
  i.value = b.value;
  return i;
}

string PathOf(const Bound& b) {
  string s;
  for (const Def* d : b.path) s += (s.empty() ? "" : ".") + d->field.name();
  return s;
}

// ------------------------------------------------------------- C19's oracle

bool Names(const string& name, const Def* d) { return name == d->field.name() || (!d->field.json_name().empty() && name == d->field.json_name()); }

// Checks `got` against the body's object `body` with the bindings `bound`,
// whose paths have been followed up to `depth`.  `body` is null for an object
// that only the bindings make.
void CheckObject(Case& c, const Node* body, const Node& got, vector<Bound> bound, size_t depth, const string& where) {
  // What is woven in here: leaves and messages.
  std::map<const Def*, vector<string>> leaves;
  std::map<const Def*, vector<Bound>> messages;
  for (const Bound& b : bound) {
    if (b.path.size() == depth + 1) leaves[b.path.back()].push_back(b.value);
    else messages[b.path[depth]].push_back(b);
  }
  // The body's children in order; others are woven in.
  vector<const Node*> extra;
  size_t next = 0;
  const size_t body_n = body ? body->children.size() : 0;
  vector<char> woven_leaf_seen;
  for (const Node& g : got.children) {
    // A child of the body, if it can be.
    if (next < body_n && g.name == body->children[next].name) {
      const Node& b = body->children[next];
      const Def* message = nullptr;
      for (auto& m : messages)
        if (b.kind == Node::kObject && Names(b.name, m.first)) message = m.first;
      if (message && g.kind == Node::kObject) {
        CheckObject(c, &b, g, messages[message], depth + 1, where + "/" + b.name);
        messages.erase(message);
        next++;
        continue;
      }
      if (SameTree(g, b)) {
        // The body's value of a singular field stays, the binding's is not added.
        for (auto& l : leaves)
          if (Names(b.name, l.first) && !l.first->repeated && b.kind != Node::kNull && b.kind != Node::kObject && b.kind != Node::kList) l.second.clear();
        next++;
        continue;
      }
    }
    extra.push_back(&g);
  }
  if (next != body_n) c.fail("in " + where + ": the body's " + Print(body->children[next]) + " is lost or misplaced: " + Print(got));
  for (const Node* g : extra) {
    bool found = false;
    for (auto& l : leaves) {
      if (l.second.empty() || !Names(g->name, l.first)) continue;
      // Of several values of a singular field the last one counts; the others
      // may come out before it.
      if (!l.first->repeated && g->kind == Node::kString) {
        auto at = std::find(l.second.begin(), l.second.end(), g->s);
        if (at != l.second.end()) l.second.erase(l.second.begin(), at);
      }
      if (g->kind != Node::kString || g->s != l.second.front()) c.fail("in " + where + ": " + Print(*g) + " where the binding value " + Show(l.second.front()) + " is expected");
      l.second.erase(l.second.begin());
      found = true;
      break;
    }
    if (found) continue;
    for (auto& m : messages) {
      if (!Names(g->name, m.first) || g->kind != Node::kObject) continue;
      CheckObject(c, nullptr, *g, m.second, depth + 1, where + "/" + g->name);
      messages.erase(m.first);
      found = true;
      break;
    }
    if (!found) c.fail("in " + where + ": " + Print(*g) + " comes from neither the body nor a binding");
  }
  for (auto& l : leaves)
    if (!l.second.empty()) c.fail("in " + where + ": the binding value " + Show(l.second.front()) + " of " + l.first->field.name() + " is missing: " + Print(got));
  for (auto& m : messages) c.fail("in " + where + ": the object " + m.first->field.name() + " with binding values is missing: " + Print(got));
}

}  // namespace

namespace {

// Just the events.
class Log : public Writer {
 public:
  vector<string> log;
  typedef absl::string_view V;
  Log* StartObject(V n) override { return Add(string(n) + ":{"); }
  Log* EndObject() override { return Add("}"); }
  Log* StartList(V n) override { return Add(string(n) + ":["); }
  Log* EndList() override { return Add("]"); }
  Log* RenderBool(V n, bool) override { return Add(string(n) + ":bool"); }
  Log* RenderInt32(V n, int32_t) override { return Add(string(n) + ":int32"); }
  Log* RenderUint32(V n, uint32_t) override { return Add(string(n) + ":uint32"); }
  Log* RenderInt64(V n, int64_t) override { return Add(string(n) + ":int64"); }
  Log* RenderUint64(V n, uint64_t) override { return Add(string(n) + ":uint64"); }
  Log* RenderDouble(V n, double) override { return Add(string(n) + ":double"); }
  Log* RenderFloat(V n, float) override { return Add(string(n) + ":float"); }
  Log* RenderString(V n, V v) override { return Add(string(n) + ":" + string(v)); }
  Log* RenderBytes(V n, V) override { return Add(string(n) + ":bytes"); }
  Log* RenderNull(V n) override { return Add(string(n) + ":null"); }

 private:
  Log* Add(string s) {
    log.push_back(std::move(s));
    return this;
  }
};

// A chain of objects and lists, nested so deep that no narrow counter fits.
struct Deep {
  string kinds;
  vector<string> names;
  void Gen(Case& c, const vector<const char*>& from) {
    static const vector<uint64_t> depths = {1, 3, 60, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 1000, 32767, 32768, 65534, 65535, 65536, 66000};
    uint64_t n = c.pick(depths);
    if (n > 1000 && !c.chance(1, 12)) n = 1 + c.below(600);
    const int style = static_cast<int>(c.below(3));
    const uint64_t seed = c.raw(UINT64_MAX);
    for (uint64_t i = 0; i < n; i++) {
      const uint64_t r = pbt::Mix(seed + i);
      kinds += style == 0 ? '{' : style == 1 ? '[' : r % 2 ? '{' : '[';
      names.push_back(from[(r >> 8) % from.size()]);
    }
  }
  void Start(Writer* w) const {
    for (size_t i = 0; i < kinds.size(); i++) {
      if (kinds[i] == '{') w->StartObject(names[i]);
      else w->StartList(names[i]);
    }
  }
  void End(Writer* w) const {
    for (size_t i = kinds.size(); i-- > 0;) {
      if (kinds[i] == '{') w->EndObject();
      else w->EndList();
    }
  }
};

void SameLog(Case& c, const vector<string>& got, const vector<string>& want) {
  for (size_t i = 0; i < got.size() || i < want.size(); i++) {
    const string g = i < got.size() ? got[i] : "nothing", w = i < want.size() ? want[i] : "nothing";
    if (g != w) c.fail(Format("event %zu is %s, expected %s", i, g.c_str(), w.c_str()));
  }
}

}  // namespace

// Bindings to the root while the body holds something nested very deep.
PBT(C19, woven_deep, 12000, 200000) {
  Deep d;
  d.Gen(c, {"a", "b", "x", "m"});
  if (d.names[0] == "m") d.names[0] = "x";  // nothing below is a message to weave into
  pb::Field a, m;
  a.set_name("a");
  a.set_json_name("a");
  m.set_name("m");
  m.set_json_name("m");
  m.set_kind(pb::Field::TYPE_MESSAGE);
  const bool with_m = c.coin(), before = c.coin();
  vector<gt::RequestWeaver::BindingInfo> infos = {{{&a}, "1"}};
  if (with_m) infos.push_back({{&m, &a}, "2"});
  c.note("%zu levels: %s...", d.kinds.size(), d.kinds.substr(0, 20).c_str());
  Log out, want;
  gt::StatusErrorListener listener;
  pbt::Fresh<gt::RequestWeaver> weaver_at(infos, &out, &listener, c.coin());
  gt::RequestWeaver& weaver = *weaver_at;
  for (Log* l : {&want, static_cast<Log*>(nullptr)}) {
    Writer* w = l ? static_cast<Writer*>(l) : &weaver;
    w->StartObject("");
    if (before) w->RenderBool("b", true);
    d.Start(w);
    w->RenderString("a", "inside");
    d.End(w);
    w->RenderNull("b");
    if (l) {
      w->RenderString("a", "1");
      if (with_m) w->StartObject("m"), w->RenderString("a", "2"), w->EndObject();
    }
    w->EndObject();
  }
  SameLog(c, out.log, want.log);
  if (!listener.status().ok()) c.fail("error: " + listener.status().ToString());
  c.nontrivial(pbt::Mix(d.kinds.size() * 4 + with_m * 2 + before) ^ pbt::HashStr(d.kinds));
}

PBT(C19, woven_events, 160000, 2000000) {
  vector<std::unique_ptr<Def>> fields;
  GenFields(c, 3, &fields);
  vector<Bound> bound;
  GenBound(c, fields, 8, &bound);
  Node body = GenObject(c, fields, 3, c.chance(1, 4));
  vector<gt::RequestWeaver::BindingInfo> infos;
  for (const Bound& b : bound) infos.push_back(Info(b));
  // A binding of nothing changes nothing.
  if (c.chance(1, 10)) infos.insert(infos.begin() + static_cast<long>(c.below(infos.size() + 1)), gt::RequestWeaver::BindingInfo{{}, "nothing"});
  if (c.verbose) {
    for (const Bound& b : bound) c.note("binding %s = %s", PathOf(b).c_str(), Show(b.value).c_str());
    c.note("body: %s", Print(body).c_str());
  }
  Recorder out;
  gt::StatusErrorListener listener;
  pbt::Fresh<gt::RequestWeaver> weaver_at(infos, &out, &listener, false);
  gt::RequestWeaver& weaver = *weaver_at;
  Emit(body, &weaver);
  if (!out.problem().empty()) c.fail(out.problem());
  if (out.roots().size() != 1 || out.roots()[0].kind != Node::kObject || out.roots()[0].name != body.name) c.fail("the body's object is not kept");
  if (!listener.status().ok()) c.fail("error with rejection off: " + listener.status().ToString());
  CheckObject(c, &body, out.roots()[0], bound, 0, "");
  if (bound.empty()) return;
  bool nested = false;
  for (const Bound& b : bound) nested |= b.path.size() > 1;
  c.label(nested ? "with nested bindings" : "flat bindings only");
  uint64_t h = pbt::HashStr(Print(body));
  for (const Bound& b : bound) h = pbt::HashStr(PathOf(b) + "=" + b.value, h);
  c.nontrivial(h);
}

namespace {

string Decimal(const Node& n) {
  auto real = [](double d, int digits) -> string {
    if (std::isinf(d)) return d > 0 ? "Infinity" : "-Infinity";
    return Format("%.*g", digits, d);
  };
  switch (n.kind) {
    case Node::kBool: return n.i ? "true" : "false";
    case Node::kInt32:
    case Node::kInt64: return Format("%lld", static_cast<long long>(n.i));
    case Node::kUint32:
    case Node::kUint64: return Format("%llu", static_cast<unsigned long long>(n.u));
    case Node::kDouble: return real(n.d, 17);
    case Node::kFloat: return real(n.d, 9);
    default: return n.s;
  }
}

// A text for a binding to the field of body value v: 0 equal, 1 different, -1
// not judged.
int GenRival(Case& c, const Node& v, string* text) {
  const bool real = v.kind == Node::kDouble || v.kind == Node::kFloat;
  const bool integer = v.kind >= Node::kInt32 && v.kind <= Node::kUint64;
  Node o = v;
  switch (c.below(integer || real ? 5 : 2)) {
    case 0:
      *text = Decimal(v);
      break;
    case 1:
      // Another value of the kind, or a near one.
      for (int tries = 0; tries < 200; tries++) {
        o = GenScalar(c);
        if (o.kind == v.kind) break;
      }
      if (o.kind != v.kind) o = v;
      *text = Decimal(o);
      break;
    case 2:
      // Equal in some of the bits.
      if (integer) {
        uint64_t bits = v.kind == Node::kInt32 || v.kind == Node::kInt64 ? static_cast<uint64_t>(v.i) : v.u;
        bits ^= uint64_t{1} << c.below(64);
        *text = c.coin() ? Format("%lld", static_cast<long long>(bits)) : Format("%llu", static_cast<unsigned long long>(bits));
      } else {
        o.kind = Node::kDouble;
        o.d = -v.d;
        *text = Decimal(o);
      }
      break;
    case 3:
      if (integer) {
        *text = Decimal(v) + "0";
      } else {
        o.kind = Node::kDouble;
        o.d = v.d * (c.coin() ? 1.01 : 2);
        *text = Decimal(o);
      }
      break;
    case 4: *text = c.pickc({"abc", "", "x1", "true", "nul", "1x", "--1", "{}"}); break;
  }
  if (integer) {
    if (v.kind == Node::kInt32 || v.kind == Node::kInt64 ? *text == Decimal(v) : *text == Decimal(v)) return 0;
    if (*text == "00") return -1;
    return 1;
  }
  if (real) {
    if (std::isnan(v.d)) return -1;
    if (*text == Decimal(v)) return 0;
    char* end = nullptr;
    double o2 = strtod(text->c_str(), &end);
    if (text->empty() || *end) return 1;
    if (v.kind == Node::kFloat && std::fabs(o2) > 3.4e38 && !std::isinf(o2)) return std::isinf(v.d) ? -1 : 1;
    if (o2 == v.d) return 0;
    if (std::isinf(v.d) || std::isinf(o2)) return 1;
    const double gap = std::fabs(o2 - v.d), big = std::max(std::fabs(o2), std::fabs(v.d));
    return gap > 1e-4 && gap > 1e-3 * big ? 1 : -1;
  }
  if (v.kind == Node::kBool) {
    if (c.chance(1, 4)) *text = c.pickc({"maybe", "", "truee", "fals", "2"});
    return *text == Decimal(v) ? 0 : 1;
  }
  if (v.kind == Node::kString) {
    if (c.chance(1, 4)) *text = v.s + c.pickc({" ", "x", ".0", "0"});
    return *text == v.s ? 0 : 1;
  }
  return -1;
}

// Chooses values for the bindings so that their fields' values in the body are
// equal or different; counts the different ones.
void AimBindings(Case& c, const Node& body, size_t depth, const vector<Bound*>& bound, int* different, int* unknown, int* met) {
  std::set<const Def*> done;
  for (const Node& n : body.children) {
    for (Bound* b : bound) {
      const Def* d = b->path[depth];
      if (!Names(n.name, d) || done.count(d)) continue;
      if (b->path.size() == depth + 1) {
        if (d->repeated || n.kind == Node::kNull || n.kind == Node::kObject || n.kind == Node::kList) continue;
        for (Bound* x : bound) {
          if (x->path.size() != depth + 1 || x->path[depth] != d) continue;
          int r = GenRival(c, n, &x->value);
          if (r == 1) ++*different;
          if (r == -1) ++*unknown;
          ++*met;
        }
        done.insert(d);
      } else if (n.kind == Node::kObject && !d->repeated) {
        vector<Bound*> inner;
        for (Bound* x : bound)
          if (x->path.size() > depth + 1 && x->path[depth] == d) inner.push_back(x);
        AimBindings(c, n, depth + 1, inner, different, unknown, met);
        done.insert(d);
      }
    }
  }
}

}  // namespace

PBT(C20, collision_events, 240000, 3000000) {
  vector<std::unique_ptr<Def>> fields;
  GenFields(c, 2, &fields);
  vector<Bound> bound;
  GenBound(c, fields, 6, &bound);
  Node body = GenObject(c, fields, 2, false);
  vector<Bound*> p;
  for (Bound& b : bound) p.push_back(&b);
  int different = 0, unknown = 0, met = 0;
  AimBindings(c, body, 0, p, &different, &unknown, &met);
  const bool reject = !c.chance(1, 6);
  vector<gt::RequestWeaver::BindingInfo> infos;
  for (const Bound& b : bound) infos.push_back(Info(b));
  if (c.verbose) {
    for (const Bound& b : bound) c.note("binding %s = %s", PathOf(b).c_str(), Show(b.value).c_str());
    c.note("body: %s", Print(body).c_str());
  }
  Recorder out;
  gt::StatusErrorListener listener;
  pbt::Fresh<gt::RequestWeaver> weaver_at(infos, &out, &listener, reject);
  gt::RequestWeaver& weaver = *weaver_at;
  Emit(body, &weaver);
  const absl::Status st = listener.status();
  if (weaver.Status() != st) c.fail("the weaver's status is not the listener's");
  if (!reject || (different == 0 && unknown == 0)) {
    if (!st.ok()) c.fail(Format("rejected without a difference%s: ", reject ? "" : " (rejection is off)") + st.ToString());
  } else if (different > 0) {
    if (st.ok()) c.fail("accepted although a binding and the body differ");
  }
  if (!met) return;
  c.label(!reject ? "rejection off" : different ? "different" : unknown ? "close" : "equal");
  uint64_t h = pbt::HashStr(Print(body), reject);
  for (const Bound& b : bound) h = pbt::HashStr(PathOf(b) + "=" + b.value, h);
  c.nontrivial(h);
}

// One body value against one binding.
PBT(C20, scalar_pair, 240000, 3000000) {
  Def d, outer;
  d.field.set_name("some_field");
  d.field.set_json_name(c.coin() ? "someField" : "");
  outer.field.set_name("outer_msg");
  outer.field.set_json_name("outerMsg");
  outer.message = true;
  Node v;
  do v = GenScalar(c);
  while (v.kind == Node::kBytes || v.kind == Node::kNull);
  v.name = NameIn(c, d);
  Bound b;
  const bool nested = c.coin();
  if (nested) b.path.push_back(&outer);
  b.path.push_back(&d);
  int differ = GenRival(c, v, &b.value);
  const bool reject = !c.chance(1, 6);
  if (c.verbose) c.note("body %s, binding %s, rejection %s", Print(v).c_str(), Show(b.value).c_str(), reject ? "on" : "off");
  Node body;
  if (nested) {
    Node o;
    o.name = NameIn(c, outer);
    o.children.push_back(v);
    body.children.push_back(o);
  } else {
    body.children.push_back(v);
  }
  Recorder out;
  gt::StatusErrorListener listener;
  pbt::Fresh<gt::RequestWeaver> weaver_at(std::vector<gt::RequestWeaver::BindingInfo>{Info(b)}, &out, &listener, reject);
  gt::RequestWeaver& weaver = *weaver_at;
  Emit(body, &weaver);
  const absl::Status st = listener.status();
  if (reject && differ == 1 && st.ok()) c.fail("accepted although they differ: " + Print(v) + " and " + Show(b.value));
  if ((!reject || differ == 0) && !st.ok()) c.fail("rejected although they are equal or rejection is off: " + Print(v) + " and " + Show(b.value) + ": " + st.ToString());
  c.label(!reject ? "rejection off" : differ == 1 ? "different" : differ == 0 ? "equal" : "close");
  c.nontrivial(pbt::HashStr(Print(v) + "/" + b.value, reject));
}

namespace {

// Messages nested in one another, very many levels deep, with bindings and body
// values at all levels.
struct Chain {
  vector<std::unique_ptr<Def>> fields;
  vector<vector<const Def*>> leaves;  // by level
  vector<const Def*> messages;        // messages[i] leads from level i to i + 1
  vector<Bound> bound;
  Node body;
  void Gen(Case& c) {
    static const vector<const char*> names = {"a", "b", "ab", "own", "next", "child"};
    const size_t depth = c.chance(1, 10) ? 100 + c.below(300) : 2 + c.below(70);
    vector<std::unique_ptr<Def>>* at = &fields;
    const bool same = c.coin();
    for (size_t i = 0; i <= depth; i++) {
      const size_t skip = same ? 0 : c.below(names.size());
      leaves.emplace_back();
      for (size_t k = 0; k < 3; k++) {
        std::unique_ptr<Def> d(new Def);
        const string n = names[(skip + k) % names.size()];
        d->field.set_name(n);
        d->field.set_json_name(k == 1 ? n + "X" : n);
        d->message = k == 2;
        if (k == 2 && i == depth) break;
        d->repeated = k == 1 && c.chance(1, 6);
        d->field.set_cardinality(d->repeated ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL);
        d->field.set_kind(d->message ? pb::Field::TYPE_MESSAGE : pb::Field::TYPE_STRING);
        if (d->message) messages.push_back(d.get());
        else leaves.back().push_back(d.get());
        at->push_back(std::move(d));
      }
      if (i < depth) at = &at->back()->fields;
    }
    const size_t n = 1 + c.below(4);
    std::set<const Def*> once;
    for (size_t k = 0; k < n; k++) {
      const size_t level = c.coin() ? depth : c.below(depth + 1);
      Bound b;
      b.path.assign(messages.begin(), messages.begin() + static_cast<long>(level));
      b.path.push_back(c.pick(leaves[level]));
      if (!b.path.back()->repeated && !once.insert(b.path.back()).second) continue;
      b.value = GenStr(c);
      bound.push_back(b);
    }
    const size_t reach = c.coin() ? depth : c.below(depth + 1);
    Node* o = &body;
    for (size_t i = 0; i <= reach; i++) {
      auto leaf = [&]() {
        for (const Def* d : leaves[i])
          if (i == reach ? c.coin() : c.chance(1, 6)) {
            Node v;
            if (d->repeated) {
              v.kind = Node::kList;
              v.children.push_back(GenScalar(c));
            } else {
              v = GenScalar(c);
            }
            v.name = NameIn(c, *d);
            o->children.push_back(v);
          }
      };
      const bool before = c.coin();
      if (before || i == reach) leaf();
      if (i == reach) break;
      Node m;
      m.name = NameIn(c, *messages[i]);
      o->children.push_back(m);
      const size_t here = o->children.size() - 1;
      if (!before) leaf();
      o = &o->children[here];
    }
    if (c.verbose) {
      c.note("%zu levels", depth);
      for (const Bound& b : bound) c.note("binding %s = %s", PathOf(b).c_str(), Show(b.value).c_str());
      c.note("body: %s", Print(body).c_str());
    }
  }
};

}  // namespace

PBT(C19, woven_chain, 20000, 300000) {
  Chain k;
  k.Gen(c);
  vector<gt::RequestWeaver::BindingInfo> infos;
  for (const Bound& b : k.bound) infos.push_back(Info(b));
  Recorder out;
  gt::StatusErrorListener listener;
  pbt::Fresh<gt::RequestWeaver> weaver_at(infos, &out, &listener, false);
  gt::RequestWeaver& weaver = *weaver_at;
  Emit(k.body, &weaver);
  if (!out.problem().empty()) c.fail(out.problem());
  if (out.roots().size() != 1 || out.roots()[0].kind != Node::kObject) c.fail("the body's object is not kept");
  if (!listener.status().ok()) c.fail("error with rejection off: " + listener.status().ToString());
  CheckObject(c, &k.body, out.roots()[0], k.bound, 0, "");
  uint64_t h = pbt::HashStr(Print(k.body));
  for (const Bound& b : k.bound) h = pbt::HashStr(PathOf(b) + "=" + b.value, h);
  if (k.messages.size() > 30) c.label("more than 30 levels");
  c.nontrivial(h);
}

PBT(C20, collision_chain, 20000, 300000) {
  Chain k;
  k.Gen(c);
  vector<Bound*> p;
  for (Bound& b : k.bound) p.push_back(&b);
  int different = 0, unknown = 0, met = 0;
  AimBindings(c, k.body, 0, p, &different, &unknown, &met);
  vector<gt::RequestWeaver::BindingInfo> infos;
  for (const Bound& b : k.bound) infos.push_back(Info(b));
  for (const Bound& b : k.bound) c.note("aimed: %s = %s", PathOf(b).c_str(), Show(b.value).c_str());
  Recorder out;
  gt::StatusErrorListener listener;
  pbt::Fresh<gt::RequestWeaver> weaver_at(infos, &out, &listener, true);
  gt::RequestWeaver& weaver = *weaver_at;
  Emit(k.body, &weaver);
  const absl::Status st = listener.status();
  if (different == 0 && unknown == 0) {
    if (!st.ok()) c.fail("rejected without a difference: " + st.ToString());
  } else if (different > 0) {
    if (st.ok()) c.fail("accepted although a binding and the body differ");
  }
  if (!met) return;
  c.label(different ? "different" : unknown ? "close" : "equal");
  c.nontrivial(pbt::HashStr(Print(k.body), k.bound.size()));
}

namespace {

Node GenAny(Case& c, int depth) {
  Node n;
  size_t k = depth > 0 ? c.below(3) : 2;
  if (k == 2) {
    n = GenScalar(c);
  } else {
    n.kind = k == 0 ? Node::kObject : Node::kList;
    size_t m = c.size(4);
    for (size_t j = 0; j < m; j++) n.children.push_back(GenAny(c, depth - 1));
  }
  n.name = c.pickc({"", "a", "b", "name", "A", "x.y"});
  return n;
}

}  // namespace

PBT(C21, prefix_events, 240000, 3000000) {
  vector<string> prefix;
  string text;
  size_t depth = c.size(5);
  if (c.chance(1, 8)) text += ".";
  for (size_t k = 0; k < depth; k++) {
    prefix.push_back(c.pickc({"A", "B", "a", "name", "some_field", "someField", "\xc3\xa9", "a%41"}));
    if (!text.empty() && text.back() != '.') text += ".";
    if (c.chance(1, 10)) text += ".";
    text += prefix.back();
  }
  if (c.chance(1, 8)) text += ".";
  vector<Node> roots, want;
  size_t n = 1 + c.size(3);
  for (size_t k = 0; k < n; k++) {
    roots.push_back(GenAny(c, 4));
    Node v = roots.back();
    const string outer = v.name;
    for (size_t j = prefix.size(); j-- > 0;) {
      v.name = prefix[j];
      Node o;
      o.children.push_back(v);
      v = o;
    }
    v.name = outer;
    want.push_back(v);
  }
  if (c.verbose) {
    c.note("prefix %s", Show(text).c_str());
    for (const Node& r : roots) c.note("value %s", Print(r).c_str());
  }
  Recorder out;
  pbt::Fresh<gt::PrefixWriter> w_at(text, &out);
  gt::PrefixWriter& w = *w_at;
  for (size_t k = 0; k < n; k++) {
    Emit(roots[k], &w);
    // Closed as soon as the value ends.
    if (!out.problem().empty()) c.fail(Format("after value %zu: ", k) + out.problem());
    if (out.roots().size() != k + 1) c.fail(Format("%zu values come out for %zu", out.roots().size(), k + 1));
    if (!SameTree(out.roots()[k], want[k])) c.fail("came out: " + Print(out.roots()[k]) + ", expected: " + Print(want[k]));
  }
  c.label(Format("%zu names", depth > 3 ? 4 : depth));
  uint64_t h = pbt::HashStr(text);
  for (const Node& r : roots) h = pbt::HashStr(Print(r), h);
  c.nontrivial(h);
}

// The same for values nested very deep.
PBT(C21, prefix_deep, 12000, 200000) {
  Deep d;
  d.Gen(c, {"", "a", "b", "x"});
  const size_t n = c.chance(1, 8) ? c.below(200) : c.below(4);
  string text;
  for (size_t i = 0; i < n; i++) text += (i ? ".p" : "p") + std::to_string(i);
  c.note("prefix %s, %zu levels: %s...", Show(text).c_str(), d.kinds.size(), d.kinds.substr(0, 20).c_str());
  Log out, want;
  pbt::Fresh<gt::PrefixWriter> w_at(text, &out);
  gt::PrefixWriter& w = *w_at;
  const int values = static_cast<int>(1 + c.below(2));
  for (int v = 0; v < values; v++) {
    d.Start(&w);
    w.RenderBool("leaf", true);
    d.End(&w);
    Deep e = d;
    string name = d.names[0];
    for (size_t i = 0; i < n; i++) {
      want.StartObject(name);
      name = "p" + std::to_string(i);
    }
    e.names[0] = name;
    e.Start(&want);
    want.RenderBool("leaf", true);
    e.End(&want);
    for (size_t i = 0; i < n; i++) want.EndObject();
  }
  SameLog(c, out.log, want.log);
  c.nontrivial(pbt::Mix(d.kinds.size() * 8 + n * 2 + static_cast<uint64_t>(values)) ^ pbt::HashStr(d.kinds));
}
