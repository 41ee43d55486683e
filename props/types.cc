// C22: field paths resolve to exactly the declared fields.
#include "verif_shim.h"

#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "conv.pb.h"
#include "grpc_transcoding/type_helper.h"
#include "pbt.h"

extern std::atomic<bool> verif_typeinfo_probe;
extern std::atomic<int> verif_typeinfo_overlaps;

namespace {

namespace pb = google::protobuf;
namespace gt = google::grpc::transcoding;
using pbt::Case;
using pbt::Format;
using pbt::Show;
using std::string;
using std::vector;
typedef vector<const pb::Field*> Fields;

const char kPrefix[] = "type.googleapis.com/";

struct Graph {
  vector<pb::Type> types;
  vector<pb::Enum> enums;
  std::map<string, const pb::Type*> by_url;
};

// A name, possibly percent-escaped, and what it stands for: the declared name
// itself goes first, then its unescaped form.
string Unescape(const string& s) {
  auto hex = [](char x) { return x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; };
  string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size() && hex(s[i + 1]) >= 0 && hex(s[i + 2]) >= 0) {
      r += static_cast<char>(hex(s[i + 1]) * 16 + hex(s[i + 2]));
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}

const pb::Field* Declared(const pb::Type& t, const string& name) {
  for (const pb::Field& f : t.fields())
    if (f.name() == name || (!f.json_name().empty() && f.json_name() == name)) return &f;
  return nullptr;
}

// The reference: the fields, or nothing if the path is an error.
bool RefResolve(const Graph& g, const pb::Type& root, const vector<string>& names, Fields* out) {
  const pb::Type* t = &root;
  out->clear();
  for (size_t i = 0; i < names.size(); i++) {
    const pb::Field* f = Declared(*t, names[i]);
    if (!f) f = Declared(*t, Unescape(names[i]));
    if (!f) return false;
    out->push_back(f);
    if (i + 1 == names.size()) break;
    if (f->kind() != pb::Field::TYPE_MESSAGE) return false;
    auto it = g.by_url.find(f->type_url());
    if (it == g.by_url.end()) return false;
    t = it->second;
  }
  return true;
}

void GenGraph(Case& c, Graph* g) {
  size_t n = 1 + c.below(5);
  static const vector<const char*> pool = {"a", "b", "ab", "name", "name_two", "id", "long_field_name", "x1", "key", "value"};
  for (size_t i = 0; i < n; i++) {
    pb::Type t;
    t.set_name(Format("pkg.T%zu", i));
    std::set<string> used;
    size_t m = c.size(6);
    for (size_t k = 0; k < m; k++) {
      pb::Field f;
      string name = c.pick(pool);
      if (c.chance(1, 12)) name = c.pickc({"a%41", "%61", "a%", "\xc3\xa9", "A"});
      string json = name;
      switch (c.below(4)) {
        case 0: {  // camel case
          json.clear();
          bool up = false;
          for (char x : name) {
            if (x == '_') up = true;
            else json += up ? static_cast<char>(toupper(x)) : x, up = false;
          }
          break;
        }
        case 1: json = c.pickc({"other", "x.y", "with space", "B", "aA", "a/b", "name-three"}); break;
        case 2: json = ""; break;
        default: break;
      }
      if (used.count(name) || (json != name && used.count(json))) continue;
      used.insert(name);
      used.insert(json);
      f.set_name(name);
      f.set_json_name(json);
      f.set_number(static_cast<int>(k + 1));
      switch (c.below(8)) {
        case 0: f.set_kind(pb::Field::TYPE_STRING); break;
        case 1: f.set_kind(pb::Field::TYPE_INT64); break;
        case 2:
          f.set_kind(pb::Field::TYPE_ENUM);
          f.set_type_url(kPrefix + Format("pkg.T%zu", c.below(n)));
          break;
        case 3:
          f.set_kind(c.coin() ? pb::Field::TYPE_GROUP : pb::Field::TYPE_BYTES);
          if (c.coin()) f.set_type_url(kPrefix + Format("pkg.T%zu", c.below(n)));
          break;
        default:
          f.set_kind(pb::Field::TYPE_MESSAGE);
          if (c.chance(1, 10)) f.set_type_url(c.pickc({"type.googleapis.com/pkg.Missing", "pkg.T0", "", "type.googleapis.com/", "other.com/pkg.T0", "type.googleapis.com/pkg.E0"}));
          else f.set_type_url(kPrefix + Format("pkg.T%zu", c.below(n)));
      }
      f.set_cardinality(c.chance(1, 4) ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL);
      *t.add_fields() = f;
    }
    if (c.chance(1, 6)) {
      auto* o = t.add_options();
      o->set_name(c.pickc({"proto2.MessageOptions.map_entry", "google.protobuf.MessageOptions.map_entry", "proto2.MessageOptions.other", "proto2.MessageOptions.message_set_wire_format"}));
    }
    g->types.push_back(t);
  }
  size_t e = c.size(2);
  for (size_t i = 0; i < e; i++) {
    pb::Enum en;
    en.set_name(Format("pkg.E%zu", i));
    auto* v = en.add_enumvalue();
    v->set_name("ZERO");
    g->enums.push_back(en);
  }
  for (const pb::Type& t : g->types) g->by_url[kPrefix + t.name()] = &t;
}

string Escape(Case& c, const string& s) {
  string r;
  for (char x : s) {
    if (c.chance(1, 3) || x == '.') r += Format(c.coin() ? "%%%02X" : "%%%02x", static_cast<unsigned char>(x));
    else r += x;
  }
  return r;
}

// A path that mostly resolves, or nearly does.
vector<string> GenNames(Case& c, const Graph& g, const pb::Type& root) {
  vector<string> names;
  const pb::Type* t = &root;
  const bool very_long = c.chance(1, 60);
  size_t n = very_long ? c.size(200) : c.size(6);
  for (size_t i = 0; i < n; i++) {
    string name;
    if (t && t->fields_size() && !c.chance(1, very_long ? 200 : 16)) {
      const pb::Field* f = &t->fields(static_cast<int>(c.below(static_cast<uint64_t>(t->fields_size()))));
      if (i + 1 < n) {
        for (int tries = 0; tries < (very_long ? 40 : 4) && f->kind() != pb::Field::TYPE_MESSAGE; tries++) f = &t->fields(static_cast<int>(c.below(static_cast<uint64_t>(t->fields_size()))));
      }
      name = f->json_name().empty() || c.coin() ? f->name() : f->json_name();
      if (c.chance(1, 5) || name.find('.') != string::npos) name = Escape(c, name);
      auto it = g.by_url.find(f->type_url());
      t = it == g.by_url.end() ? nullptr : it->second;
    } else {
      name = c.pickc({"nope", "nam", "names", "Name", "longfieldname", "a%4", "%61", "%2561", "a%zz", "%", "%00", "other%20", "nameTwo", "name_two", "aA"});
    }
    names.push_back(name);
  }
  return names;
}

string Join(Case* c, const vector<string>& names) {
  string s;
  if (c && c->chance(1, 10)) s += ".";
  for (const string& n : names) {
    if (!s.empty() && s.back() != '.') s += ".";
    if (c && c->chance(1, 12)) s += ".";
    s += n;
  }
  if (c && c->chance(1, 10)) s += ".";
  return s;
}

string Show(const Fields& f) {
  string s = "[";
  for (const pb::Field* x : f) s += " " + (x ? x->name() + "#" + std::to_string(x->number()) : string("null"));
  return s + " ]";
}

bool SameFields(const Fields& a, const Fields& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!a[i] || a[i]->SerializeAsString() != b[i]->SerializeAsString()) return false;
  return true;
}

struct Query {
  const pb::Type* type;
  vector<string> names;
  string text;
  bool ok;
  Fields want;
};

Query GenQuery(Case& c, const Graph& g) {
  Query q;
  q.type = &g.types[c.below(g.types.size())];
  q.names = GenNames(c, g, *q.type);
  q.text = Join(&c, q.names);
  q.ok = RefResolve(g, *q.type, q.names, &q.want);
  return q;
}

string Judge(const Query& q, const absl::Status& st, const Fields& got, const char* how) {
  const string what = Format("%s \"%s\" in %s", how, Join(nullptr, q.names).c_str(), q.type->name().c_str());
  if (q.ok && !st.ok()) return what + ": error: " + st.ToString();
  if (!q.ok && st.ok()) return what + ": no error, gives " + Show(got);
  if (q.ok && !SameFields(got, q.want)) return what + ": gives " + Show(got) + ", expected " + Show(q.want);
  return "";
}

string Describe(const Graph& g) {
  string s;
  for (const pb::Type& t : g.types) {
    s += t.name() + " {";
    for (const pb::Field& f : t.fields()) {
      s += " " + f.name() + (f.json_name() != f.name() ? "(" + f.json_name() + ")" : "");
      if (f.kind() == pb::Field::TYPE_MESSAGE) s += ":" + f.type_url();
      else s += Format(":kind%d", static_cast<int>(f.kind()));
    }
    s += " }\n";
  }
  return s;
}

}  // namespace

// Histories of resolutions with one helper.
PBT(C22, resolve_paths, 180000, 3000000) {
  Graph g;
  GenGraph(c, &g);
  vector<pb::Type> declared = g.types;
  gt::TypeHelper helper(g.types, g.enums);
  if (c.verbose) c.note_str(Describe(g));
  size_t n = 1 + c.size(8);
  uint64_t h = pbt::HashStr(Describe(g));
  vector<Query> asked;
  Fields got;
  bool any = false;
  for (size_t i = 0; i < n; i++) {
    Query q = !asked.empty() && c.chance(1, 4) ? c.pick(asked) : GenQuery(c, g);
    bool by_text = c.coin();
    if (!by_text && c.chance(1, 8)) {
      // Names that only a list can hold: empty ones and ones with dots. (The
      // type information takes "" for the name of fields without a JSON name.)
      bool nameless = false;
      for (const pb::Type& t : g.types)
        for (const pb::Field& f : t.fields()) nameless = nameless || f.json_name().empty();
      const size_t at = c.below(q.names.size() + 1);
      if (!nameless && c.chance(2, 3)) {
        q.names.insert(q.names.begin() + static_cast<long>(at), c.chance(1, 5) ? "%" : "");
      } else if (at + 1 < q.names.size()) {
        q.names[at] += c.pickc({".", "%2E", "%2e"}) + q.names[at + 1];
        q.names.erase(q.names.begin() + static_cast<long>(at) + 1);
      }
      q.ok = RefResolve(g, *q.type, q.names, &q.want);
    }
    c.note("resolve %s in %s (%s)", by_text ? Show(q.text).c_str() : Join(nullptr, q.names).c_str(), q.type->name().c_str(), q.ok ? "resolves" : "error");
    if (c.coin()) got.clear();
    // What is asked about may be the caller's own copy of the type.
    absl::Status st = by_text ? helper.ResolveFieldPath(*q.type, q.text, &got) : helper.ResolveFieldPath(*q.type, q.names, &got);
    string e = Judge(q, st, got, by_text ? "path" : "names");
    if (!e.empty()) c.fail(e);
    any |= !q.names.empty();
    h = pbt::HashStr(q.text, h + by_text);
    c.label(q.ok ? q.names.size() > 1 ? "resolves, nested" : "resolves" : "error");
    q.text = Join(nullptr, q.names);
    bool by_name = false;
    for (const string& s : q.names) by_name = by_name || s.empty() || s.find('.') != string::npos;
    if (!by_name) asked.push_back(q);
    // The type information itself.
    if (c.chance(1, 4)) {
      const pb::Type& t = declared[c.below(declared.size())];
      const pb::Type* r = helper.Info()->GetTypeByTypeUrl(kPrefix + t.name());
      if (!r || r->name() != t.name() || r->fields_size() != t.fields_size()) c.fail("type information of " + t.name() + " is wrong");
      for (int k = 0; k < t.fields_size(); k++)
        if (r->fields(k).SerializeAsString() != t.fields(k).SerializeAsString()) c.fail("field " + t.fields(k).name() + " of " + t.name() + " is wrong");
      for (int k = 0; k < t.options_size(); k++) {
        string want = t.options(k).name();
        if (want == "proto2.MessageOptions.map_entry" || want == "proto2.MessageOptions.message_set_wire_format") want = "google.protobuf" + want.substr(6);
        if (r->options(k).name() != want) c.fail("option " + t.options(k).name() + " of " + t.name() + " becomes " + r->options(k).name());
      }
      pb::Type copy;
      auto s = helper.Resolver()->ResolveMessageType(kPrefix + t.name(), &copy);
      if (!s.ok() || copy.name() != t.name() || copy.fields_size() != t.fields_size()) c.fail("the resolver's " + t.name() + " is wrong: " + s.ToString());
      auto so = helper.Info()->ResolveTypeUrl(kPrefix + t.name());
      if (!so.ok() || so.value()->name() != t.name()) c.fail("ResolveTypeUrl of " + t.name() + " is wrong");
    }
    if (c.chance(1, 8)) {
      const string url = c.pickc({"type.googleapis.com/pkg.Missing", "pkg.T0", "", "type.googleapis.com/", "type.googleapis.com/pkg.T", "type.googleapis.com/pkg.T00", "other.com/pkg.T0"});
      pb::Type copy;
      if (helper.Resolver()->ResolveMessageType(url, &copy).ok() || helper.Info()->GetTypeByTypeUrl(url) || helper.Info()->ResolveTypeUrl(url).ok()) c.fail("an unknown type url resolves: " + url);
    }
    if (c.chance(1, 8)) {
      const size_t k = c.below(3);
      const string url = kPrefix + Format("pkg.E%zu", k);
      pb::Enum copy;
      auto s = helper.Resolver()->ResolveEnumType(url, &copy);
      const pb::Enum* e2 = helper.Info()->GetEnumByTypeUrl(url);
      if (s.ok() != (k < g.enums.size()) || (e2 != nullptr) != (k < g.enums.size())) c.fail("enum " + url + ": " + s.ToString());
      if (s.ok() && (copy.SerializeAsString() != g.enums[k].SerializeAsString() || e2->SerializeAsString() != copy.SerializeAsString())) c.fail("enum " + url + " is wrong");
    }
  }
  if (any) c.nontrivial(h);
}

// Two helpers that share some of their types; one may go away before the other.
PBT(C22, two_helpers, 60000, 1000000) {
  Graph g[2];
  GenGraph(c, &g[0]);
  Graph other;
  GenGraph(c, &other);
  // The second world: each type is the very same object, a changed one of the
  // same name, or missing.
  vector<std::reference_wrapper<const pb::Type>> use[2];
  for (const pb::Type& t : g[0].types) use[0].push_back(std::cref(t));
  for (size_t i = 0; i < std::max(g[0].types.size(), other.types.size()); i++) {
    const size_t k = c.below(5);
    if (i < g[0].types.size() && k < 2) use[1].push_back(std::cref(g[0].types[i]));
    else if (i < other.types.size() && k < 4) use[1].push_back(std::cref(other.types[i]));
  }
  vector<const pb::Type*> roots[2];
  for (int w = 0; w < 2; w++)
    for (const pb::Type& t : use[w]) {
      g[w].by_url[kPrefix + t.name()] = &t;
      roots[w].push_back(&t);
    }
  if (roots[1].empty()) return;
  if (c.verbose) c.note_str("world 0:\n" + Describe(g[0]) + "other types:\n" + Describe(other));
  vector<pb::Enum> none;
  std::unique_ptr<gt::TypeHelper> helper[2];
  uint64_t h = pbt::HashStr(Describe(g[0]) + "/" + Describe(other));
  size_t n = 2 + c.size(8);
  Query last;
  bool have = false;
  for (size_t i = 0; i < n; i++) {
    const int w = static_cast<int>(c.below(2));
    if (helper[w] && c.chance(1, 8)) helper[w].reset();
    if (!helper[w]) helper[w].reset(new gt::TypeHelper(use[w], none));
    Query q;
    if (have && c.coin()) {
      q = last;  // the same question in the other world
    } else {
      q.type = c.pick(roots[w]);
      q.names = GenNames(c, g[c.below(2)], *q.type);
    }
    q.ok = RefResolve(g[w], *q.type, q.names, &q.want);
    q.text = Join(nullptr, q.names);
    c.note("helper %d: resolve %s in %s (%s)", w, Show(q.text).c_str(), q.type->name().c_str(), q.ok ? "resolves" : "error");
    Fields got;
    absl::Status st = helper[w]->ResolveFieldPath(*q.type, q.names, &got);
    string e = Judge(q, st, got, "with two helpers,");
    if (!e.empty()) c.fail(e);
    last = q;
    have = true;
    h = pbt::HashStr(q.text, h * 2 + static_cast<uint64_t>(w));
  }
  c.nontrivial(h);
}

// Several threads at once with one helper.
PBT_NOFUZZ(C22, resolve_concurrently, 600, 20000) {
  Graph g;
  GenGraph(c, &g);
  gt::TypeHelper helper(g.types, g.enums);
  if (c.verbose) c.note_str(Describe(g));
  vector<Query> qs;
  size_t n = 2 + c.below(6);
  uint64_t h = pbt::HashStr(Describe(g));
  bool any = false;
  for (size_t i = 0; i < n; i++) {
    qs.push_back(GenQuery(c, g));
    c.note("resolve %s in %s", Join(nullptr, qs.back().names).c_str(), qs.back().type->name().c_str());
    h = pbt::HashStr(qs.back().text, h);
    any |= !qs.back().names.empty();
  }
  const int kThreads = 3;
  const size_t kinds = 1 + c.below(4);
  verif_typeinfo_probe = true;
  verif_typeinfo_overlaps = 0;
  std::atomic<int> ready(0);
  vector<string> errors(kThreads);
  vector<std::thread> threads;
  for (int t = 0; t < kThreads; t++) {
    threads.emplace_back([&, t] {
      ready++;
      while (ready.load() < kThreads) sched_yield();
      for (size_t round = 0; round < 3; round++) {
        for (size_t k = 0; k < qs.size(); k++) {
          const Query& q = qs[(t == 0 ? k : k * 5 + static_cast<size_t>(t)) % qs.size()];
          switch ((k + static_cast<size_t>(t) + round) % kinds) {
            case 1:
              if (!helper.Info()->GetTypeByTypeUrl(kPrefix + q.type->name())) errors[t] = "the type of " + q.type->name() + " is lost";
              break;
            case 2: {
              const pb::Enum* e = helper.Info()->GetEnumByTypeUrl(string(kPrefix) + "pkg.E0");
              if ((e != nullptr) != !g.enums.empty()) errors[t] = "the enum pkg.E0 is wrong";
              break;
            }
            case 3:
              if (!helper.Info()->ResolveTypeUrl(kPrefix + q.type->name()).ok()) errors[t] = "the type of " + q.type->name() + " is lost";
              break;
            default: break;
          }
          Fields got;
          absl::Status st = round % 2 ? helper.ResolveFieldPath(*q.type, q.names, &got) : helper.ResolveFieldPath(*q.type, q.text, &got);
          string e = Judge(q, st, got, "concurrently");
          if (!e.empty()) errors[t] = e;
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  verif_typeinfo_probe = false;
  for (auto& e : errors)
    if (!e.empty()) c.fail(e);
  if (verif_typeinfo_overlaps) c.fail("two threads are inside the unsynchronized type information at once");
  c.evaluations(kThreads * 3 * qs.size());
  if (any) c.nontrivial(h);
}

// The types of real messages, by a helper made from their descriptors.
PBT(C22, resolve_in_messages, 60000, 1000000) {
  static gt::TypeHelper* helper = new gt::TypeHelper(pb::util::NewTypeResolverForDescriptorPool("type.googleapis.com", pb::DescriptorPool::generated_pool()));
  static const vector<const pb::Descriptor*> roots = {conv::Msg::descriptor(), conv::Inner::descriptor(), conv::Plain::descriptor()};
  const pb::Descriptor* d = c.pick(roots);
  pb::Type type;
  // One copy per root: the type information remembers types by address.
  static std::map<const pb::Descriptor*, std::unique_ptr<pb::Type>> kept;
  auto& t = kept[d];
  if (!t) {
    t.reset(new pb::Type);
    if (!helper->Resolver()->ResolveMessageType(kPrefix + d->full_name(), t.get()).ok()) c.fail("no type for " + d->full_name());
  }
  vector<const pb::FieldDescriptor*> want;
  vector<string> names;
  bool ok = true;
  const bool very_long = c.chance(1, 40);
  size_t n = 1 + c.size(very_long ? 200 : 6);
  for (size_t i = 0; i < n; i++) {
    if (!d || c.chance(1, very_long ? 300 : 12)) {
      names.push_back(c.pickc({"nope", "text_", "Child", "childx", "i32", "otherName", "renamed", "key", "value"}));
      const pb::FieldDescriptor* f = nullptr;
      if (d)
        for (int k = 0; k < d->field_count(); k++)
          if (d->field(k)->name() == names.back() || d->field(k)->json_name() == names.back()) f = d->field(k);
      if (!f) {
        ok = false;
        d = nullptr;
        continue;
      }
      want.push_back(f);
      d = f->message_type();
      continue;
    }
    const pb::FieldDescriptor* f = d->field(static_cast<int>(c.below(static_cast<uint64_t>(d->field_count()))));
    for (int tries = 0; i + 1 < n && tries < (very_long ? 40 : 3) && !f->message_type(); tries++) f = d->field(static_cast<int>(c.below(static_cast<uint64_t>(d->field_count()))));
    string name = c.coin() ? f->name() : f->json_name();
    names.push_back(c.chance(1, 6) ? Escape(c, name) : name);
    want.push_back(f);
    d = f->message_type();
    if (!d && i + 1 < n && c.coin()) break;
  }
  const string text = Join(&c, names);
  c.note("resolve %s in %s", text.c_str(), t->name().c_str());
  Fields got;
  absl::Status st = c.coin() ? helper->ResolveFieldPath(*t, text, &got) : helper->ResolveFieldPath(*t, names, &got);
  if (ok != st.ok()) c.fail(text + (ok ? ": error: " + st.ToString() : ": no error, gives " + Show(got)));
  if (ok) {
    bool same = got.size() == want.size();
    for (size_t i = 0; same && i < got.size(); i++) same = got[i]->name() == want[i]->name() && got[i]->number() == want[i]->number() && (!want[i]->message_type() || got[i]->type_url() == kPrefix + want[i]->message_type()->full_name());
    if (!same) c.fail(text + " gives " + Show(got));
  }
  c.label(ok ? "resolves" : "error");
  c.nontrivial(pbt::HashStr(t->name() + "/" + text));
}
