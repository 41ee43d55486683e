// A JSON request with variable bindings, what it denotes, and a driver of the
// request translator: shared by C19, C20, C21 and C23.
#ifndef REQ_H_
#define REQ_H_

#include <google/protobuf/descriptor.pb.h>

#include "conv.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/request_message_translator.h"

namespace cv {

typedef vector<const FD*> Path;

struct Binding {
  Path path;
  string key;                       // proto names joined by '.'
  string value;                     // the text of the binding
  std::shared_ptr<Message> holder;  // a message with the leaf set (or a string, for map entries)
};

inline string JsonText(const Message& m) {
  string s;
  pb::util::MessageToJsonString(m, &s);
  return s;
}

// The text a URL would carry for the value of singular field f (or the last
// element of a repeated one).
inline string LeafText(Case& c, const Message& m, const FD* f, bool enum_case) {
  const Reflection* r = m.GetReflection();
  const int last = f->is_repeated() ? r->FieldSize(m, f) - 1 : -1;
  auto dbl = [](double v) -> string {
    if (std::isnan(v)) return "NaN";
    if (std::isinf(v)) return v > 0 ? "Infinity" : "-Infinity";
    return Format("%.17g", v);
  };
#define GET(T) (last < 0 ? r->Get##T(m, f) : r->GetRepeated##T(m, f, last))
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: return Format("%d", GET(Int32));
    case FD::CPPTYPE_INT64: return Format("%lld", static_cast<long long>(GET(Int64)));
    case FD::CPPTYPE_UINT32: return Format("%u", GET(UInt32));
    case FD::CPPTYPE_UINT64: return Format("%llu", static_cast<unsigned long long>(GET(UInt64)));
    case FD::CPPTYPE_DOUBLE: return dbl(GET(Double));
    case FD::CPPTYPE_FLOAT: return std::isfinite(GET(Float)) ? Format("%.9g", static_cast<double>(GET(Float))) : dbl(GET(Float));
    case FD::CPPTYPE_BOOL: return GET(Bool) ? "true" : "false";
    case FD::CPPTYPE_ENUM: {
      const auto* v = f->enum_type()->FindValueByNumber(GET(EnumValue));
      if (!v || c.chance(1, 4)) return Format("%d", GET(EnumValue));
      string n = v->name();
      if (enum_case)
        for (char& x : n)
          if (c.coin()) x = static_cast<char>(tolower(x));
      return n;
    }
    case FD::CPPTYPE_STRING: {
      if (f->type() != FD::TYPE_BYTES) return GET(String);
      return Base64Text(c, GET(String));
    }
    case FD::CPPTYPE_MESSAGE: {
      const Message& s = last < 0 ? r->GetMessage(m, f) : r->GetRepeatedMessage(m, f, last);
      if (IsWrapper(s.GetDescriptor())) return LeafText(c, s, s.GetDescriptor()->field(0), enum_case);
      string t = JsonText(s);
      return t.substr(1, t.size() - 2);
    }
  }
#undef GET
  return "";
}

// Copies the leaf of `from` into `to` (appending if repeated).
inline void CopyLeaf(const Message& from, Message* to, const FD* f) {
  const Reflection* r = from.GetReflection();
  const bool rep = f->is_repeated();
  const int last = rep ? r->FieldSize(from, f) - 1 : -1;
#define CP(T) \
  if (rep) r->Add##T(to, f, r->GetRepeated##T(from, f, last)); else r->Set##T(to, f, r->Get##T(from, f)); break
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: CP(Int32);
    case FD::CPPTYPE_INT64: CP(Int64);
    case FD::CPPTYPE_UINT32: CP(UInt32);
    case FD::CPPTYPE_UINT64: CP(UInt64);
    case FD::CPPTYPE_DOUBLE: CP(Double);
    case FD::CPPTYPE_FLOAT: CP(Float);
    case FD::CPPTYPE_BOOL: CP(Bool);
    case FD::CPPTYPE_ENUM: CP(EnumValue);
    case FD::CPPTYPE_STRING: CP(String);
    case FD::CPPTYPE_MESSAGE:
      if (rep) r->AddMessage(to, f)->CopyFrom(r->GetRepeatedMessage(from, f, last));
      else r->MutableMessage(to, f)->CopyFrom(r->GetMessage(from, f));
      break;
  }
#undef CP
}

inline bool LeafKind(const FD* f) {
  if (f->is_map()) return false;
  if (f->cpp_type() != FD::CPPTYPE_MESSAGE) return true;
  return IsWrapper(f->message_type()) || IsStringWkt(f->message_type());
}
inline bool PlainMessage(const FD* f) { return f->cpp_type() == FD::CPPTYPE_MESSAGE && !f->is_map() && !IsWkt(f->message_type()); }

// One element of the request (the whole of a unary one): the message the body
// alone denotes, and its JSON text.
struct Element {
  conv::Msg msg;
  FieldSet explicit_fields;  // what the text gives a value to
  string text;
};

struct Request {
  Path body_path;            // empty: the body is the whole message
  string body_field_path;    // as given to the translator
  vector<Binding> bindings;
  vector<std::unique_ptr<Element>> elements;
  bool streaming = false, delimiters = false, enum_case = false, reject = false;
  string text;               // the JSON text
  vector<int64_t> element_end;  // offset after each streamed element
  conv::Msg first;           // the first message with the bindings woven in
};

inline void GenBodyPath(Case& c, Request* q) {
  q->body_path.clear();
  const pb::Descriptor* d = conv::Msg::descriptor();
  const size_t depth = c.weighted({1, 4, 2, 1});
  string s;
  for (size_t i = 0; i < depth; i++) {
    const FD* f = nullptr;
    for (int tries = 0; tries < 30; tries++) {
      const FD* g = d->field(static_cast<int>(c.below(static_cast<uint64_t>(d->field_count()))));
      // Inner steps go through singular messages of this file.
      if (i + 1 < depth && (!PlainMessage(g) || g->is_repeated())) continue;
      f = g;
      break;
    }
    if (!f) f = d->FindFieldByName(d->full_name() == "conv.Inner" ? "back" : "child");
    q->body_path.push_back(f);
    s += (s.empty() ? "" : ".") + f->name();
    d = f->message_type();
    if (!d) break;
    if (!PlainMessage(f) || f->is_repeated()) break;
  }
  q->body_field_path = q->body_path.empty() ? (c.coin() ? "*" : "") : s;
}

// Generates the body of one element and prints it.
inline void GenElement(Case& c, Request* q, const Style& base, const GenOpts& o) {
  q->elements.emplace_back(new Element);
  Element* e = q->elements.back().get();
  Style st = base;
  st.enum_case = q->enum_case;
  st.explicit_fields = &e->explicit_fields;
  if (q->body_path.empty()) {
    GenMsg(c, &e->msg, 2, o);
    Printer(c, st, &e->text).Msg(e->msg);
    return;
  }
  conv::Msg raw;
  Message* m = &raw;
  for (size_t i = 0; i + 1 < q->body_path.size(); i++) m = m->GetReflection()->MutableMessage(m, q->body_path[i]);
  const FD* leaf = q->body_path.back();
  const bool value_like = leaf->cpp_type() == FD::CPPTYPE_MESSAGE && !leaf->is_map() && IsWkt(leaf->message_type()) && !IsWrapper(leaf->message_type());
  const bool null_body = !value_like && c.chance(1, 8);
  if (!null_body) {
    size_t n = leaf->is_repeated() ? c.size(4) : 1;
    for (size_t i = 0; i < n; i++) GenFieldValue(c, m, leaf, 2, o);
  }
  e->msg.ParsePartialFromString(Det(raw));
  const Message* p = &e->msg;
  for (size_t i = 0; i + 1 < q->body_path.size(); i++) p = &p->GetReflection()->GetMessage(*p, q->body_path[i]);
  if (null_body) {
    e->text = "null";
  } else {
    e->explicit_fields.insert({p, leaf});
    Printer(c, st, &e->text).Field(*p, leaf);
  }
}

// Does following `path` in m (through singular fields) meet a oneof whose other
// member is set there?
inline bool OneofConflict(const Message& m, const Path& path) {
  const Message* cur = &m;
  for (const FD* f : path) {
    const Reflection* r = cur->GetReflection();
    if (const auto* oo = f->real_containing_oneof()) {
      const FD* set = r->GetOneofFieldDescriptor(*cur, oo);
      if (set && set != f) return true;
    }
    if (f->is_repeated() || f->cpp_type() != FD::CPPTYPE_MESSAGE || !r->HasField(*cur, f)) return false;
    cur = &r->GetMessage(*cur, f);
  }
  return false;
}

// A random binding path, biased to what the first element contains.
inline bool GenBindingPath(Case& c, const Message* body, Path* path) {
  const pb::Descriptor* d = conv::Msg::descriptor();
  for (int depth = 0; depth < 5; depth++) {
    const FD* f = nullptr;
    if (body && c.chance(1, 2)) {
      vector<const FD*> set;
      body->GetReflection()->ListFields(*body, &set);
      if (!set.empty()) f = set[c.below(set.size())];
    }
    if (!f) {
      // Messages are rarer than scalars in the type but as interesting here.
      if (depth < 3 && c.chance(1, 3)) {
        vector<const FD*> ms;
        for (int i = 0; i < d->field_count(); i++)
          if (PlainMessage(d->field(i))) ms.push_back(d->field(i));
        f = ms[c.below(ms.size())];
      } else {
        f = d->field(static_cast<int>(c.below(static_cast<uint64_t>(d->field_count()))));
      }
    }
    if (LeafKind(f)) {
      path->push_back(f);
      return true;
    }
    if (f->is_map()) {
      if (f->name() != "labels") return false;
      path->push_back(f);
      path->push_back(c.coin() ? f->message_type()->map_key() : f->message_type()->map_value());
      return true;
    }
    if (!PlainMessage(f)) return false;
    path->push_back(f);
    body = body && !f->is_repeated() && body->GetReflection()->HasField(*body, f) ? &body->GetReflection()->GetMessage(*body, f) : nullptr;
    d = f->message_type();
  }
  return false;
}

inline string KeyOf(const Path& p) {
  string s;
  for (const FD* f : p) s += (s.empty() ? "" : ".") + f->name();
  return s;
}

inline void GenBindings(Case& c, Request* q, size_t max, const GenOpts& opts) {
  const Element* e = q->elements.empty() ? nullptr : q->elements[0].get();
  size_t n = c.size(max);
  const bool many = max >= 6 && c.chance(1, 150);  // far more than anybody expects
  if (many) n = 20 + c.below(400);
  GenOpts o = opts;
  o.known_enums = true;  // a text cannot name a number the enum does not have
  std::set<string> singular;                // paths bound once
  std::map<string, string> oneofs;          // oneof at a place -> member bound
  for (size_t i = 0; i < n; i++) {
    Binding b;
    if (i > 0 && !q->bindings.empty() && (many ? c.chance(3, 4) : c.chance(1, 4))) {
      b.path = c.pick(q->bindings).path;  // the same repeated field again
    } else if (!GenBindingPath(c, e ? &e->msg : nullptr, &b.path)) {
      continue;
    }
    b.key = KeyOf(b.path);
    const FD* leaf = b.path.back();
    if (!leaf->is_repeated()) {
      if (singular.count(b.key) && !(leaf->cpp_type() != FD::CPPTYPE_MESSAGE && !leaf->containing_oneof() && !leaf->containing_type()->options().map_entry() && c.chance(1, 2))) continue;
    }
    if (e && OneofConflict(e->msg, b.path)) continue;
    bool clash = false;
    std::map<string, string> mine;
    for (size_t k = 0; k < b.path.size(); k++) {
      const auto* oo = b.path[k]->real_containing_oneof();
      if (!oo) continue;
      string place = KeyOf(Path(b.path.begin(), b.path.begin() + k)) + "/" + oo->name();
      auto it = oneofs.find(place);
      if (it != oneofs.end() && it->second != b.path[k]->name()) clash = true;
      mine[place] = b.path[k]->name();
    }
    if (clash) continue;
    oneofs.insert(mine.begin(), mine.end());
    if (!leaf->is_repeated()) singular.insert(b.key);
    const pb::Descriptor* d = leaf->containing_type();
    if (d->options().map_entry()) {
      b.value = GenText(c);
    } else {
      b.holder.reset(pb::MessageFactory::generated_factory()->GetPrototype(d)->New());
      GenFieldValue(c, b.holder.get(), leaf, 1, o);
      b.value = LeafText(c, *b.holder, leaf, q->enum_case);
    }
    q->bindings.push_back(b);
  }
}

// Writes the bindings into `out`, which starts as a copy of the body.
inline void Weave(const Request& q, const Element* e, conv::Msg* out) {
  std::map<string, Message*> fresh;  // new elements of repeated messages
  for (const Binding& b : q.bindings) {
    Message* cur = out;
    const Message* body = e ? &e->msg : nullptr;
    bool done = false;
    string prefix;
    for (size_t i = 0; i + 1 < b.path.size() && !done; i++) {
      const FD* f = b.path[i];
      prefix += f->name() + ".";
      const Reflection* r = cur->GetReflection();
      if (f->is_map()) {  // "labels.key": the entry called "key"
        auto* map = cur->GetDescriptor() == conv::Msg::descriptor() ? static_cast<conv::Msg*>(cur)->mutable_labels() : nullptr;
        const string key = b.path.back()->name();
        const bool sent = body && static_cast<const conv::Msg*>(body)->labels().count(key);
        if (!sent) (*map)[key] = b.value;
        done = true;
      } else if (f->is_repeated()) {
        Message*& n = fresh[prefix];
        if (!n) n = r->AddMessage(cur, f);
        cur = n;
        body = nullptr;
      } else {
        body = body && body->GetReflection()->HasField(*body, f) ? &body->GetReflection()->GetMessage(*body, f) : nullptr;
        cur = r->MutableMessage(cur, f);
      }
    }
    if (done) continue;
    const FD* leaf = b.path.back();
    if (!leaf->is_repeated() && body && e->explicit_fields.count({body, leaf})) continue;  // the body's value stays
    CopyLeaf(*b.holder, cur, leaf);
  }
}

// The array of a streaming request, or the single value of a unary one.
inline void Assemble(Case& c, Request* q, const Style& st) {
  Printer p(c, st, &q->text);
  if (!q->streaming) {
    q->text = q->elements[0]->text;
    return;
  }
  q->text += '[';
  p.Ws();
  for (size_t i = 0; i < q->elements.size(); i++) {
    if (i) q->text += ',', p.Ws();
    q->text += q->elements[i]->text;
    q->element_end.push_back(static_cast<int64_t>(q->text.size()));
    p.Ws();
  }
  q->text += ']';
}

inline void NoteRequest(Case& c, const Request& q) {
  if (!c.verbose) return;
  c.note("%s, body path \"%s\"%s%s%s", q.streaming ? "streaming" : "unary", q.body_field_path.c_str(), q.delimiters ? ", delimiters" : "", q.enum_case ? ", case-insensitive enums" : "",
         q.reject ? ", collisions rejected" : "");
  for (const Binding& b : q.bindings) c.note("binding %s = %s", b.key.c_str(), Show(b.value, 200).c_str());
  c.note("body: %s", Show(q.text, 2500).c_str());
}

inline gt::RequestInfo Info(Case& c, const Request& q) {
  pbt::Fresh<gt::RequestInfo> info_at;
  gt::RequestInfo& info = *info_at;
  info.message_type = TypeOf(conv::Msg::descriptor());
  info.body_field_path = q.body_field_path;
  const bool defaults = c.coin();  // leave those that have their default
  if (q.reject || !defaults) info.reject_binding_body_field_collisions = q.reject;
  if (q.enum_case || !defaults) info.case_insensitive_enum_parsing = q.enum_case;
  for (const Binding& b : q.bindings) {
    string path;
    for (const FD* f : b.path) path += (path.empty() ? "" : ".") + (c.coin() ? f->json_name() : f->name());
    gt::RequestWeaver::BindingInfo bi;
    auto st = Helper().ResolveFieldPath(*info.message_type, path, &bi.field_path);
    if (!st.ok()) c.fail("test generator: " + path + ": " + st.ToString());
    bi.value = b.value;
    info.variable_bindings.push_back(std::move(bi));
  }
  return info;
}

struct Outcome {
  vector<string> messages;
  absl::Status status;
  bool finished = false;
};

// Feeds the text by a random schedule and collects what comes out.
inline Outcome Translate(Case& c, const Request& q, const string& text, const gt::RequestInfo* given = nullptr) {
  framing::Script script;
  script.content.Append(text);
  script.total = script.content.size();
  framing::ScriptedStream in(&script.content);
  JsonCuts(c, script.total, &in);
  pbt::Fresh<gt::JsonRequestTranslator> t_at(Helper().Resolver(), &in, given ? *given : Info(c, q), q.streaming, q.delimiters);
  gt::JsonRequestTranslator& t = *t_at;
  gt::MessageStream& out = t.Output();
  Outcome r;
  const bool at_once = c.coin();
  if (at_once) {
    in.arrived_ = script.total;
    in.finished_ = true;
  }
  int idle = 0;
  uint64_t patience = 0;  // polls in vain
  for (int step = 0;; step++) {
    if (step > 100000) c.fail("the translator makes no progress");
    const bool hurry = step > 1000;  // whatever the choices are, come to an end
    if (patience > 0) {
      patience--;
      step--;
    } else if (!hurry && !in.finished_ && c.chance(1, 4000)) {
      patience = c.raw(5000);
    }
    if (patience > 0) {
    } else if (in.arrived_ < script.total) {
      if (hurry || !c.chance(1, 4)) {
        in.arrived_ = hurry ? script.total : framing::GenArrival(c, script, in.arrived_);
        if (in.arrived_ == script.total && c.coin()) in.finished_ = true;
      }
    } else if (!in.finished_) {
      if (hurry || !c.chance(1, 4)) in.finished_ = true;
    }
    if (!out.Status().ok()) break;
    const bool was_finished = out.Finished();
    string m = "stale";
    if (out.NextMessage(&m)) {
      if (was_finished) c.fail("a message after Finished(): " + Show(m));
      r.messages.push_back(m);
      idle = 0;
      continue;
    }
    if (m != "stale") c.fail("NextMessage changed its argument but returned false");
    if (out.Finished()) break;
    // With an empty buffer now and then, reading on takes several polls.
    if (in.finished_ && in.pos_ == script.total && ++idle > 10) break;
  }
  r.status = out.Status();
  r.finished = out.Finished();
  // Finished() is permanent.
  for (int i = 0; r.finished && i < 3; i++) {
    string m = "stale";
    if (out.NextMessage(&m)) c.fail("a message after Finished()" + string(r.status.ok() ? "" : " with an error") + ": " + Show(m));
    if (!out.Finished()) c.fail("Finished() is true, then false");
    if (r.status.ok() != out.Status().ok()) c.fail("the status changes after Finished(): " + r.status.ToString() + ", then " + out.Status().ToString());
  }
  if (!in.misuse_.empty()) c.fail("the input stream is misused: " + in.misuse_);
  return r;
}

// One output message, without its delimiter.
inline string Payload(Case& c, const Request& q, const string& m) {
  if (!q.delimiters) return m;
  if (m.size() < 5) c.fail("an output message shorter than its delimiter: " + Show(m));
  const unsigned char* p = reinterpret_cast<const unsigned char*>(m.data());
  const uint32_t n = static_cast<uint32_t>(p[1]) << 24 | static_cast<uint32_t>(p[2]) << 16 | static_cast<uint32_t>(p[3]) << 8 | p[4];
  if (p[0] != 0 || n != m.size() - 5) c.fail(Format("delimiter %s before %zu bytes", Show(m.substr(0, 5)).c_str(), m.size() - 5));
  return m.substr(5);
}

inline void ExpectMessage(Case& c, const Request& q, size_t i, const string& m, const Message& want) {
  const string body = Payload(c, q, m);
  conv::Msg got;
  if (!got.ParsePartialFromString(body)) c.fail(Format("output message %zu is not a valid message: %s", i, Show(body).c_str()));
  if (!Same(got, want)) c.fail(Format("output message %zu is { %s }, expected { %s }", i, Text(got).c_str(), Text(want).c_str()));
}

// The whole outcome of a valid request.
inline void ExpectValid(Case& c, const Request& q, const Outcome& r) {
  if (!r.status.ok()) c.fail("error for a valid request: " + r.status.ToString());
  for (size_t i = 0; i < r.messages.size() && i < q.elements.size(); i++) ExpectMessage(c, q, i, r.messages[i], i == 0 ? q.first : q.elements[i]->msg);
  if (r.messages.size() != q.elements.size()) c.fail(Format("%zu messages for %zu elements", r.messages.size(), q.elements.size()));
  if (!r.finished) c.fail("not Finished() at the end of a valid request");
}

}  // namespace cv

#endif  // REQ_H_
