// Random protobuf messages, an independent JSON printer for them, and bindings
// into them: shared by C17-C23.
#ifndef CONV_H_
#define CONV_H_

#include "verif_shim.h"

#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/strings/escaping.h"
#include "conv.pb.h"
#include "framing.h"
#include "google/protobuf/descriptor.pb.h"
#include "google/protobuf/dynamic_message.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/type_resolver_util.h"
#include "grpc_transcoding/type_helper.h"
#include "pbt.h"

namespace cv {

namespace pb = google::protobuf;
namespace gt = google::grpc::transcoding;
using FD = pb::FieldDescriptor;
using pb::Message;
using pb::Reflection;
using pbt::Case;
using pbt::Format;
using pbt::Show;
using std::string;
using std::vector;

const char kUrl[] = "type.googleapis.com/";

inline gt::TypeHelper& PoolHelper() {
  static gt::TypeHelper* h = new gt::TypeHelper(pb::util::NewTypeResolverForDescriptorPool("type.googleapis.com", pb::DescriptorPool::generated_pool()));
  return *h;
}
// The same types as a list, as a service config has them; map entries are
// marked with the old name of the option.
inline gt::TypeHelper& ListHelper() {
  static gt::TypeHelper* h = [] {
    auto* types = new vector<pb::Type>;
    auto* enums = new vector<pb::Enum>;
    auto r = PoolHelper().Resolver();
    std::function<void(const pb::Descriptor*)> add = [&](const pb::Descriptor* d) {
      types->emplace_back();
      if (!r->ResolveMessageType(kUrl + string(d->full_name()), &types->back()).ok()) abort();
      for (auto& o : *types->back().mutable_options())
        if (o.name().find("map_entry") != string::npos) o.set_name("proto2.MessageOptions.map_entry");
      for (int i = 0; i < d->nested_type_count(); i++) add(d->nested_type(i));
    };
    std::set<const pb::FileDescriptor*> files = {conv::Msg::descriptor()->file()};
    for (int i = 0; i < conv::Msg::descriptor()->file()->dependency_count(); i++) files.insert(conv::Msg::descriptor()->file()->dependency(i));
    for (const auto* f : files) {
      for (int i = 0; i < f->message_type_count(); i++) add(f->message_type(i));
      for (int i = 0; i < f->enum_type_count(); i++) {
        enums->emplace_back();
        if (!r->ResolveEnumType(kUrl + string(f->enum_type(i)->full_name()), &enums->back()).ok()) abort();
      }
    }
    return new gt::TypeHelper(*types, *enums);
  }();
  return *h;
}
inline gt::TypeHelper*& ChosenHelper() {
  static gt::TypeHelper* h = nullptr;
  return h;
}
// Each case says where its type information comes from.
inline void ChooseHelper(Case& c) { ChosenHelper() = c.coin() ? &ListHelper() : &PoolHelper(); }
inline gt::TypeHelper& Helper() { return ChosenHelper() ? *ChosenHelper() : PoolHelper(); }
inline const pb::Type* TypeOf(const pb::Descriptor* d) {
  static std::map<std::pair<gt::TypeHelper*, const pb::Descriptor*>, const pb::Type*> cache;
  const pb::Type*& t = cache[{&Helper(), d}];
  if (!t) t = Helper().Info()->GetTypeByTypeUrl(kUrl + string(d->full_name()));
  return t;
}

// Serialised form with a fixed map order.
inline string Det(const Message& m) {
  string s;
  {
    pb::io::StringOutputStream out(&s);
    pb::io::CodedOutputStream cs(&out);
    cs.SetSerializationDeterministic(true);
    m.SerializePartialToCodedStream(&cs);
  }
  return s;
}
// Equal, whatever the encoding inside an Any.
inline bool Same(const Message& a, const Message& b) {
  if (Det(a) == Det(b)) return true;
  pb::util::MessageDifferencer d;
  pb::util::DefaultFieldComparator fc;
  fc.set_treat_nan_as_equal(true);
  d.set_field_comparator(&fc);
  return d.Compare(a, b);
}
inline string Text(const Message& m) {
  string s = m.ShortDebugString();
  return s.size() > 1500 ? s.substr(0, 1500) + "..." : s;
}

inline bool IsWkt(const pb::Descriptor* d) { return d->full_name().compare(0, 16, "google.protobuf.") == 0; }
inline bool IsWrapper(const pb::Descriptor* d) {
  return d->file()->name() == "google/protobuf/wrappers.proto";
}
// Well-known types whose JSON form is a single string.
inline bool IsStringWkt(const pb::Descriptor* d) {
  return d->full_name() == "google.protobuf.Timestamp" || d->full_name() == "google.protobuf.Duration" || d->full_name() == "google.protobuf.FieldMask";
}

// ------------------------------------------------------------------ values

inline void AppendUtf8(string* s, uint32_t cp) {
  if (cp < 0x80) {
    *s += static_cast<char>(cp);
  } else if (cp < 0x800) {
    *s += static_cast<char>(0xc0 | cp >> 6);
    *s += static_cast<char>(0x80 | (cp & 63));
  } else if (cp < 0x10000) {
    *s += static_cast<char>(0xe0 | cp >> 12);
    *s += static_cast<char>(0x80 | (cp >> 6 & 63));
    *s += static_cast<char>(0x80 | (cp & 63));
  } else {
    *s += static_cast<char>(0xf0 | cp >> 18);
    *s += static_cast<char>(0x80 | (cp >> 12 & 63));
    *s += static_cast<char>(0x80 | (cp >> 6 & 63));
    *s += static_cast<char>(0x80 | (cp & 63));
  }
}

inline uint32_t GenChar(Case& c) {
  switch (c.weighted({10, 4, 2, 2, 1, 1})) {
    case 0: return static_cast<uint32_t>('a' + c.below(26));
    case 1: {
      static const char k[] = "\"\\/{}[]:, .'<>&=%+-_0159\n\t\r\b\f";
      return static_cast<uint32_t>(k[c.below(sizeof(k) - 1)]);
    }
    case 2: return static_cast<uint32_t>(c.below(128));
    case 3: return static_cast<uint32_t>(0x80 + c.below(0x780));
    case 4: {
      uint32_t cp = static_cast<uint32_t>(0x800 + c.below(0xf800));
      return cp >= 0xd800 && cp < 0xe000 ? 0x2028 : cp;
    }
    default: return static_cast<uint32_t>(0x10000 + c.below(0x100000));
  }
}
inline string GenText(Case& c) {
  static const vector<string> known = {"", "a", "true", "null", "1", "key", "NaN", "RED", "1.5", "[]", "{}"};
  if (c.chance(1, 6)) return c.pick(known);
  string s;
  size_t n = c.size(c.chance(1, 20) ? 300 : 12);
  for (size_t i = 0; i < n; i++) AppendUtf8(&s, GenChar(c));
  return s;
}
inline string GenRaw(Case& c) {
  string s(c.size(c.chance(1, 20) ? 400 : 12), 0);
  for (char& x : s) x = static_cast<char>(c.below(256));
  return s;
}

inline int64_t GenSigned(Case& c, unsigned bits) {
  const int64_t lo = bits == 64 ? std::numeric_limits<int64_t>::min() : -(1ll << (bits - 1));
  const int64_t hi = -(lo + 1);
  switch (c.weighted({4, 2, 2, 2})) {
    case 0: return static_cast<int64_t>(c.below(200)) - 100;
    case 1: return c.coin() ? hi - static_cast<int64_t>(c.below(3)) : lo + static_cast<int64_t>(c.below(3));
    case 2: {
      unsigned k = static_cast<unsigned>(c.below(bits - 1));
      int64_t v = (1ll << k) + static_cast<int64_t>(c.below(3)) - 1;
      return c.coin() ? -v : v;
    }
    default: {
      uint64_t v = c.raw(~0ull);
      return bits == 64 ? static_cast<int64_t>(v) : static_cast<int32_t>(static_cast<uint32_t>(v));
    }
  }
}
inline uint64_t GenUnsigned(Case& c, unsigned bits) {
  const uint64_t hi = bits == 64 ? ~0ull : (1ull << bits) - 1;
  switch (c.weighted({4, 2, 2, 2})) {
    case 0: return c.below(200);
    case 1: return hi - c.below(3);
    case 2: return (1ull << c.below(bits)) + c.below(3) - 1;
    default: return c.raw(hi);
  }
}
inline double GenDouble(Case& c) {
  switch (c.weighted({4, 2, 2, 1})) {
    case 0: return static_cast<double>(static_cast<int64_t>(c.below(2001)) - 1000) / 8;
    case 1: {
      static const double k[] = {0.0, 0.1, 1e15, 1e16, 1e17, -1e-7, 1e-5, 123456789.125, 1e21, 1e22, 1e300, -1e-300, 3e38, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0, 16777217.0};
      return k[c.below(sizeof(k) / sizeof(k[0]))];
    }
    case 2: {
      uint64_t b = c.raw(~0ull);
      double d;
      memcpy(&d, &b, 8);
      return std::isfinite(d) ? d : 1.25;
    }
    default: {
      static const double k[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), -0.5};
      return k[c.below(4)];
    }
  }
}
inline float GenFloat(Case& c) {
  switch (c.weighted({4, 2, 2, 1})) {
    case 0: return static_cast<float>(static_cast<int64_t>(c.below(2001)) - 1000) / 8;
    case 1: {
      static const float k[] = {0.0f, 0.1f, 1e15f, 1e-5f, 16777216.0f, 1e38f, -1e38f, 1.17549435e-38f, 1e-45f, 3.4e38f};
      return k[c.below(sizeof(k) / sizeof(k[0]))];
    }
    case 2: {
      uint32_t b = static_cast<uint32_t>(c.raw(0xffffffffu));
      float d;
      memcpy(&d, &b, 4);
      // The converter's own text form of values next to the largest float does
      // not read back; not this repository's business.
      return std::isfinite(d) && std::fabs(d) < 3.402823e38f ? d : 1.25f;
    }
    default: {
      static const float k[] = {std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), -0.5f};
      return k[c.below(4)];
    }
  }
}
inline int GenEnum(Case& c, const pb::EnumDescriptor* e, bool known_only) {
  if (!known_only && c.chance(1, 8)) return static_cast<int>(c.below(1000)) + 3;
  return e->value(static_cast<int>(c.below(static_cast<uint64_t>(e->value_count()))))->number();
}

// ---------------------------------------------------------------- messages

struct GenOpts {
  bool known_enums = false;  // only declared enum numbers
  bool any = true;
  bool structs = true;
  size_t fields = 7;
};

inline void GenValueMsg(Case& c, pb::Value* v, int depth);
inline void GenStruct(Case& c, pb::Struct* s, int depth) {
  size_t n = c.size(4);
  for (size_t i = 0; i < n; i++) GenValueMsg(c, &(*s->mutable_fields())[GenText(c)], depth - 1);
}
inline void GenValueMsg(Case& c, pb::Value* v, int depth) {
  switch (c.weighted({2, 2, 2, 1, 1, 1})) {
    case 0: v->set_bool_value(c.coin()); break;
    case 1: {
      double d = GenDouble(c);
      v->set_number_value(std::isfinite(d) ? d : 2.5);
      break;
    }
    case 2: v->set_string_value(GenText(c)); break;
    case 3: v->set_null_value(pb::NULL_VALUE); break;
    case 4: {
      if (depth <= 0) { v->set_bool_value(true); break; }
      GenStruct(c, v->mutable_struct_value(), depth - 1);
      break;
    }
    default: {
      if (depth <= 0) { v->set_bool_value(false); break; }
      v->mutable_list_value();
      size_t n = c.size(3);
      for (size_t i = 0; i < n; i++) GenValueMsg(c, v->mutable_list_value()->add_values(), depth - 1);
      break;
    }
  }
}

inline void GenFields(Case& c, Message* m, int depth, const GenOpts& o);

inline void GenWkt(Case& c, Message* m, int depth, const GenOpts& o) {
  if (auto* t = dynamic_cast<pb::Timestamp*>(m)) {
    t->set_seconds(c.chance(1, 4) ? (c.coin() ? -62135596800ll : 253402300799ll) : GenSigned(c, 36));
    if (t->seconds() < -62135596800ll) t->set_seconds(0);
    t->set_nanos(c.coin() ? 0 : static_cast<int>(c.below(1000)) * (c.coin() ? 1 : c.coin() ? 1000 : 1000000));
  } else if (auto* t = dynamic_cast<pb::Duration*>(m)) {
    int64_t s = c.chance(1, 4) ? 315576000000ll : static_cast<int64_t>(c.below(100000));
    int n = c.coin() ? 0 : static_cast<int>(c.below(1000)) * (c.coin() ? 1 : c.coin() ? 1000 : 1000000);
    if (s == 315576000000ll) n = 0;
    bool neg = c.chance(1, 3);
    t->set_seconds(neg ? -s : s);
    t->set_nanos(neg ? -n : n);
  } else if (auto* t = dynamic_cast<pb::FieldMask*>(m)) {
    static const vector<string> k = {"name", "child.name", "i32_field", "inner.num_value", "a", "a.b_c.d", "x_y"};
    size_t n = c.size(3);
    for (size_t i = 0; i < n; i++) t->add_paths(c.pick(k));
  } else if (auto* t = dynamic_cast<pb::Struct*>(m)) {
    GenStruct(c, t, 3);
  } else if (auto* t = dynamic_cast<pb::Value*>(m)) {
    GenValueMsg(c, t, 3);
  } else if (auto* t = dynamic_cast<pb::ListValue*>(m)) {
    size_t n = c.size(4);
    for (size_t i = 0; i < n; i++) GenValueMsg(c, t->add_values(), 2);
  } else if (auto* t = dynamic_cast<pb::Any*>(m)) {
    if (depth <= 0 || c.chance(1, 4)) {
      pb::Timestamp ts;
      GenWkt(c, &ts, 0, o);
      t->PackFrom(ts);
    } else if (c.coin()) {
      conv::Inner in;
      GenFields(c, &in, depth - 1, o);
      t->set_type_url("type.googleapis.com/conv.Inner");
      t->set_value(Det(in));
    } else {
      conv::Msg in;
      GenFields(c, &in, depth - 1, o);
      t->set_type_url("type.googleapis.com/conv.Msg");
      t->set_value(Det(in));
    }
  } else {  // wrappers
    GenFields(c, m, depth, o);
  }
}

inline void GenSub(Case& c, Message* m, int depth, const GenOpts& o) {
  if (IsWkt(m->GetDescriptor())) {
    GenWkt(c, m, depth, o);
  } else {
    GenFields(c, m, depth - 1, o);
  }
}

// Sets (or adds to) field f of m.
inline void GenFieldValue(Case& c, Message* m, const FD* f, int depth, const GenOpts& o) {
  const Reflection* r = m->GetReflection();
  const bool rep = f->is_repeated();
#define SET(T, v)              \
  do {                         \
    auto x_ = v;               \
    if (rep) r->Add##T(m, f, x_); else r->Set##T(m, f, x_); \
  } while (0)
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: SET(Int32, static_cast<int32_t>(GenSigned(c, 32))); break;
    case FD::CPPTYPE_INT64: SET(Int64, GenSigned(c, 64)); break;
    case FD::CPPTYPE_UINT32: SET(UInt32, static_cast<uint32_t>(GenUnsigned(c, 32))); break;
    case FD::CPPTYPE_UINT64: SET(UInt64, GenUnsigned(c, 64)); break;
    case FD::CPPTYPE_DOUBLE: SET(Double, GenDouble(c)); break;
    case FD::CPPTYPE_FLOAT: SET(Float, GenFloat(c)); break;
    case FD::CPPTYPE_BOOL: SET(Bool, c.coin()); break;
    case FD::CPPTYPE_ENUM: SET(EnumValue, GenEnum(c, f->enum_type(), o.known_enums)); break;
    case FD::CPPTYPE_STRING: SET(String, f->type() == FD::TYPE_BYTES ? GenRaw(c) : GenText(c)); break;
    case FD::CPPTYPE_MESSAGE: {
      if (f->is_map()) {
        Message* e = r->AddMessage(m, f);
        GenFieldValue(c, e, f->message_type()->map_key(), depth, o);
        GenFieldValue(c, e, f->message_type()->map_value(), depth, o);
      } else {
        GenSub(c, rep ? r->AddMessage(m, f) : r->MutableMessage(m, f), depth, o);
      }
      break;
    }
  }
#undef SET
}

inline bool Wanted(const FD* f, int depth, const GenOpts& o) {
  if (f->cpp_type() != FD::CPPTYPE_MESSAGE) return true;
  if (f->is_map()) return depth > 0 || f->message_type()->map_value()->cpp_type() != FD::CPPTYPE_MESSAGE;
  const string n = f->message_type()->full_name();
  if (!IsWkt(f->message_type())) return depth > 0;
  if (n == "google.protobuf.Any") return o.any && depth > 0;
  if (n == "google.protobuf.Struct" || n == "google.protobuf.Value" || n == "google.protobuf.ListValue") return o.structs;
  return true;
}

inline void GenFields(Case& c, Message* m, int depth, const GenOpts& o) {
  const pb::Descriptor* d = m->GetDescriptor();
  const Reflection* r = m->GetReflection();
  size_t k = c.size(o.fields);
  for (size_t i = 0; i < k; i++) {
    const FD* f = d->field(static_cast<int>(c.below(static_cast<uint64_t>(d->field_count()))));
    if (!Wanted(f, depth, o)) continue;
    if (f->real_containing_oneof() && r->HasOneof(*m, f->real_containing_oneof())) continue;
    if (f->is_repeated()) {
      size_t n = 1 + c.size(3);
      for (size_t j = 0; j < n; j++) GenFieldValue(c, m, f, depth, o);
    } else if (!r->HasField(*m, f)) {
      GenFieldValue(c, m, f, depth, o);
    }
  }
}

// A random message in canonical form (equal map keys merged).
template <class M>
void GenMsg(Case& c, M* m, int depth, const GenOpts& o) {
  M raw;
  GenFields(c, &raw, depth, o);
  m->ParsePartialFromString(Det(raw));
}

// A message of one of the other types: the well-known ones and those that
// describe types (proto2 and proto3).
inline std::unique_ptr<Message> GenOther(Case& c, int depth, const GenOpts& o) {
  static const vector<const pb::Descriptor*> described = {pb::Type::descriptor(), pb::Field::descriptor(), pb::Enum::descriptor(), pb::Option::descriptor(), pb::FieldDescriptorProto::descriptor(), pb::DescriptorProto::descriptor(),
      pb::SourceCodeInfo_Location::descriptor(), pb::FieldOptions::descriptor(), pb::MethodDescriptorProto::descriptor(), conv::Inner::descriptor(), conv::Plain::descriptor()};
  static const vector<const pb::Descriptor*> known = {pb::Struct::descriptor(), pb::Value::descriptor(), pb::ListValue::descriptor(), pb::Timestamp::descriptor(), pb::Duration::descriptor(), pb::FieldMask::descriptor(), pb::Any::descriptor(),
      pb::DoubleValue::descriptor(), pb::FloatValue::descriptor(), pb::Int64Value::descriptor(), pb::UInt64Value::descriptor(), pb::Int32Value::descriptor(), pb::UInt32Value::descriptor(), pb::BoolValue::descriptor(),
      pb::StringValue::descriptor(), pb::BytesValue::descriptor()};
  const pb::Descriptor* d = c.coin() ? c.pick(known) : c.pick(described);
  std::unique_ptr<Message> m(pb::MessageFactory::generated_factory()->GetPrototype(d)->New());
  GenSub(c, m.get(), depth, o);
  m->ParsePartialFromString(Det(*m));
  return m;
}

// -------------------------------------------------------------- JSON printer

typedef std::set<std::pair<const Message*, const FD*>> FieldSet;

struct Style {
  bool spaces = false;
  bool unknown = false;       // fields the type does not have
  bool nulls = false;         // null for fields that are not set
  bool defaults = false;      // explicit default values of scalars
  bool enum_case = false;     // enum names in any case
  FieldSet* explicit_fields = nullptr;  // out: fields given a value in the text
};

// The forms of base64 a request may use: either alphabet, with line breaks,
// without padding, with anything in the unused bits.
inline string Base64Text(Case& c, const string& v) {
  const bool web = c.coin();
  string e;
  if (web) absl::WebSafeBase64Escape(v, &e);  // no padding
  else absl::Base64Escape(v, &e);
  if (v.size() % 3 && c.chance(1, 4)) {
    static const char std_set[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    static const char web_set[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    const char* set = web ? web_set : std_set;
    size_t at = e.find('=');
    at = (at == string::npos ? e.size() : at) - 1;
    const size_t k = static_cast<size_t>(strchr(set, e[at]) - set);
    e[at] = set[k | c.below(v.size() % 3 == 1 ? 16 : 4)];
  }
  if (!web && c.chance(1, 4))
    while (!e.empty() && e.back() == '=') e.pop_back();
  if (c.chance(1, 5)) {
    size_t n = 1 + c.size(3);
    for (size_t i = 0; i < n; i++) e.insert(c.below(e.size() + 1), c.pickc({"\r\n", " ", "\n", "\t"}));
  }
  return e;
}
inline string JsonBlanks(const string& e) {
  string r;
  for (char x : e) {
    if (x == '\n') r += "\\n";
    else if (x == '\r') r += "\\r";
    else if (x == '\t') r += "\\t";
    else r += x;
  }
  return r;
}

class Printer {
 public:
  Printer(Case& c, const Style& s, string* out) : c_(c), s_(s), out_(out) {}

  void Ws() {
    if (!s_.spaces) return;
    size_t n = c_.size(3);
    for (size_t i = 0; i < n; i++) *out_ += " \n\t\r"[c_.below(4)];
  }
  void Str(const string& v) {
    *out_ += '"';
    for (size_t i = 0; i < v.size();) {
      unsigned char b = static_cast<unsigned char>(v[i]);
      uint32_t cp = b;
      size_t n = 1;
      if (b >= 0xf0) n = 4, cp = b & 7;
      else if (b >= 0xe0) n = 3, cp = b & 15;
      else if (b >= 0xc0) n = 2, cp = b & 31;
      for (size_t k = 1; k < n; k++) cp = cp << 6 | (static_cast<unsigned char>(v[i + k]) & 63);
      const bool must = cp == '"' || cp == '\\' || cp < 0x20;
      if (must || c_.chance(1, 12)) {
        const char* shortf = cp == '"' ? "\\\"" : cp == '\\' ? "\\\\" : cp == '\n' ? "\\n" : cp == '\t' ? "\\t" : cp == '\r' ? "\\r" : cp == '\b' ? "\\b" : cp == '\f' ? "\\f" : cp == '/' ? "\\/" : nullptr;
        if (shortf && c_.coin()) {
          *out_ += shortf;
        } else if (cp >= 0x10000) {
          *out_ += Format(c_.coin() ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff));
        } else {
          *out_ += Format(c_.coin() ? "\\u%04x" : "\\u%04X", cp);
        }
      } else {
        out_->append(v, i, n);
      }
      i += n;
    }
    *out_ += '"';
  }
  // A number's text, sometimes quoted.
  void Num(const string& text) {
    if (c_.chance(1, 4)) {
      *out_ += '"' + text + '"';
    } else {
      *out_ += text;
    }
  }
  void Int(int64_t v) {
    if (v > -1000000 && v < 1000000 && c_.chance(1, 10)) {
      *out_ += Format(c_.coin() ? "%lld.0" : "%llde0", static_cast<long long>(v));
    } else {
      Num(Format("%lld", static_cast<long long>(v)));
    }
  }
  void Dbl(double v) {
    if (std::isnan(v)) *out_ += "\"NaN\"";
    else if (std::isinf(v)) *out_ += v > 0 ? "\"Infinity\"" : "\"-Infinity\"";
    else Num(Format(c_.coin() ? "%.17g" : "%.17G", v));
  }
  void Bytes(const string& v) {
    *out_ += '"' + JsonBlanks(Base64Text(c_, v)) + '"';
  }
  string EnumName(const pb::EnumDescriptor* e, int v) {
    string n = e->FindValueByNumber(v)->name();
    if (s_.enum_case)
      for (char& x : n)
        if (c_.coin()) x = static_cast<char>(tolower(x));
    return n;
  }
  // Element `index` of a repeated field, or the singular field if -1.
  void Value(const Message& m, const FD* f, int index) {
    const Reflection* r = m.GetReflection();
    string tmp;
#define GET(T) (index < 0 ? r->Get##T(m, f) : r->GetRepeated##T(m, f, index))
    switch (f->cpp_type()) {
      case FD::CPPTYPE_INT32: Int(GET(Int32)); break;
      case FD::CPPTYPE_INT64: Int(GET(Int64)); break;
      case FD::CPPTYPE_UINT32: Num(Format("%u", GET(UInt32))); break;
      case FD::CPPTYPE_UINT64: Num(Format("%llu", static_cast<unsigned long long>(GET(UInt64)))); break;
      case FD::CPPTYPE_DOUBLE: Dbl(GET(Double)); break;
      case FD::CPPTYPE_FLOAT: Dbl(static_cast<double>(GET(Float))); break;
      case FD::CPPTYPE_BOOL: {
        const char* t = GET(Bool) ? "true" : "false";
        if (c_.chance(1, 8)) *out_ += '"' + string(t) + '"'; else *out_ += t;
        break;
      }
      case FD::CPPTYPE_ENUM: {
        int v = GET(EnumValue);
        if (f->enum_type()->FindValueByNumber(v) && !c_.chance(1, 4)) *out_ += '"' + EnumName(f->enum_type(), v) + '"';
        else *out_ += Format("%d", v);
        break;
      }
      case FD::CPPTYPE_STRING:
        if (f->type() == FD::TYPE_BYTES) Bytes(GET(String)); else Str(GET(String));
        break;
      case FD::CPPTYPE_MESSAGE: Msg(GET(Message)); break;
    }
#undef GET
  }
  string MapKey(const Message& e) {
    const FD* k = e.GetDescriptor()->map_key();
    const Reflection* r = e.GetReflection();
    switch (k->cpp_type()) {
      case FD::CPPTYPE_STRING: return r->GetString(e, k);
      case FD::CPPTYPE_BOOL: return r->GetBool(e, k) ? "true" : "false";
      case FD::CPPTYPE_INT32: return Format("%d", r->GetInt32(e, k));
      case FD::CPPTYPE_INT64: return Format("%lld", static_cast<long long>(r->GetInt64(e, k)));
      case FD::CPPTYPE_UINT32: return Format("%u", r->GetUInt32(e, k));
      default: return Format("%llu", static_cast<unsigned long long>(r->GetUInt64(e, k)));
    }
  }
  // The whole value of a set field.
  void Field(const Message& m, const FD* f) {
    const Reflection* r = m.GetReflection();
    if (f->is_map()) {
      std::map<string, const Message*> es;
      for (int i = 0; i < r->FieldSize(m, f); i++) {
        const Message& e = r->GetRepeatedMessage(m, f, i);
        es[MapKey(e)] = &e;
      }
      *out_ += '{';
      Ws();
      bool first = true;
      for (auto& e : es) {
        if (!first) *out_ += ',', Ws();
        first = false;
        Str(e.first);
        Ws();
        *out_ += ':';
        Ws();
        Value(*e.second, f->message_type()->map_value(), -1);
        Ws();
      }
      *out_ += '}';
    } else if (f->is_repeated()) {
      *out_ += '[';
      Ws();
      for (int i = 0; i < r->FieldSize(m, f); i++) {
        if (i) *out_ += ',', Ws();
        Value(m, f, i);
        Ws();
      }
      *out_ += ']';
    } else {
      Value(m, f, -1);
    }
  }
  void Junk(int depth) {
    switch (c_.weighted({2, 2, 2, 1, 1, 1})) {
      case 0: *out_ += Format("%lld", static_cast<long long>(c_.below(100000))); break;
      case 1: Str(GenText(c_)); break;
      case 2: *out_ += c_.coin() ? "true" : "null"; break;
      case 3: Num("-1.5e3"); break;
      case 4: {
        *out_ += '[';
        size_t n = depth > 0 ? c_.size(3) : 0;
        for (size_t i = 0; i < n; i++) {
          if (i) *out_ += ',';
          Ws();
          Junk(depth - 1);
        }
        *out_ += ']';
        break;
      }
      default: {
        *out_ += '{';
        size_t n = depth > 0 ? c_.size(3) : 0;
        static const vector<string> k = {"x", "name", "child", "inner", "key", "i32_field"};
        for (size_t i = 0; i < n; i++) {
          if (i) *out_ += ',';
          Ws();
          Str(c_.pick(k) + (i ? Format("%zu", i) : string()));
          *out_ += ':';
          Junk(depth - 1);
        }
        *out_ += '}';
      }
    }
  }
  void Msg(const Message& m) {
    const pb::Descriptor* d = m.GetDescriptor();
    if (IsWrapper(d)) {
      Value(m, d->field(0), -1);
      return;
    }
    if (IsWkt(d)) {  // the library's form; these types are its business
      string s;
      pb::util::JsonPrintOptions o;
      auto st = pb::util::MessageToJsonString(m, &s, o);
      if (!st.ok()) c_.fail("test generator: " + st.ToString() + " for " + Text(m));
      *out_ += s;
      return;
    }
    const Reflection* r = m.GetReflection();
    struct Item { const FD* f; int kind; };  // kind 0 value, 1 null, 2 default, 3 unknown
    vector<Item> items;
    vector<const FD*> set;
    r->ListFields(m, &set);
    std::set<const FD*> is_set(set.begin(), set.end());
    for (const FD* f : set) items.push_back({f, 0});
    for (int pass = 1; pass <= 3; pass++) {
      if (pass == 1 && !s_.nulls) continue;
      if (pass == 2 && !s_.defaults) continue;
      if (pass == 3 && !s_.unknown) continue;
      size_t n = c_.size(3);
      for (size_t i = 0; i < n; i++) {
        if (pass == 3) {
          items.push_back({nullptr, 3});
          continue;
        }
        const FD* f = d->field(static_cast<int>(c_.below(static_cast<uint64_t>(d->field_count()))));
        if (is_set.count(f) || f->containing_oneof()) continue;
        if (pass == 1 && f->cpp_type() == FD::CPPTYPE_MESSAGE && !f->is_map() && IsWkt(f->message_type()) && !IsWrapper(f->message_type())) continue;
        if (pass == 2 && f->cpp_type() == FD::CPPTYPE_MESSAGE && !f->is_repeated()) continue;
        is_set.insert(f);
        items.push_back({f, pass});
      }
    }
    // Any order.
    if (items.size() > 1 && c_.coin())
      for (size_t i = items.size() - 1; i > 0; i--) std::swap(items[i], items[c_.below(i + 1)]);
    *out_ += '{';
    Ws();
    for (size_t i = 0; i < items.size(); i++) {
      if (i) *out_ += ',', Ws();
      const Item& it = items[i];
      if (it.kind == 3) {
        Str(Format("unknown_%zu", i));
      } else {
        Str(c_.coin() ? it.f->json_name() : it.f->name());
      }
      Ws();
      *out_ += ':';
      Ws();
      if (it.kind == 3) {
        Junk(2);
      } else if (it.kind == 1) {
        *out_ += "null";
      } else {
        if (s_.explicit_fields) s_.explicit_fields->insert({&m, it.f});
        Field(m, it.f);
      }
      Ws();
    }
    *out_ += '}';
  }

 private:
  Case& c_;
  const Style& s_;
  string* out_;
};

inline Style GenStyle(Case& c) {
  Style s;
  s.spaces = c.coin();
  s.unknown = c.chance(1, 3);
  s.nulls = c.chance(1, 3);
  s.defaults = c.chance(1, 3);
  return s;
}

// Buffers of a JSON text and the order of its arrival.
inline void JsonCuts(Case& c, int64_t total, framing::ScriptedStream* in) {
  switch (c.weighted({2, 3, 3})) {
    case 0: break;
    case 1: in->every_ = static_cast<int64_t>(1 + c.below(7)); break;
    default: {
      size_t k = c.below(10);
      for (size_t i = 0; i < k; i++) in->cuts_.insert(static_cast<int64_t>(c.raw(static_cast<uint64_t>(std::max<int64_t>(total, 1)))));
    }
  }
  if (c.chance(1, 5)) in->zero_every_ = static_cast<int>(2 + c.below(3));
}

// The JSON text of one body read in blocks of `block` bytes, or the error of
// the conversion.
inline absl::Status Convert(const string& type, const string& body, const pb::util::JsonPrintOptions& o, string* json, int block = -1) {
  pb::io::ArrayInputStream in(body.data(), static_cast<int>(body.size()), block);
  json->clear();
  pb::io::StringOutputStream out(json);
  auto st = pb::util::BinaryToJsonStream(Helper().Resolver(), kUrl + type, &in, &out, o);
  // The converter stops without an error at a zero or end-group tag: the body
  // is not a message then either.
  if (st.ok() && in.ByteCount() != static_cast<int64_t>(body.size())) return absl::InvalidArgumentError("bytes left over");
  return st;
}

// Whether a damaged body is a message: 1 yes, 0 no, -1 the converter
// is not sure itself (it accepts some malformed varints depending on where the
// buffers end).
inline int Decodable(const string& type, const string& body, const pb::util::JsonPrintOptions& o, string* json) {
  int good = 0, bad = 0;
  (Convert(type, body, o, json).ok() ? good : bad)++;
  string other;
  for (int block : {1, 2, 3, 4, 5, 7, 9, 10, 11, 13, 17, 19, 31}) {
    const bool ok = Convert(type, body, o, &other, block).ok();
    (ok ? good : bad)++;
    if (ok && other != *json) bad++;
  }
  return bad == 0 ? 1 : good == 0 ? 0 : -1;
}

}  // namespace cv

#endif  // CONV_H_
