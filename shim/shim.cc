// Forwards the stand-in converter classes to the converter compiled into the
// installed libprotobuf 3.21.  The declarations in namespace `converter` below
// follow the class layouts of that release.
#define VERIF_SHIM_IMPLEMENTATION
#include "verif_shim.h"

#include <sched.h>

#include <atomic>
#include <cstring>
#include <mutex>
#include <new>

std::atomic<bool> verif_typeinfo_probe{false};
std::atomic<int> verif_typeinfo_overlaps{0};

namespace google {
namespace protobuf {
namespace util {

namespace statusor_internal {
template <typename T>
struct StatusOr {
  Status status_;
  T value_;
};
}  // namespace statusor_internal
using statusor_internal::StatusOr;

// ---- the real classes, as compiled into libprotobuf ----
namespace converter {

class ObjectWriter;
class DataPiece {
 public:
  DataPiece(int type, bool strict) : type_(type), strict_(strict) {
    memset(&u_, 0, sizeof u_);
  }
  virtual ~DataPiece() {}
  StatusOr<int32_t> ToInt32() const;
  StatusOr<uint32_t> ToUint32() const;
  StatusOr<int64_t> ToInt64() const;
  StatusOr<uint64_t> ToUint64() const;
  StatusOr<double> ToDouble() const;
  StatusOr<float> ToFloat() const;
  StatusOr<bool> ToBool() const;
  StatusOr<std::string> ToString() const;
  StatusOr<std::string> ToBytes() const;
  std::string ValueAsStringOrDefault(StringPiece default_string) const;

  int type_;
  struct Str { const char* p; size_t n; };
  union { int32_t i32; int64_t i64; uint32_t u32; uint64_t u64; double d; float f; bool b; Str s; } u_;
  bool strict_;
};

class ObjectWriter {
 public:
  virtual ~ObjectWriter() {}
  virtual ObjectWriter* StartObject(StringPiece name) = 0;
  virtual ObjectWriter* EndObject() = 0;
  virtual ObjectWriter* StartList(StringPiece name) = 0;
  virtual ObjectWriter* EndList() = 0;
  virtual ObjectWriter* RenderBool(StringPiece name, bool value) = 0;
  virtual ObjectWriter* RenderInt32(StringPiece name, int32_t value) = 0;
  virtual ObjectWriter* RenderUint32(StringPiece name, uint32_t value) = 0;
  virtual ObjectWriter* RenderInt64(StringPiece name, int64_t value) = 0;
  virtual ObjectWriter* RenderUint64(StringPiece name, uint64_t value) = 0;
  virtual ObjectWriter* RenderDouble(StringPiece name, double value) = 0;
  virtual ObjectWriter* RenderFloat(StringPiece name, float value) = 0;
  virtual ObjectWriter* RenderString(StringPiece name, StringPiece value) = 0;
  virtual ObjectWriter* RenderBytes(StringPiece name, StringPiece value) = 0;
  virtual ObjectWriter* RenderNull(StringPiece name) = 0;
  static void RenderDataPieceTo(const DataPiece& data, StringPiece name, ObjectWriter* ow);
  bool use_strict_base64_decoding_ = true;
};

class LocationTrackerInterface {
 public:
  virtual ~LocationTrackerInterface() {}
  virtual std::string ToString() const = 0;
};

class ErrorListener {
 public:
  virtual ~ErrorListener() {}
  virtual void InvalidName(const LocationTrackerInterface& loc, StringPiece unknown_name, StringPiece message) = 0;
  virtual void InvalidValue(const LocationTrackerInterface& loc, StringPiece type_name, StringPiece value) = 0;
  virtual void MissingField(const LocationTrackerInterface& loc, StringPiece missing_name) = 0;
};

class TypeInfo {
 public:
  virtual ~TypeInfo() {}
  virtual StatusOr<const Type*> ResolveTypeUrl(StringPiece type_url) const = 0;
  virtual const Type* GetTypeByTypeUrl(StringPiece type_url) const = 0;
  virtual const Enum* GetEnumByTypeUrl(StringPiece type_url) const = 0;
  virtual const Field* FindField(const Type* type, StringPiece camel_case_name) const = 0;
  static TypeInfo* NewTypeInfo(TypeResolver* type_resolver);
};

// Only ever constructed in place, with room to spare.
class JsonStreamParser {
 public:
  explicit JsonStreamParser(ObjectWriter* ow);
  virtual ~JsonStreamParser();
  Status Parse(StringPiece json);
  Status FinishParse();
};

class ProtoStreamObjectWriter : public ObjectWriter {
 public:
  struct Options { bool flags[13]; };
  ProtoStreamObjectWriter(TypeResolver* type_resolver, const Type& type, strings::ByteSink* output,
                          ErrorListener* listener, const Options& options);
  ~ProtoStreamObjectWriter() override;
  virtual bool done() = 0;
};

}  // namespace converter

namespace {

using absl::string_view;
StringPiece P(string_view s) { return StringPiece(s.data(), s.size()); }
string_view V(StringPiece s) { return string_view(s.data(), s.size()); }
absl::Status A(const Status& s) {
  if (s.ok()) return absl::OkStatus();
  return absl::Status(static_cast<absl::StatusCode>(s.code()), V(s.message()));
}
Status U(const absl::Status& s) {
  if (s.ok()) return Status();
  return Status(static_cast<StatusCode>(s.code()), P(s.message()));
}
template <typename T>
absl::StatusOr<T> AO(StatusOr<T>&& s) {
  if (s.status_.ok()) return std::move(s.value_);
  return A(s.status_);
}

// Lets the library call a resolver written for the new interface.
class ToRealResolver : public TypeResolver {
 public:
  explicit ToRealResolver(TypeResolverShim* r) : r_(r) {}
  Status ResolveMessageType(const std::string& url, Type* t) override { return U(r_->ResolveMessageType(url, t)); }
  Status ResolveEnumType(const std::string& url, Enum* e) override { return U(r_->ResolveEnumType(url, e)); }

 private:
  TypeResolverShim* r_;
};
class FromRealResolver : public TypeResolverShim {
 public:
  explicit FromRealResolver(TypeResolver* r) : r_(r) {}
  absl::Status ResolveMessageType(const std::string& url, Type* t) override { return A(r_->ResolveMessageType(url, t)); }
  absl::Status ResolveEnumType(const std::string& url, Enum* e) override { return A(r_->ResolveEnumType(url, e)); }

 private:
  std::unique_ptr<TypeResolver> r_;
};

// Lets the library write to a writer of the new interface.
class ToRealWriter : public converter::ObjectWriter {
 public:
  explicit ToRealWriter(converter_shim::ObjectWriter* w) : w_(w) {}
  ToRealWriter* StartObject(StringPiece n) override { w_->StartObject(V(n)); return this; }
  ToRealWriter* EndObject() override { w_->EndObject(); return this; }
  ToRealWriter* StartList(StringPiece n) override { w_->StartList(V(n)); return this; }
  ToRealWriter* EndList() override { w_->EndList(); return this; }
  ToRealWriter* RenderBool(StringPiece n, bool v) override { w_->RenderBool(V(n), v); return this; }
  ToRealWriter* RenderInt32(StringPiece n, int32_t v) override { w_->RenderInt32(V(n), v); return this; }
  ToRealWriter* RenderUint32(StringPiece n, uint32_t v) override { w_->RenderUint32(V(n), v); return this; }
  ToRealWriter* RenderInt64(StringPiece n, int64_t v) override { w_->RenderInt64(V(n), v); return this; }
  ToRealWriter* RenderUint64(StringPiece n, uint64_t v) override { w_->RenderUint64(V(n), v); return this; }
  ToRealWriter* RenderDouble(StringPiece n, double v) override { w_->RenderDouble(V(n), v); return this; }
  ToRealWriter* RenderFloat(StringPiece n, float v) override { w_->RenderFloat(V(n), v); return this; }
  ToRealWriter* RenderString(StringPiece n, StringPiece v) override { w_->RenderString(V(n), V(v)); return this; }
  ToRealWriter* RenderBytes(StringPiece n, StringPiece v) override { w_->RenderBytes(V(n), V(v)); return this; }
  ToRealWriter* RenderNull(StringPiece n) override { w_->RenderNull(V(n)); return this; }

 private:
  converter_shim::ObjectWriter* w_;
};

class FromRealLocation : public converter_shim::LocationTrackerInterface {
 public:
  explicit FromRealLocation(const converter::LocationTrackerInterface& l) : l_(l) {}
  std::string ToString() const override { return l_.ToString(); }

 private:
  const converter::LocationTrackerInterface& l_;
};
class ToRealListener : public converter::ErrorListener {
 public:
  explicit ToRealListener(converter_shim::ErrorListener* l) : l_(l) {}
  void InvalidName(const converter::LocationTrackerInterface& loc, StringPiece a, StringPiece b) override { l_->InvalidName(FromRealLocation(loc), V(a), V(b)); }
  void InvalidValue(const converter::LocationTrackerInterface& loc, StringPiece a, StringPiece b) override { l_->InvalidValue(FromRealLocation(loc), V(a), V(b)); }
  void MissingField(const converter::LocationTrackerInterface& loc, StringPiece a) override { l_->MissingField(FromRealLocation(loc), V(a)); }

 private:
  converter_shim::ErrorListener* l_;
};

// The library's type information fills caches as it answers and is not
// thread-safe: two calls inside one object at the same time are a race.
// Counted here, with the window held open, when a check asks for it.
class FromRealTypeInfo : public converter_shim::TypeInfo {
 public:
  explicit FromRealTypeInfo(TypeResolverShim* r) : resolver_(r), info_(converter::TypeInfo::NewTypeInfo(&resolver_)) {}
  absl::StatusOr<const Type*> ResolveTypeUrl(string_view url) const override { Inside in(this); return AO(info_->ResolveTypeUrl(P(url))); }
  const Type* GetTypeByTypeUrl(string_view url) const override { Inside in(this); return info_->GetTypeByTypeUrl(P(url)); }
  const Enum* GetEnumByTypeUrl(string_view url) const override { Inside in(this); return info_->GetEnumByTypeUrl(P(url)); }
  const Field* FindField(const Type* type, string_view name) const override { Inside in(this); return info_->FindField(type, P(name)); }

 private:
  struct Inside {
    explicit Inside(const FromRealTypeInfo* i) : i_(verif_typeinfo_probe.load(std::memory_order_relaxed) ? i : nullptr) {
      if (!i_) return;
      if (i_->inside_.fetch_add(1) != 0) verif_typeinfo_overlaps++;
      // An overlap is only counted; the calls themselves are kept apart.
      sched_yield();
      i_->apart_.lock();
    }
    ~Inside() {
      if (!i_) return;
      i_->apart_.unlock();
      i_->inside_.fetch_sub(1);
    }
    const FromRealTypeInfo* i_;
  };
  ToRealResolver resolver_;
  std::unique_ptr<converter::TypeInfo> info_;
  mutable std::atomic<int> inside_{0};
  mutable std::mutex apart_;
};

}  // namespace

TypeResolverShim* NewTypeResolverForDescriptorPoolShim(const std::string& url_prefix, const DescriptorPool* pool) {
  return new FromRealResolver(NewTypeResolverForDescriptorPool(url_prefix, pool));
}
absl::Status BinaryToJsonStreamShim(TypeResolverShim* resolver, const std::string& type_url,
                                    io::ZeroCopyInputStream* in, io::ZeroCopyOutputStream* out,
                                    const JsonPrintOptions& options) {
  ToRealResolver r(resolver);
  return A(BinaryToJsonStream(&r, type_url, in, out, options));
}
absl::Status JsonToBinaryStringShim(TypeResolverShim* resolver, const std::string& type_url, string_view json,
                                    std::string* out) {
  ToRealResolver r(resolver);
  return A(JsonToBinaryString(&r, type_url, P(json), out));
}

namespace converter_shim {

struct RealPiece {
  explicit RealPiece(const DataPiece& d) : p(d.type_, d.strict_) {
    switch (d.type_) {
      case DataPiece::TYPE_INT32: p.u_.i32 = d.i64_; break;
      case DataPiece::TYPE_INT64: p.u_.i64 = d.i64_; break;
      case DataPiece::TYPE_UINT32: p.u_.u32 = d.u64_; break;
      case DataPiece::TYPE_UINT64: p.u_.u64 = d.u64_; break;
      case DataPiece::TYPE_DOUBLE: p.u_.d = d.double_; break;
      case DataPiece::TYPE_FLOAT: p.u_.f = d.float_; break;
      case DataPiece::TYPE_BOOL: p.u_.b = d.bool_; break;
      case DataPiece::TYPE_STRING:
      case DataPiece::TYPE_BYTES: p.u_.s = {d.str_.data(), d.str_.size()}; break;
      default: break;
    }
  }
  converter::DataPiece p;
};
absl::StatusOr<int32_t> DataPiece::ToInt32() const { return AO(RealPiece(*this).p.ToInt32()); }
absl::StatusOr<uint32_t> DataPiece::ToUint32() const { return AO(RealPiece(*this).p.ToUint32()); }
absl::StatusOr<int64_t> DataPiece::ToInt64() const { return AO(RealPiece(*this).p.ToInt64()); }
absl::StatusOr<uint64_t> DataPiece::ToUint64() const { return AO(RealPiece(*this).p.ToUint64()); }
absl::StatusOr<double> DataPiece::ToDouble() const { return AO(RealPiece(*this).p.ToDouble()); }
absl::StatusOr<float> DataPiece::ToFloat() const { return AO(RealPiece(*this).p.ToFloat()); }
absl::StatusOr<bool> DataPiece::ToBool() const { return AO(RealPiece(*this).p.ToBool()); }
absl::StatusOr<std::string> DataPiece::ToString() const { return AO(RealPiece(*this).p.ToString()); }
absl::StatusOr<std::string> DataPiece::ToBytes() const { return AO(RealPiece(*this).p.ToBytes()); }
std::string DataPiece::ValueAsStringOrDefault(string_view s) const { return RealPiece(*this).p.ValueAsStringOrDefault(P(s)); }

void ObjectWriter::RenderDataPieceTo(const DataPiece& data, string_view name, ObjectWriter* ow) {
  ToRealWriter w(ow);
  w.use_strict_base64_decoding_ = ow->use_strict_base64_decoding();
  converter::ObjectWriter::RenderDataPieceTo(RealPiece(data).p, P(name), &w);
}

TypeInfo* TypeInfo::NewTypeInfo(TypeResolverShim* r) { return new FromRealTypeInfo(r); }

struct JsonStreamParser::Impl {
  explicit Impl(ObjectWriter* ow) : w(ow) { new (room) converter::JsonStreamParser(&w); }
  ~Impl() { p()->~JsonStreamParser(); }
  converter::JsonStreamParser* p() { return reinterpret_cast<converter::JsonStreamParser*>(room); }
  ToRealWriter w;
  alignas(16) char room[2048];
};
JsonStreamParser::JsonStreamParser(ObjectWriter* ow) : impl_(new Impl(ow)) {}
JsonStreamParser::~JsonStreamParser() {}
absl::Status JsonStreamParser::Parse(string_view json) { return A(impl_->p()->Parse(P(json))); }
absl::Status JsonStreamParser::FinishParse() { return A(impl_->p()->FinishParse()); }

}  // namespace converter_shim
}  // namespace util
}  // namespace protobuf
}  // namespace google

// The real constructor and destructor, called on raw memory: the class cannot
// be declared in full here.
extern "C" {
void verif_psow_ctor(void* self, google::protobuf::util::TypeResolver*, const google::protobuf::Type&,
                     google::protobuf::strings::ByteSink*, google::protobuf::util::converter::ErrorListener*,
                     const google::protobuf::util::converter::ProtoStreamObjectWriter::Options&)
    __asm__("_ZN6google8protobuf4util9converter23ProtoStreamObjectWriterC1EPNS1_12TypeResolverERKNS0_4TypeEPNS0_7strings8ByteSinkEPNS2_13ErrorListenerERKNS3_7OptionsE");
void verif_psow_dtor(void* self) __asm__("_ZN6google8protobuf4util9converter23ProtoStreamObjectWriterD1Ev");
}

namespace google {
namespace protobuf {
namespace util {
namespace converter_shim {

struct ProtoStreamObjectWriter::Impl {
  Impl(TypeResolverShim* r, const google::protobuf::Type& type, strings::ByteSink* out, ErrorListener* l, const Options& o)
      : resolver(r), listener(l) {
    static_assert(sizeof(Options) == 13, "one byte per option");
    converter::ProtoStreamObjectWriter::Options ro;
    memcpy(ro.flags, &o, 13);
    verif_psow_ctor(room, &resolver, type, out, &listener, ro);
  }
  ~Impl() { verif_psow_dtor(room); }
  __attribute__((no_sanitize("vptr"))) converter::ProtoStreamObjectWriter* w() { return reinterpret_cast<converter::ProtoStreamObjectWriter*>(room); }
  ToRealResolver resolver;
  ToRealListener listener;
  alignas(16) char room[2048];
};
ProtoStreamObjectWriter::ProtoStreamObjectWriter(TypeResolverShim* r, const google::protobuf::Type& type, strings::ByteSink* out,
                                                 ErrorListener* l, const Options& o)
    : impl_(new Impl(r, type, out, l, o)) {}
ProtoStreamObjectWriter::~ProtoStreamObjectWriter() {}
bool ProtoStreamObjectWriter::done() { return impl_->w()->done(); }
void ProtoStreamObjectWriter::set_use_strict_base64_decoding(bool v) {
  ObjectWriter::set_use_strict_base64_decoding(v);
  impl_->w()->use_strict_base64_decoding_ = v;
}
#define W impl_->w()
ProtoStreamObjectWriter* ProtoStreamObjectWriter::StartObject(string_view n) { W->StartObject(P(n)); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::EndObject() { W->EndObject(); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::StartList(string_view n) { W->StartList(P(n)); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::EndList() { W->EndList(); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderBool(string_view n, bool v) { W->RenderBool(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderInt32(string_view n, int32_t v) { W->RenderInt32(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderUint32(string_view n, uint32_t v) { W->RenderUint32(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderInt64(string_view n, int64_t v) { W->RenderInt64(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderUint64(string_view n, uint64_t v) { W->RenderUint64(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderDouble(string_view n, double v) { W->RenderDouble(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderFloat(string_view n, float v) { W->RenderFloat(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderString(string_view n, string_view v) { W->RenderString(P(n), P(v)); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderBytes(string_view n, string_view v) { W->RenderBytes(P(n), P(v)); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderNull(string_view n) { W->RenderNull(P(n)); return this; }
#undef W

}  // namespace converter_shim
}  // namespace util
}  // namespace protobuf
}  // namespace google
