// Stand-in for the protobuf proto<->JSON converter headers this repository
// was written against (protobuf 22+, absl types).  The protobuf installed in
// the sandbox is 3.21: its library has the same converter, compiled in, but
// with StringPiece / util::Status types and without the internal headers.
// The classes here have the interface the repository expects and forward
// every call to the compiled converter (see shim.cc).
#ifndef VERIF_SHIM_H_
#define VERIF_SHIM_H_

#include <cstdint>
#include <memory>
#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
// Everything from the installed protobuf that mentions the names redefined at
// the end of this file has to be seen before they are.
#include <google/protobuf/any.pb.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/io/zero_copy_stream_impl.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/stubs/bytestream.h>
#include <google/protobuf/stubs/strutil.h>
#include <google/protobuf/type.pb.h>
#include <google/protobuf/util/field_comparator.h>
#include <google/protobuf/util/message_differencer.h>
#include_next <google/protobuf/util/type_resolver.h>
#include_next <google/protobuf/util/type_resolver_util.h>
#include_next <google/protobuf/util/json_util.h>

namespace google {
namespace protobuf {
namespace util {

class TypeResolverShim {
 public:
  TypeResolverShim() {}
  virtual ~TypeResolverShim() {}
  virtual absl::Status ResolveMessageType(const std::string& type_url,
                                          Type* message_type) = 0;
  virtual absl::Status ResolveEnumType(const std::string& type_url,
                                       Enum* enum_type) = 0;
};
TypeResolverShim* NewTypeResolverForDescriptorPoolShim(
    const std::string& url_prefix, const DescriptorPool* pool);
absl::Status BinaryToJsonStreamShim(TypeResolverShim* resolver,
                                    const std::string& type_url,
                                    io::ZeroCopyInputStream* binary_input,
                                    io::ZeroCopyOutputStream* json_output,
                                    const JsonPrintOptions& options);
absl::Status JsonToBinaryStringShim(TypeResolverShim* resolver,
                                    const std::string& type_url,
                                    absl::string_view json_input,
                                    std::string* binary_output);

namespace converter_shim {

class DataPiece {
 public:
  enum Type {
    TYPE_INT32 = 1, TYPE_INT64 = 2, TYPE_UINT32 = 3, TYPE_UINT64 = 4,
    TYPE_DOUBLE = 5, TYPE_FLOAT = 6, TYPE_BOOL = 7, TYPE_ENUM = 8,
    TYPE_STRING = 9, TYPE_BYTES = 10, TYPE_NULL = 11,
  };
  explicit DataPiece(int32_t v) : type_(TYPE_INT32), i64_(v) {}
  explicit DataPiece(int64_t v) : type_(TYPE_INT64), i64_(v) {}
  explicit DataPiece(uint32_t v) : type_(TYPE_UINT32), u64_(v) {}
  explicit DataPiece(uint64_t v) : type_(TYPE_UINT64), u64_(v) {}
  explicit DataPiece(double v) : type_(TYPE_DOUBLE), double_(v) {}
  explicit DataPiece(float v) : type_(TYPE_FLOAT), float_(v) {}
  explicit DataPiece(bool v) : type_(TYPE_BOOL), bool_(v) {}
  DataPiece(absl::string_view v, bool use_strict_base64_decoding)
      : type_(TYPE_STRING), str_(v), strict_(use_strict_base64_decoding) {}
  // Bytes.
  DataPiece(absl::string_view v, bool dummy, bool use_strict_base64_decoding)
      : type_(TYPE_BYTES), str_(v), strict_(use_strict_base64_decoding) {}
  static DataPiece NullData() { DataPiece d(false); d.type_ = TYPE_NULL; return d; }
  virtual ~DataPiece() {}

  Type type() const { return type_; }
  bool use_strict_base64_decoding() const { return strict_; }
  absl::string_view str() const { return str_; }

  absl::StatusOr<int32_t> ToInt32() const;
  absl::StatusOr<uint32_t> ToUint32() const;
  absl::StatusOr<int64_t> ToInt64() const;
  absl::StatusOr<uint64_t> ToUint64() const;
  absl::StatusOr<double> ToDouble() const;
  absl::StatusOr<float> ToFloat() const;
  absl::StatusOr<bool> ToBool() const;
  absl::StatusOr<std::string> ToString() const;
  absl::StatusOr<std::string> ToBytes() const;
  std::string ValueAsStringOrDefault(absl::string_view default_string) const;

 private:
  friend struct RealPiece;
  Type type_;
  int64_t i64_ = 0;
  uint64_t u64_ = 0;
  double double_ = 0;
  float float_ = 0;
  bool bool_ = false;
  absl::string_view str_;
  bool strict_ = false;
};

class ObjectWriter {
 public:
  virtual ~ObjectWriter() {}
  virtual ObjectWriter* StartObject(absl::string_view name) = 0;
  virtual ObjectWriter* EndObject() = 0;
  virtual ObjectWriter* StartList(absl::string_view name) = 0;
  virtual ObjectWriter* EndList() = 0;
  virtual ObjectWriter* RenderBool(absl::string_view name, bool value) = 0;
  virtual ObjectWriter* RenderInt32(absl::string_view name, int32_t value) = 0;
  virtual ObjectWriter* RenderUint32(absl::string_view name, uint32_t value) = 0;
  virtual ObjectWriter* RenderInt64(absl::string_view name, int64_t value) = 0;
  virtual ObjectWriter* RenderUint64(absl::string_view name, uint64_t value) = 0;
  virtual ObjectWriter* RenderDouble(absl::string_view name, double value) = 0;
  virtual ObjectWriter* RenderFloat(absl::string_view name, float value) = 0;
  virtual ObjectWriter* RenderString(absl::string_view name, absl::string_view value) = 0;
  virtual ObjectWriter* RenderBytes(absl::string_view name, absl::string_view value) = 0;
  virtual ObjectWriter* RenderNull(absl::string_view name) = 0;
  static void RenderDataPieceTo(const DataPiece& data, absl::string_view name,
                                ObjectWriter* ow);
  bool use_strict_base64_decoding() { return use_strict_base64_decoding_; }
  virtual void set_use_strict_base64_decoding(bool v) { use_strict_base64_decoding_ = v; }

 protected:
  ObjectWriter() : use_strict_base64_decoding_(true) {}

 private:
  bool use_strict_base64_decoding_;
  ObjectWriter(const ObjectWriter&) = delete;
  void operator=(const ObjectWriter&) = delete;
};

class LocationTrackerInterface {
 public:
  virtual ~LocationTrackerInterface() {}
  virtual std::string ToString() const = 0;

 protected:
  LocationTrackerInterface() {}
};

class ObjectLocationTracker : public LocationTrackerInterface {
 public:
  std::string ToString() const override { return ""; }
};

class ErrorListener {
 public:
  virtual ~ErrorListener() {}
  virtual void InvalidName(const LocationTrackerInterface& loc,
                           absl::string_view unknown_name,
                           absl::string_view message) = 0;
  virtual void InvalidValue(const LocationTrackerInterface& loc,
                            absl::string_view type_name,
                            absl::string_view value) = 0;
  virtual void MissingField(const LocationTrackerInterface& loc,
                            absl::string_view missing_name) = 0;

 protected:
  ErrorListener() {}
};

class NoopErrorListener : public ErrorListener {
 public:
  void InvalidName(const LocationTrackerInterface&, absl::string_view, absl::string_view) override {}
  void InvalidValue(const LocationTrackerInterface&, absl::string_view, absl::string_view) override {}
  void MissingField(const LocationTrackerInterface&, absl::string_view) override {}
};

class TypeInfo {
 public:
  TypeInfo() {}
  virtual ~TypeInfo() {}
  virtual absl::StatusOr<const google::protobuf::Type*> ResolveTypeUrl(
      absl::string_view type_url) const = 0;
  virtual const google::protobuf::Type* GetTypeByTypeUrl(
      absl::string_view type_url) const = 0;
  virtual const google::protobuf::Enum* GetEnumByTypeUrl(
      absl::string_view type_url) const = 0;
  virtual const google::protobuf::Field* FindField(
      const google::protobuf::Type* type,
      absl::string_view camel_case_name) const = 0;
  static TypeInfo* NewTypeInfo(TypeResolverShim* type_resolver);
};

class JsonStreamParser {
 public:
  explicit JsonStreamParser(ObjectWriter* ow);
  virtual ~JsonStreamParser();
  absl::Status Parse(absl::string_view json);
  absl::Status FinishParse();

 private:
  struct Impl;
  std::unique_ptr<Impl> impl_;
};

class ProtoStreamObjectWriter : public ObjectWriter {
 public:
  // The fields have the names and the order they have in protobuf.
  struct Options {
    bool struct_integers_as_strings = false;
    bool ignore_unknown_fields = false;
    bool ignore_unknown_enum_values = false;
    bool use_lower_camel_for_enums = false;
    bool case_insensitive_enum_parsing = false;
    bool ignore_null_value_map_entry = false;
    bool use_legacy_json_map_format = false;
    bool disable_implicit_message_list = false;
    bool suppress_implicit_message_list_error = false;
    bool disable_implicit_scalar_list = false;
    bool suppress_implicit_scalar_list_error = false;
    bool suppress_object_to_scalar_error = false;
    bool use_json_name_in_missing_fields = false;
    static const Options& Defaults() { static Options defaults; return defaults; }
  };
  ProtoStreamObjectWriter(TypeResolverShim* type_resolver,
                          const google::protobuf::Type& type,
                          strings::ByteSink* output, ErrorListener* listener,
                          const Options& options = Options::Defaults());
  ~ProtoStreamObjectWriter() override;
  bool done();
  void set_use_strict_base64_decoding(bool v) override;
  ProtoStreamObjectWriter* StartObject(absl::string_view name) override;
  ProtoStreamObjectWriter* EndObject() override;
  ProtoStreamObjectWriter* StartList(absl::string_view name) override;
  ProtoStreamObjectWriter* EndList() override;
  ProtoStreamObjectWriter* RenderBool(absl::string_view name, bool value) override;
  ProtoStreamObjectWriter* RenderInt32(absl::string_view name, int32_t value) override;
  ProtoStreamObjectWriter* RenderUint32(absl::string_view name, uint32_t value) override;
  ProtoStreamObjectWriter* RenderInt64(absl::string_view name, int64_t value) override;
  ProtoStreamObjectWriter* RenderUint64(absl::string_view name, uint64_t value) override;
  ProtoStreamObjectWriter* RenderDouble(absl::string_view name, double value) override;
  ProtoStreamObjectWriter* RenderFloat(absl::string_view name, float value) override;
  ProtoStreamObjectWriter* RenderString(absl::string_view name, absl::string_view value) override;
  ProtoStreamObjectWriter* RenderBytes(absl::string_view name, absl::string_view value) override;
  ProtoStreamObjectWriter* RenderNull(absl::string_view name) override;

 private:
  struct Impl;
  std::unique_ptr<Impl> impl_;
};

}  // namespace converter_shim
}  // namespace util
}  // namespace protobuf
}  // namespace google

#ifndef VERIF_SHIM_IMPLEMENTATION
#define converter converter_shim
#define TypeResolver TypeResolverShim
#define BinaryToJsonStream BinaryToJsonStreamShim
#define JsonToBinaryString JsonToBinaryStringShim
#define NewTypeResolverForDescriptorPool NewTypeResolverForDescriptorPoolShim
#endif

#endif  // VERIF_SHIM_H_
