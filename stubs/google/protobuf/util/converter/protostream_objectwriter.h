// Interface stub, see ../type_resolver.h
#ifndef VP_STUB_PROTOSTREAM_OBJECTWRITER_H_
#define VP_STUB_PROTOSTREAM_OBJECTWRITER_H_
#include "google/protobuf/stubs/bytestream.h"
#include "google/protobuf/util/converter/datapiece.h"
#include "google/protobuf/util/converter/error_listener.h"
#include "google/protobuf/util/converter/object_writer.h"
#include "google/protobuf/util/type_resolver.h"
namespace google { namespace protobuf { namespace util { namespace converter {
class ProtoStreamObjectWriter : public ObjectWriter {
 public:
  struct Options {
    bool struct_integers_as_strings;
    bool ignore_unknown_fields;
    bool ignore_unknown_enum_values;
    bool use_lower_camel_for_enums;
    bool case_insensitive_enum_parsing;
    bool ignore_null_value_map_entry;
    bool use_legacy_json_map_format;
    bool suppress_implicit_message_list_error;
    bool disable_implicit_message_list;
    bool suppress_implicit_scalar_list_error;
    bool disable_implicit_scalar_list;
    bool suppress_object_to_scalar_error;
    bool use_json_name_in_missing_fields;
    Options();
    static const Options& Defaults();
  };
  ProtoStreamObjectWriter(TypeResolver* type_resolver, const google::protobuf::Type& type, strings::ByteSink* output,
                          ErrorListener* listener,
                          const ProtoStreamObjectWriter::Options& options = ProtoStreamObjectWriter::Options::Defaults());
  ~ProtoStreamObjectWriter() override;
  bool done();
  ObjectWriter* StartObject(absl::string_view name) override;
  ObjectWriter* EndObject() override;
  ObjectWriter* StartList(absl::string_view name) override;
  ObjectWriter* EndList() override;
  ObjectWriter* RenderBool(absl::string_view name, bool value) override;
  ObjectWriter* RenderInt32(absl::string_view name, int32_t value) override;
  ObjectWriter* RenderUint32(absl::string_view name, uint32_t value) override;
  ObjectWriter* RenderInt64(absl::string_view name, int64_t value) override;
  ObjectWriter* RenderUint64(absl::string_view name, uint64_t value) override;
  ObjectWriter* RenderDouble(absl::string_view name, double value) override;
  ObjectWriter* RenderFloat(absl::string_view name, float value) override;
  ObjectWriter* RenderString(absl::string_view name, absl::string_view value) override;
  ObjectWriter* RenderBytes(absl::string_view name, absl::string_view value) override;
  ObjectWriter* RenderNull(absl::string_view name) override;

 public:
  strings::ByteSink* sink_;
  ErrorListener* listener_;
  const google::protobuf::Type* type_;
  Options options_;
  void* extra_;
};
}}}}
#endif
