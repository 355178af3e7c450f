// Interface stub, see ../type_resolver.h
#ifndef VP_STUB_TYPE_INFO_H_
#define VP_STUB_TYPE_INFO_H_
#include <memory>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/type_resolver.h"
namespace google { namespace protobuf { namespace util { namespace converter {
class TypeInfo {
 public:
  TypeInfo() {}
  virtual ~TypeInfo() {}
  virtual absl::StatusOr<const google::protobuf::Type*> ResolveTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Type* GetTypeByTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Enum* GetEnumByTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Field* FindField(const google::protobuf::Type* type, absl::string_view camel_case_name) const = 0;
  static TypeInfo* NewTypeInfo(TypeResolver* type_resolver);

 private:
  TypeInfo(const TypeInfo&) = delete;
  TypeInfo& operator=(const TypeInfo&) = delete;
};
}}}}
#endif
