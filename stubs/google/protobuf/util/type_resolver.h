// Interface stub (see DESIGN.md): the declarations of the protobuf release this repository is written against, which is not
// installed in this sandbox.  Only what /repo uses; no behaviour.
#ifndef VP_STUB_TYPE_RESOLVER_H_
#define VP_STUB_TYPE_RESOLVER_H_
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/type.pb.h"
namespace google { namespace protobuf { namespace util {
class TypeResolver {
 public:
  TypeResolver() {}
  virtual ~TypeResolver() {}
  virtual absl::Status ResolveMessageType(const std::string& type_url, google::protobuf::Type* message_type) = 0;
  virtual absl::Status ResolveEnumType(const std::string& type_url, google::protobuf::Enum* enum_type) = 0;
};
}}}
#endif
