// Interface stub, see ../type_resolver.h
#ifndef VP_STUB_ERROR_LISTENER_H_
#define VP_STUB_ERROR_LISTENER_H_
#include <string>
#include "absl/strings/string_view.h"
namespace google { namespace protobuf { namespace util { namespace converter {
class LocationTrackerInterface {
 public:
  virtual ~LocationTrackerInterface() {}
  virtual std::string ToString() const = 0;
};
class ErrorListener {
 public:
  virtual ~ErrorListener() {}
  virtual void InvalidName(const LocationTrackerInterface& loc, absl::string_view invalid_name, absl::string_view message) = 0;
  virtual void InvalidValue(const LocationTrackerInterface& loc, absl::string_view type_name, absl::string_view value) = 0;
  virtual void MissingField(const LocationTrackerInterface& loc, absl::string_view missing_name) = 0;

 protected:
  ErrorListener() {}
};
}}}}
#endif
