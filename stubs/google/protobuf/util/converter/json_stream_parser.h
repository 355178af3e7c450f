// Interface stub, see ../type_resolver.h
#ifndef VP_STUB_JSON_STREAM_PARSER_H_
#define VP_STUB_JSON_STREAM_PARSER_H_
#include <string>
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
namespace google { namespace protobuf { namespace util { namespace converter {
class ObjectWriter;
class JsonStreamParser {
 public:
  explicit JsonStreamParser(ObjectWriter* ow);
  ~JsonStreamParser();
  absl::Status Parse(absl::string_view json);
  absl::Status FinishParse();

 private:
  ObjectWriter* ow_;
  std::string state_;
  JsonStreamParser(const JsonStreamParser&) = delete;
  JsonStreamParser& operator=(const JsonStreamParser&) = delete;
};
}}}}
#endif
