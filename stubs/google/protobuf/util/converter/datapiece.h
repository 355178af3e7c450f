// Interface stub, see ../type_resolver.h
#ifndef VP_STUB_DATAPIECE_H_
#define VP_STUB_DATAPIECE_H_
#include <cstdint>
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace google { namespace protobuf { namespace util { namespace converter {
class DataPiece {
 public:
  enum Type { TYPE_INT32 = 1, TYPE_INT64 = 2, TYPE_UINT32 = 3, TYPE_UINT64 = 4, TYPE_DOUBLE = 5, TYPE_FLOAT = 6, TYPE_BOOL = 7,
              TYPE_ENUM = 8, TYPE_STRING = 9, TYPE_BYTES = 10, TYPE_NULL = 11 };
  explicit DataPiece(int32_t value);
  explicit DataPiece(int64_t value);
  explicit DataPiece(uint32_t value);
  explicit DataPiece(uint64_t value);
  explicit DataPiece(double value);
  explicit DataPiece(float value);
  explicit DataPiece(bool value);
  DataPiece(absl::string_view value, bool use_strict_base64_decoding);
  DataPiece(absl::string_view value, bool is_bytes, bool use_strict_base64_decoding);
  DataPiece(const DataPiece& r);
  DataPiece& operator=(const DataPiece& x);
  Type type() const;
  absl::StatusOr<int32_t> ToInt32() const;
  absl::StatusOr<uint32_t> ToUint32() const;
  absl::StatusOr<int64_t> ToInt64() const;
  absl::StatusOr<uint64_t> ToUint64() const;
  absl::StatusOr<double> ToDouble() const;
  absl::StatusOr<float> ToFloat() const;
  absl::StatusOr<bool> ToBool() const;
  absl::StatusOr<std::string> ToString() const;
  absl::StatusOr<std::string> ToBytes() const;
  std::string ValueAsStringOrDefault(absl::string_view default_string) const;

 private:
  Type type_;
  union {
    int32_t i32_;
    int64_t i64_;
    uint32_t u32_;
    uint64_t u64_;
    double double_;
    float float_;
    bool bool_;
  };
  absl::string_view str_;
};
}}}}
#endif
