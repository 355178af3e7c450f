// Concrete stand-ins for ProtoStreamObjectWriter, DataPiece and JsonStreamParser, which the stubs only declare.
#pragma once
#include <cmath>
#include <limits>
#include <map>
#include "absl/strings/escaping.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "fake_converter.h"
#include "google/protobuf/util/converter/json_stream_parser.h"
#include "google/protobuf/util/converter/protostream_objectwriter.h"
namespace vp {
// the "encoding" of a message: its events, one after the other
inline std::string encode(const Ev& e) {
  auto part = [](const std::string& s) { return std::to_string(s.size()) + ":" + s; };
  return std::string(1, e.k) + part(e.name) + part(e.val);
}
inline std::string encode(const std::vector<Ev>& es) { std::string o; for (auto& e : es) o += encode(e); return o; }
struct WriterState { int depth = 0; bool done = false; std::vector<Ev> log; };
inline std::function<void(google::protobuf::util::converter::ProtoStreamObjectWriter*)> on_writer;  // observes every writer made
struct Here : google::protobuf::util::converter::LocationTrackerInterface { std::string ToString() const override { return "here"; } };
// names that make the writer report an error
inline bool bad_name(const std::string& n) { return n.compare(0, 3, "bad") == 0; }
}  // namespace vp
namespace google { namespace protobuf { namespace util { namespace converter {
using VpW = ProtoStreamObjectWriter;
inline vp::WriterState* vp_state(VpW* w) { return static_cast<vp::WriterState*>(w->extra_); }
inline ObjectWriter* vp_event(VpW* w, char k, absl::string_view n, std::string v = "") {
  auto* s = vp_state(w);
  vp::Ev e{k, std::string(n), std::move(v)};
  s->log.push_back(e);
  if (vp::bad_name(e.name)) {
    vp::Here h;
    if (e.name == "bad1") w->listener_->InvalidName(h, e.name, "unknown");
    else if (e.name == "bad2") w->listener_->MissingField(h, e.name);
    else w->listener_->InvalidValue(h, "T", e.name);
  }
  std::string b = vp::encode(e);
  w->sink_->Append(b.data(), b.size());
  if (e.opens()) s->depth++;
  if (e.closes()) s->depth--;
  if (s->depth == 0) s->done = true;
  return w;
}
ProtoStreamObjectWriter::Options::Options() : struct_integers_as_strings(false), ignore_unknown_fields(false), ignore_unknown_enum_values(false), use_lower_camel_for_enums(false),
  case_insensitive_enum_parsing(false), ignore_null_value_map_entry(false), use_legacy_json_map_format(false), suppress_implicit_message_list_error(false), disable_implicit_message_list(false),
  suppress_implicit_scalar_list_error(false), disable_implicit_scalar_list(false), suppress_object_to_scalar_error(false), use_json_name_in_missing_fields(false) {}
const ProtoStreamObjectWriter::Options& ProtoStreamObjectWriter::Options::Defaults() { static Options o; return o; }
ProtoStreamObjectWriter::ProtoStreamObjectWriter(TypeResolver*, const Type& type, strings::ByteSink* output, ErrorListener* listener, const Options& options)
    : sink_(output), listener_(listener), type_(&type), options_(options), extra_(new vp::WriterState) { if (vp::on_writer) vp::on_writer(this); }
ProtoStreamObjectWriter::~ProtoStreamObjectWriter() { delete vp_state(this); }
bool ProtoStreamObjectWriter::done() { return vp_state(this)->done; }
ObjectWriter* VpW::StartObject(absl::string_view n) { return vp_event(this, '{', n); }
ObjectWriter* VpW::EndObject() { return vp_event(this, '}', ""); }
ObjectWriter* VpW::StartList(absl::string_view n) { return vp_event(this, '[', n); }
ObjectWriter* VpW::EndList() { return vp_event(this, ']', ""); }
ObjectWriter* VpW::RenderBool(absl::string_view n, bool v) { return vp_event(this, 'b', n, vp::bits(v)); }
ObjectWriter* VpW::RenderInt32(absl::string_view n, int32_t v) { return vp_event(this, 'i', n, vp::bits(v)); }
ObjectWriter* VpW::RenderUint32(absl::string_view n, uint32_t v) { return vp_event(this, 'u', n, vp::bits(v)); }
ObjectWriter* VpW::RenderInt64(absl::string_view n, int64_t v) { return vp_event(this, 'I', n, vp::bits(v)); }
ObjectWriter* VpW::RenderUint64(absl::string_view n, uint64_t v) { return vp_event(this, 'U', n, vp::bits(v)); }
ObjectWriter* VpW::RenderDouble(absl::string_view n, double v) { return vp_event(this, 'd', n, vp::bits(v)); }
ObjectWriter* VpW::RenderFloat(absl::string_view n, float v) { return vp_event(this, 'f', n, vp::bits(v)); }
ObjectWriter* VpW::RenderString(absl::string_view n, absl::string_view v) { return vp_event(this, 's', n, std::string(v)); }
ObjectWriter* VpW::RenderBytes(absl::string_view n, absl::string_view v) { return vp_event(this, 'B', n, std::string(v)); }
ObjectWriter* VpW::RenderNull(absl::string_view n) { return vp_event(this, 'n', n); }

// ---- DataPiece, after protobuf's
DataPiece::DataPiece(int32_t v) : type_(TYPE_INT32), i32_(v) {}
DataPiece::DataPiece(int64_t v) : type_(TYPE_INT64), i64_(v) {}
DataPiece::DataPiece(uint32_t v) : type_(TYPE_UINT32), u32_(v) {}
DataPiece::DataPiece(uint64_t v) : type_(TYPE_UINT64), u64_(v) {}
DataPiece::DataPiece(double v) : type_(TYPE_DOUBLE), double_(v) {}
DataPiece::DataPiece(float v) : type_(TYPE_FLOAT), float_(v) {}
DataPiece::DataPiece(bool v) : type_(TYPE_BOOL), bool_(v) {}
DataPiece::DataPiece(absl::string_view v, bool) : type_(TYPE_STRING), i64_(0), str_(v) {}
DataPiece::DataPiece(absl::string_view v, bool, bool) : type_(TYPE_BYTES), i64_(0), str_(v) {}
DataPiece::DataPiece(const DataPiece& r) = default;
DataPiece& DataPiece::operator=(const DataPiece& x) = default;
DataPiece::Type DataPiece::type() const { return type_; }
struct VpNum {
  template <class To, class From>
  static absl::StatusOr<To> conv(From f) {
    if constexpr (std::is_floating_point<From>::value && std::is_integral<To>::value) {
      if (!(f >= -9.3e18 && f <= 1.9e19) || std::floor(f) != f) return absl::InvalidArgumentError("not representable");
      long double x = f;
      if (x < (long double)std::numeric_limits<To>::min() || x > (long double)std::numeric_limits<To>::max()) return absl::InvalidArgumentError("not representable");
      return To(f);
    } else if constexpr (std::is_floating_point<To>::value) {
      return To(f);
    } else {
      To r = To(f);
      if (From(r) != f || (r < 0) != (f < 0)) return absl::InvalidArgumentError("not representable");
      return r;
    }
  }
};
#define VP_CONVERT(NAME, TO, PARSE)                                              \
  absl::StatusOr<TO> DataPiece::NAME() const {                            \
    switch (type_) {                                                             \
      case TYPE_INT32: return VpNum::conv<TO>(i32_);                             \
      case TYPE_INT64: return VpNum::conv<TO>(i64_);                             \
      case TYPE_UINT32: return VpNum::conv<TO>(u32_);                            \
      case TYPE_UINT64: return VpNum::conv<TO>(u64_);                            \
      case TYPE_DOUBLE: return VpNum::conv<TO>(double_);                         \
      case TYPE_FLOAT: return VpNum::conv<TO>(float_);                           \
      case TYPE_STRING: { TO v; if (PARSE(str_, &v)) return v; return absl::InvalidArgumentError(std::string(str_)); } \
      default: return absl::InvalidArgumentError("wrong type");                  \
    }                                                                            \
  }
VP_CONVERT(ToInt32, int32_t, absl::SimpleAtoi)
VP_CONVERT(ToUint32, uint32_t, absl::SimpleAtoi)
VP_CONVERT(ToInt64, int64_t, absl::SimpleAtoi)
VP_CONVERT(ToUint64, uint64_t, absl::SimpleAtoi)
VP_CONVERT(ToDouble, double, absl::SimpleAtod)
VP_CONVERT(ToFloat, float, absl::SimpleAtof)
absl::StatusOr<bool> DataPiece::ToBool() const {
  if (type_ == TYPE_BOOL) return bool_;
  if (type_ == TYPE_STRING && str_ == "true") return true;
  if (type_ == TYPE_STRING && str_ == "false") return false;
  return absl::InvalidArgumentError("not a bool");
}
absl::StatusOr<std::string> DataPiece::ToString() const {
  if (type_ == TYPE_STRING) return std::string(str_);
  if (type_ == TYPE_BYTES) return absl::Base64Escape(str_);
  return absl::InvalidArgumentError("Cannot convert to string.");
}
absl::StatusOr<std::string> DataPiece::ToBytes() const {
  if (type_ == TYPE_BYTES) return std::string(str_);
  std::string o;
  if (type_ == TYPE_STRING && absl::Base64Unescape(str_, &o)) return o;
  return absl::InvalidArgumentError("Cannot convert to bytes.");
}
std::string DataPiece::ValueAsStringOrDefault(absl::string_view d) const {
  switch (type_) {
    case TYPE_INT32: return absl::StrCat(i32_);
    case TYPE_INT64: return absl::StrCat(i64_);
    case TYPE_UINT32: return absl::StrCat(u32_);
    case TYPE_UINT64: return absl::StrCat(u64_);
    case TYPE_DOUBLE: return absl::StrCat(double_);
    case TYPE_FLOAT: return absl::StrCat(float_);
    case TYPE_BOOL: return bool_ ? "true" : "false";
    case TYPE_STRING: return absl::StrCat("\"", str_, "\"");
    default: return std::string(d);
  }
}
void ObjectWriter::RenderDataPieceTo(const DataPiece& d, absl::string_view n, ObjectWriter* ow) {
  switch (d.type()) {
    case DataPiece::TYPE_INT32: ow->RenderInt32(n, d.ToInt32().value()); break;
    case DataPiece::TYPE_INT64: ow->RenderInt64(n, d.ToInt64().value()); break;
    case DataPiece::TYPE_UINT32: ow->RenderUint32(n, d.ToUint32().value()); break;
    case DataPiece::TYPE_UINT64: ow->RenderUint64(n, d.ToUint64().value()); break;
    case DataPiece::TYPE_DOUBLE: ow->RenderDouble(n, d.ToDouble().value()); break;
    case DataPiece::TYPE_FLOAT: ow->RenderFloat(n, d.ToFloat().value()); break;
    case DataPiece::TYPE_BOOL: ow->RenderBool(n, d.ToBool().value()); break;
    case DataPiece::TYPE_STRING: ow->RenderString(n, d.ToString().value()); break;
    case DataPiece::TYPE_BYTES: ow->RenderBytes(n, d.ToBytes().value()); break;
    default: ow->RenderNull(n);
  }
}
}}}}
namespace vp {
// ---- a parser whose input language is one event per character: { } [ ] and s for a string; ! is an error, ? an error in
// the value it writes
inline std::vector<std::string> fed;    // what the parser was given; "\x01" for FinishParse
inline int parse_error_at = -1;         // index into fed of a call that fails
inline bool finish_writes = false;
}  // namespace vp
namespace google { namespace protobuf { namespace util { namespace converter {
inline std::map<ObjectWriter*, char> vp_pending;  // 'n' and 'N' are written when what follows them arrives, like numbers
inline std::map<ObjectWriter*, std::string> vp_open;  // the brackets open in what a writer received: a JSON parser refuses unbalanced ones
JsonStreamParser::JsonStreamParser(ObjectWriter* ow) : ow_(ow) { vp_open.erase(ow); vp_pending.erase(ow); }
JsonStreamParser::~JsonStreamParser() {}
inline absl::Status vp_parse_answer(ObjectWriter* ow, int call, absl::string_view s) {
  if (call == vp::parse_error_at || s.find('!') != s.npos || vp_open[ow] == "bad") return absl::Status(absl::StatusCode(2 + call % 12), absl::StrCat("parser says no ", call));
  return absl::OkStatus();
}
inline void vp_parse_end(ObjectWriter* ow) {
  char c = vp_pending[ow];
  vp_pending[ow] = 0;
  if (c) ow->RenderString(c == 'n' ? "n" : "bad1", "1");
}
inline void vp_parse_events(ObjectWriter* ow, absl::string_view s) {
  std::string& st = vp_open[ow];
  for (char c : s) {
    vp_parse_end(ow);
    if (c == 'n' || c == 'N') vp_pending[ow] = c;
    if (c == '!' || st == "bad") break;
    if (c == '{' || c == '[') st += c;
    if (c == '}' || c == ']') { if (st.empty() || st.back() != (c == '}' ? '{' : '[')) { st = "bad"; break; } st.pop_back(); }
    switch (c) {
      case '{': ow->StartObject("o"); break;
      case '}': ow->EndObject(); break;
      case '[': ow->StartList("l"); break;
      case ']': ow->EndList(); break;
      case 's': ow->RenderString("s", "v"); break;
      case '?': ow->RenderString("bad1", "v"); break;
      default: break;
    }
  }
}
absl::Status JsonStreamParser::Parse(absl::string_view s) {
  vp::fed.emplace_back(s);
  vp_parse_events(ow_, s);
  return vp_parse_answer(ow_, int(vp::fed.size()) - 1, s);
}
absl::Status JsonStreamParser::FinishParse() {
  vp::fed.emplace_back("\x01");
  vp_parse_end(ow_);
  return vp_parse_answer(ow_, int(vp::fed.size()) - 1, "");
}
}}}}
