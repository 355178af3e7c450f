// C24: the real ResponseToJsonTranslator and MessageReader; the JSON of a message is a rendering of its bytes.
#include "common.h"
#include "in_stream.h"
#include "google/protobuf/util/json_util.h"
#include "grpc_transcoding/response_to_json_translator.h"
using namespace vp;
namespace pb = google::protobuf;
using namespace google::grpc::transcoding;
static std::string render(const std::string& m, const std::string& url, const pb::util::JsonPrintOptions& o) {
  std::string s = "{" + url + ":";
  for (unsigned char c : m) { char b[4]; snprintf(b, 4, "%02x", c); s += b; }
  return s + (o.always_print_primitive_fields ? "p" : "") + (o.always_print_enums_as_ints ? "e" : "") + (o.preserve_proto_field_names ? "n" : "") + "}" + (o.add_whitespace ? "\n" : "");
}
static absl::Status verdict(const std::string& m) { return !m.empty() && m[0] == 'E' ? absl::Status(absl::StatusCode(1 + m.size() % 16), "not a message") : absl::OkStatus(); }
namespace google { namespace protobuf { namespace util {
absl::Status BinaryToJsonStream(TypeResolver*, const std::string& url, io::ZeroCopyInputStream* in, io::ZeroCopyOutputStream* out, const JsonPrintOptions& o) {
  std::string m;
  const void* d;
  int n;
  while (in->Next(&d, &n)) m.append(static_cast<const char*>(d), size_t(n));
  std::string j = render(m, url, o);
  absl::Status st = verdict(m);
  if (!st.ok()) j.resize(size_t(pick(int(j.size()))));
  for (size_t i = 0; i < j.size();) {
    void* w;
    if (!out->Next(&w, &n) || n <= 0) return absl::InternalError("output");
    int k = std::min(n, int(j.size() - i));
    memcpy(w, j.data() + i, size_t(k));
    out->BackUp(n - k);
    i += size_t(k);
  }
  return st;
}
}}}
static std::string frame(const std::string& s, uint32_t n, char flag = 0) {
  std::string o(1, flag);
  for (int i = 3; i >= 0; i--) o += char(n >> (8 * i));
  return o + s;
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (time_left()) {
    bool streaming = chance(75), lines = chance(50);
    std::vector<std::string> ms;
    std::string all;
    std::vector<size_t> ends;
    for (int k = pick(5); k > 0; k--) {
      std::string m;
      for (int i = chance(30) ? 0 : chance(90) ? pick(8) : pick(300); i > 0; i--) m += char(chance(90) ? 'a' + pick(4) : rnd());
      if (chance(4)) m = "E" + m;
      ms.push_back(m);
      all += frame(m, uint32_t(m.size()));
      ends.push_back(all.size());
    }
    int spoil = chance(25) ? 1 + pick(3) : 0;   // a bad flag, a short header, a short payload
    size_t bad_at = all.size();
    if (spoil == 1) all += frame("x", 1, char(1 + pick(255)));
    if (spoil == 2) all += std::string(size_t(1 + pick(4)), '\0');
    if (spoil == 3) all += frame("abc", uint32_t(4 + pick(100)));
    In in;
    in.zero = chance(25);
    std::string url = chance(50) ? "t" : "type/url";
    JsonResponseTranslateOptions o;
    o.json_print_options = pb::util::JsonPrintOptions();
    o.json_print_options.add_whitespace = chance(30);
    o.json_print_options.always_print_primitive_fields = chance(30);
    o.json_print_options.always_print_enums_as_ints = chance(30);
    o.json_print_options.preserve_proto_field_names = chance(30);
    o.stream_newline_delimited = lines;
    std::string text, want_text, hist;
    describe = [&] { return std::string(streaming ? lines ? "lines" : "array" : "single") + " messages " + list(ms) + " trouble " + std::to_string(spoil) + " calls" + hist + "\nexpected " + quote(want_text) + "\nreturned " + quote(text); };
    ResponseToJsonTranslator t(nullptr, url, streaming, &in, o);
    size_t sent = 0, next = 0;
    bool fin = false;
    int err = 0, idle = 0;
    std::string m = "left over";      // one string for every call, as a caller would do
    for (int steps = 0; steps < 400 && idle < 3; steps++) {
      int k = pick(10);
      if (sent < all.size() && k < 4) { sent += std::min(all.size() - sent, size_t(1 + pick(chance(50) ? 4 : 200))); in.data = all.substr(0, sent); in.cuts.push_back(sent); hist += " +" + std::to_string(sent); continue; }
      if (sent == all.size() && !in.fin && k < 2) { in.fin = true; hist += " end"; continue; }
      std::string want;
      bool returns = false, blank = false;
      if (!fin && !err) {
        if (next < ms.size() && ends[next] <= sent) {
          absl::Status v = verdict(ms[next]);
          if (!v.ok()) err = int(v.code());
          else {
            want = render(ms[next], url, o.json_print_options);
            if (streaming) want = lines ? want + "\n" : (next == 0 ? "[" : ",") + want;
            else fin = true;
            returns = true;
          }
          next++;
        } else if (next == ms.size() && spoil == 1 && sent >= bad_at + 5) err = 13;
        else if (in.fin && (next < ms.size() || spoil)) err = 13;
        else if (in.fin && streaming) { fin = true; if (lines) blank = true; else { returns = true; want = next == 0 ? "[]" : "]"; } }
      }
      bool r = t.NextMessage(&m);
      hist += " call";
      want_text += want;
      if (r) text += m;
      if (!blank && r != returns) fail(r ? "something is returned that should not be there" : "a piece is missing");
      if (text != want_text) fail("the pieces returned differ");
      if (int(t.Status().code()) != err) fail("status " + t.Status().ToString());
      if (t.Finished() != (fin || err)) fail("Finished differs");
      if (in.fin && sent == all.size()) idle += !r;
    }
    count++;
    if (next > 1) interesting++;
  }
  return finish();
}
