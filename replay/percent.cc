// C03: percent-decoding against an independent decoder.
#include "common.h"
#include "decode_oracle.h"
#include "grpc_transcoding/percent_encoding.h"
using namespace google::grpc::transcoding;
static void check(const std::string& s) {
  for (int mode = 0; mode < 3; mode++)
    for (int plus = 0; plus < 2; plus++) {
      vp::describe = [&] { return "input " + vp::quote(s) + " mode " + std::to_string(mode) + " plus " + std::to_string(plus); };
      auto spec = mode == 0 ? UrlUnescapeSpec::kAllCharactersExceptReserved : mode == 1 ? UrlUnescapeSpec::kAllCharactersExceptSlash : UrlUnescapeSpec::kAllCharacters;
      bool any;
      std::string want = oracle(s, mode, plus, &any);
      std::vector<char> copy(s.begin(), s.end());  // exact size: reads past the end are caught
      absl::string_view sv(copy.data(), copy.size());
      std::string got = UrlUnescapeString(sv, spec, plus);
      if (got != want) vp::fail("decoded to " + vp::quote(got) + ", expected " + vp::quote(want));
      if (IsUrlEscapedString(sv, spec, plus) != any) vp::fail(std::string("IsUrlEscapedString is not ") + (any ? "true" : "false"));
      vp::count++;
      vp::interesting += any;
    }
}
int main(int argc, char** argv) {
  vp::init(argc, argv);
  static const unsigned char al[] = {'%', '2', 'F', 'f', '+', '/', 'a', 'G', '0', 0xC3};
  for (int len = 0; len <= 4; len++) {
    int n = 1;
    for (int i = 0; i < len; i++) n *= 10;
    for (int k = 0; k < n; k++) {
      std::string s;
      for (int i = 0, x = k; i < len; i++, x /= 10) s += char(al[x % 10]);
      check(s);
    }
  }
  for (int a = 0; a < 256; a++)
    for (int b = 0; b < 256; b++) {
      if ((a * 256 + b) % 3 != 0 && hexv(a) < 0 && hexv(b) < 0) continue;
      check(std::string("%") + char(a) + char(b));
    }
  for (int a = 0; a < 256; a++)
    for (int b = 0; b < 256; b++) {
      static const char* lo = "0123456789abcdef"; static const char* up = "0123456789ABCDEF";
      if (b > 3) break;
      std::string h = std::string("%") + (b & 1 ? lo : up)[a >> 4] + (b & 2 ? lo : up)[a & 15];
      check(h); check("x" + h + "y"); check(h + h); check("%" + h); check("%25" + h.substr(1)); check(h + "+%");
    }
  while (vp::time_left()) {
    std::string s;
    int n = vp::pick(vp::chance(10) ? 200 : 24);
    while ((int)s.size() < n) {
      switch (vp::pick(6)) {
        case 0: s += char(vp::rnd()); break;
        case 1: s += al[vp::pick(10)]; break;
        default: { char b[8]; snprintf(b, sizeof b, vp::chance(50) ? "%%%02x" : "%%%02X", vp::pick(256)); s += vp::chance(10) ? std::string(b).substr(0, 1 + vp::pick(2)) : std::string(b); }
      }
    }
    check(s);
  }
  return vp::finish();
}
