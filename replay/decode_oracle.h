// Independent percent-decoder. mode 0 keeps escapes of reserved characters, 1 keeps "%2F", 2 decodes everything.
#pragma once
#include <string.h>
#include <string>
inline int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
inline std::string oracle(const std::string& s, int mode, bool plus, bool* any) {
  std::string o;
  *any = false;
  for (size_t i = 0; i < s.size();) {
    if (plus && s[i] == '+') { o += ' '; i++; *any = true; continue; }
    if (s[i] == '%' && s.size() - i >= 3 && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) {
      char c = char(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
      bool keep = (mode == 0 && c != 0 && strchr("!#$&'()*+,/:;=?@[]", c)) || (mode == 1 && c == '/');
      if (!keep) { o += c; i += 3; *any = true; continue; }
    }
    o += s[i++];
  }
  return o;
}
