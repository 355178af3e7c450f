// Independent oracle for HTTP templates: a splitting recogniser of the grammar (no shared structure with the parser).
#pragma once
#include <string>
#include <vector>
namespace tmpl {
struct Var { int start, end; std::vector<std::string> path; bool wild; };
struct Ast { std::vector<std::string> segs; std::vector<Var> vars; std::string verb; };
inline bool lit(const std::string& s) { return !s.empty() && s.find_first_of("/:}") == std::string::npos; }
inline bool path(const std::string& s, std::vector<std::string>* out) {
  size_t b = 0;
  for (;;) {
    size_t e = s.find('.', b);
    std::string id = s.substr(b, e == std::string::npos ? e : e - b);
    if (id.empty() || id.find_first_of("}=") != std::string::npos) return false;
    out->push_back(id);
    if (e == std::string::npos) return true;
    b = e + 1;
  }
}
inline bool segments(const std::string& s, bool invar, Ast* a);
inline bool segment(const std::string& s, bool invar, Ast* a) {
  if (s == "*" || s == "**") { a->segs.push_back(s); return true; }
  if (s.empty()) return false;
  if (s[0] == '*') return false;
  if (s[0] != '{') { if (!lit(s)) return false; a->segs.push_back(s); return true; }
  if (invar || s.size() < 3 || s.back() != '}') return false;
  std::string in = s.substr(1, s.size() - 2);
  size_t eq = in.find('=');
  Var v{int(a->segs.size()), 0, {}, false};
  if (!path(in.substr(0, eq), &v.path)) return false;
  if (eq == std::string::npos) a->segs.push_back("*");
  else if (!segments(in.substr(eq + 1), true, a)) return false;
  v.end = int(a->segs.size());
  for (int i = v.start; i < v.end; i++) v.wild |= a->segs[i] == "**";
  a->vars.push_back(v);
  return true;
}
inline bool segments(const std::string& s, bool invar, Ast* a) {
  // try every "/" as the end of the first segment
  for (size_t k = s.find('/');; k = s.find('/', k + 1)) {
    Ast b = *a;
    std::string head = s.substr(0, k);
    if (segment(head, invar, &b) && (k == std::string::npos || segments(s.substr(k + 1), invar, &b))) { *a = b; return true; }
    if (k == std::string::npos) return false;
  }
}
inline bool parse(const std::string& s, Ast* out) {
  if (s == "/") { *out = Ast(); return true; }
  if (s.empty() || s[0] != '/') return false;
  std::string body = s.substr(1);
  for (size_t k = body.find(':');; k = body.find(':', k + 1)) {
    Ast a;
    bool ok = segments(body.substr(0, k), false, &a);
    if (ok && k != std::string::npos) { a.verb = body.substr(k + 1); ok = lit(a.verb); }
    if (ok) {
      bool wild = false;
      for (auto& g : a.segs) { if (wild && (g == "*" || g == "**")) return false; wild |= g == "**"; }
      int n = int(a.segs.size()), first = 0;
      while (first < n && a.segs[first] != "**") first++;
      for (auto& v : a.vars) {
        if (v.start > first) v.start -= n + 1, v.end -= n + 1;
        else if (v.wild) v.end -= n + 1;
      }
      *out = a;
      return true;
    }
    if (k == std::string::npos) return false;
  }
}
}  // namespace tmpl
