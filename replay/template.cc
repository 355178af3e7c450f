// C01, C02: the template parser against the splitting oracle.
#include "common.h"
#include "tmpl_oracle.h"
#include "grpc_transcoding/http_template.h"
using namespace google::grpc::transcoding;
static std::string prop;
static void check(const std::string& s) {
  vp::describe = [&] { return "template " + vp::quote(s); };
  tmpl::Ast a;
  bool want = tmpl::parse(s, &a);
  auto got = HttpTemplate::Parse(s);
  vp::count++;
  vp::interesting += want;
  if (bool(got) != want) { if (prop != "C02") vp::fail(want ? "rejected, but it is in the grammar" : "accepted, but it is not in the grammar"); return; }
  if (!want || prop == "C01") return;
  if (got->segments() != a.segs) vp::fail("segments " + vp::list(got->segments()) + ", expected " + vp::list(a.segs));
  if (got->verb() != a.verb) vp::fail("verb " + vp::quote(got->verb()) + ", expected " + vp::quote(a.verb));
  auto& vs = got->Variables();
  if (vs.size() != a.vars.size()) vp::fail("number of variables " + std::to_string(vs.size()) + ", expected " + std::to_string(a.vars.size()));
  for (size_t i = 0; i < vs.size(); i++) {
    std::string w = "variable " + std::to_string(i) + ": ";
    if (vs[i].field_path != a.vars[i].path) vp::fail(w + "field path " + vp::list(vs[i].field_path) + ", expected " + vp::list(a.vars[i].path));
    if (vs[i].start_segment != a.vars[i].start) vp::fail(w + "start " + std::to_string(vs[i].start_segment) + ", expected " + std::to_string(a.vars[i].start));
    if (vs[i].end_segment != a.vars[i].end) vp::fail(w + "end " + std::to_string(vs[i].end_segment) + ", expected " + std::to_string(a.vars[i].end));
    if (vs[i].has_wildcard_path != a.vars[i].wild) vp::fail(w + "has_wildcard_path wrong");
  }
}
static std::string rnd_text(const char* stop) {
  std::string s;
  int n = 1 + vp::pick(3);
  while (n--) {
    char c = vp::chance(80) ? "abz{*=.:-"[vp::pick(9)] : char(vp::rnd());
    if (!strchr(stop, c) || (c == 0 && vp::chance(50))) s += c;
  }
  return s.empty() ? "q" : s;
}
static std::string rnd_segments(bool invar, int depth);
static std::string rnd_segment(bool invar) {
  switch (vp::pick(invar ? 4 : 6)) {
    case 0: return "*";
    case 1: return vp::chance(40) ? "**" : "*";
    case 2: case 3: { std::string l = rnd_text("/:}"); if (l[0] == '*' || l[0] == '{') l = "x" + l; return l; }
    default: {
      std::string s = "{" + rnd_text(".}=");
      while (vp::chance(30)) s += "." + rnd_text(".}=");
      if (vp::chance(60)) s += "=" + rnd_segments(true, 1);
      return s + "}";
    }
  }
}
static std::string rnd_segments(bool invar, int depth) {
  std::string s = rnd_segment(invar);
  while (vp::chance(55)) s += "/" + rnd_segment(invar);
  return s;
}
int main(int argc, char** argv) {
  prop = vp::init(argc, argv);
  static const char al[] = "/*{}=.:a";
  for (int len = 0; len <= 6; len++) {
    long n = 1;
    for (int i = 0; i < len; i++) n *= 8;
    for (long k = 0; k < n; k++) {
      std::string s;
      long x = k;
      for (int i = 0; i < len; i++, x /= 8) s += al[x % 8];
      check(s);
      if (s.empty() || s[0] != '/') check("/" + s);
      if (len <= 5) { check("/{" + s + "}"); check("/{a=" + s + "}/b:v"); check("/**/" + s); check("/x:" + s); }
    }
  }
  while (vp::time_left()) {
    std::string s = "/" + rnd_segments(false, 0);
    if (vp::chance(40)) s += ":" + rnd_text("/:}");
    check(s);
    for (int i = 0; i < 3; i++) {
      std::string m = s;
      int p = vp::pick(int(m.size()) + 1);
      switch (vp::pick(4)) {
        case 0: m.insert(p, 1, al[vp::pick(8)]); break;
        case 1: if (p < (int)m.size()) m.erase(p, 1); break;
        case 2: if (p < (int)m.size()) m[p] = vp::chance(20) ? char(vp::rnd()) : al[vp::pick(8)]; break;
        case 3: m.insert(p, m.substr(vp::pick(int(m.size())), 1 + vp::pick(5))); break;
      }
      check(m);
    }
  }
  return vp::finish();
}
