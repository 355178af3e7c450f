// C19: the real PrefixWriter against a specification over whole event streams.
#include "common.h"
#include "fake_converter.h"
#include "grpc_transcoding/prefix_writer.h"
using namespace vp;
static void one(const std::string& prefix, const std::vector<std::vector<Ev>>& values) {
  std::vector<Ev> in, got, want;
  for (auto& v : values) in.insert(in.end(), v.begin(), v.end());
  describe = [&] { return "prefix " + quote(prefix) + "\nevents   " + show(in) + "\nexpected " + show(want) + "\ngot      " + show(got); };
  std::vector<std::string> parts;
  std::string cur;
  for (size_t i = 0; i <= prefix.size(); i++) {
    if (i == prefix.size() || prefix[i] == '.') { if (!cur.empty()) parts.push_back(cur); cur.clear(); }
    else cur += prefix[i];
  }
  for (auto& v : values) {
    std::string n = v[0].name;
    for (auto& p : parts) { want.push_back({'{', n, ""}); n = p; }
    for (size_t i = 0; i < v.size(); i++) { want.push_back(v[i]); if (i == 0) want.back().name = n; }
    for (size_t i = 0; i < parts.size(); i++) want.push_back({'}', "", ""});
  }
  Recorder r;
  google::grpc::transcoding::PrefixWriter w(prefix, &r);
  for (auto& e : in) send(&w, e);
  got = r.log;
  if (!(got == want)) fail("the events written differ");
  count++;
  if (!parts.empty()) interesting++;
}
int main(int argc, char** argv) {
  init(argc, argv);
  static const char* const P[] = {"", "A", "A.B", "A.B.C", ".", "A..B", "a.a.a.a.a", ".A.", "longer_name.x"};
  auto namer = [] { return any_name(); };
  for (auto p : P) for (int i = 0; i < 400; i++) {
    std::vector<std::vector<Ev>> vs;
    for (int k = pick(4); k >= 0; k--) { vs.emplace_back(); any_value(&vs.back(), any_name(), pick(4), namer); }
    one(p, vs);
  }
  while (time_left()) {
    std::string p;
    for (int k = pick(6); k > 0; k--) p += chance(40) ? std::string(".") : chance(15) ? std::string(1, " \t%/:\xff\n"[pick(7)]) : std::string(chance(50) ? "a" : "B");
    std::vector<std::vector<Ev>> vs;
    for (int k = pick(5); k >= 0; k--) { vs.emplace_back(); any_value(&vs.back(), any_name(), pick(6), namer); }
    one(p, vs);
  }
  return finish();
}
