// C13: RegisterByHttpRule against the list of registrations a rule stands for (made one by one on a second builder).
#include <set>
#include <unordered_set>
#include "common.h"
#include "tmpl_oracle.h"
#include "google/api/http.pb.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/path_matcher_utility.h"
using namespace google::grpc::transcoding;
using google::api::HttpRule;
struct M { int id; };
static M g_methods[16];
static std::string g_desc;
struct One { std::string method, path, body; };
// the patterns of a rule, in order
static void flatten(const HttpRule& r, std::vector<One>* o) {
  switch (r.pattern_case()) {
    case HttpRule::kGet: o->push_back({"GET", r.get(), r.body()}); break;
    case HttpRule::kPut: o->push_back({"PUT", r.put(), r.body()}); break;
    case HttpRule::kPost: o->push_back({"POST", r.post(), r.body()}); break;
    case HttpRule::kDelete: o->push_back({"DELETE", r.delete_(), r.body()}); break;
    case HttpRule::kPatch: o->push_back({"PATCH", r.patch(), r.body()}); break;
    case HttpRule::kCustom: o->push_back({r.custom().kind(), r.custom().path(), r.body()}); break;
    default: break;
  }
  for (int i = 0; i < r.additional_bindings_size(); i++) flatten(r.additional_bindings(i), o);
}
static const char* kT[] = {"/a", "/a/{x}", "/b", "/a/{y}", "/{x=**}", "/a:v", "/c/*", "/b/c", "/d", "/e/{z}"};
static const char* kBad[] = {"", "a", "/{x", "/a/"};
static std::string rnd_tmpl() { return vp::chance(7) ? kBad[vp::pick(4)] : kT[vp::pick(10)]; }
static void rnd_rule(HttpRule* r, int depth) {
  std::string t = rnd_tmpl();
  switch (vp::pick(8)) {
    case 0: r->set_get(t); break;
    case 1: r->set_put(t); break;
    case 2: r->set_post(t); break;
    case 3: r->set_delete_(t); break;
    case 4: r->set_patch(t); break;
    case 5: { static const char* k[] = {"*", "HEAD", "GET", ""}; r->mutable_custom()->set_kind(k[vp::pick(4)]); r->mutable_custom()->set_path(t); break; }
    case 6: break;
    default: r->set_get(t); break;
  }
  if (vp::chance(50)) { static const char* b[] = {"*", "b.c", "x"}; r->set_body(b[vp::pick(3)]); }
  if (vp::chance(20)) r->set_response_body("r");
  if (depth < 4 && vp::chance(depth ? 35 : 70)) for (int n = 1 + vp::pick(3); n > 0; n--) rnd_rule(r->add_additional_bindings(), depth + 1);
}
static std::string show(const std::vector<VariableBinding>& v) {
  std::string o = "[";
  for (auto& b : v) o += vp::list(b.field_path) + "=" + vp::quote(b.value) + " ";
  return o + "]";
}
static std::string answer(PathMatcher<const M*>& m, const std::string& method, const std::string& path) {
  std::vector<VariableBinding> v;
  std::string body = "-";
  const M* r = m.Lookup(method, path, "k=1&s=2", &v, &body);
  return r == nullptr ? "none" : "method " + std::to_string(r->id) + " body " + vp::quote(body) + " bindings " + show(v);
}
int main(int argc, char** argv) {
  vp::init(argc, argv);
  vp::describe = [] { return g_desc; };
  static const char* paths[] = {"/a", "/a/q", "/b", "/b/c", "/a:v", "/c/q", "/d", "/e/q", "/x/y/z", "/", "/a/b/c"};
  static const char* methods[] = {"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "", "*"};
  for (int i = 0; i < 16; i++) g_methods[i].id = i;
  while (vp::time_left()) {
    PathMatcherBuilder<const M*> a, b;
    bool dup = vp::chance(35);
    a.SetFailRegistrationOnDuplicate(dup);
    b.SetFailRegistrationOnDuplicate(dup);
    g_desc = dup ? "fail on duplicate\n" : "";
    int n = 1 + vp::pick(3);
    for (int i = 0; i < n; i++) {
      HttpRule r;
      rnd_rule(&r, 0);
      std::unordered_set<std::string> sys;
      if (vp::chance(40)) sys.insert(vp::chance(50) ? "k" : "s");
      bool three = sys.empty() && vp::chance(50);
      g_desc += "RegisterByHttpRule({" + r.ShortDebugString() + "}, method " + std::to_string(i) + (sys.empty() ? "" : ", system parameter " + *sys.begin()) + (three ? ", no system parameters" : "") + ")\n";
      std::vector<One> o;
      flatten(r, &o);
      bool want = true;
      for (auto& x : o) {
        want = b.Register(x.method, x.path, x.body, sys, &g_methods[i]);
        if (!want) break;
      }
      bool got = three ? PathMatcherUtility::RegisterByHttpRule(a, r, static_cast<const M*>(&g_methods[i])) : PathMatcherUtility::RegisterByHttpRule(a, r, sys, static_cast<const M*>(&g_methods[i]));
      vp::count++;
      vp::interesting += o.size() > 1;
      if (got != want) vp::fail(std::string("the last rule returned ") + (got ? "true" : "false") + ", its patterns registered one by one " + (want ? "true" : "false"));
    }
    auto pa = a.Build(), pb = b.Build();
    for (auto* m : methods) for (auto* p : paths) {
      std::string x = answer(*pa, m, p), y = answer(*pb, m, p);
      if (x != y) vp::fail("Lookup(" + vp::quote(m) + ", " + vp::quote(p) + "): " + x + "; with the patterns registered one by one: " + y);
    }
  }
  return vp::finish();
}
