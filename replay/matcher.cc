// C04-C12, C14: the path matcher against a list-of-registrations model.
#include <map>
#include <memory>
#include <set>
#include "common.h"
#include "decode_oracle.h"
#include "tmpl_oracle.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/path_matcher_node.h"
using namespace google::grpc::transcoding;
typedef std::vector<std::string> Path;
static std::string prop;
static bool is(const char* p) { return prop == p; }
struct M { int id; };
static M g_methods[64];
static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> o(1);
  for (char x : s) if (x == c) o.emplace_back(); else o.back() += x;
  return o;
}
struct Reg { std::string method, tmpl, body; std::set<std::string> sys; int id; tmpl::Ast ast; bool ok; };
struct Config { int mode; bool plus, any, dupfail; };
struct Route { int count; const Reg* reg; };
typedef std::pair<Path, std::string> RK;
// model state
struct Model {
  Config c;
  std::vector<Reg> regs;
  std::map<RK, Route> routes;
  std::set<std::string> verbs;
  bool add(size_t i) {
    Reg& g = regs[i];
    if (!g.ok) return false;
    Route& r = routes[RK(g.ast.segs, g.method + g.ast.verb)];
    r.count++;
    if (r.count == 1) r.reg = &g; else if (c.dupfail) return false;
    if (!g.ast.verb.empty()) verbs.insert(g.ast.verb);
    return true;
  }
  typedef std::vector<std::pair<const RK, Route>*> Cands;
  static std::pair<const RK, Route>* at(const Cands& c, size_t len, const std::string& key) {
    for (const std::string& k : {key, std::string("*")})
      for (auto* x : c) if (x->first.first.size() == len && x->first.second == k) return x;
    return nullptr;
  }
  static Cands step(const Cands& c, size_t a, const std::string& s) {
    Cands o;
    for (auto* x : c) if (x->first.first.size() > a && x->first.first[a] == s) o.push_back(x);
    return o;
  }
  static std::pair<const RK, Route>* go(const Cands& c, size_t a, bool wild, const Path& p, size_t i, const std::string& key) {
    if (c.empty()) return nullptr;
    if (i == p.size()) {
      if (auto* x = at(c, a, key)) return x;
      return at(step(c, a, "**"), a + 1, key);
    }
    if (auto* x = go(step(c, a, p[i]), a + 1, p[i] == "**", p, i + 1, key)) return x;
    if (wild) return go(c, a, true, p, i + 1, key);
    if (auto* x = go(step(c, a, "*"), a + 1, false, p, i + 1, key)) return x;
    return go(step(c, a, "**"), a + 1, true, p, i + 1, key);
  }
  std::pair<const RK, Route>* find(const Path& p, const std::string& key) {
    Cands c;
    for (auto& r : routes) c.push_back(&r);
    return go(c, 0, false, p, 0, key);
  }
  void request(std::string path, Path* parts, std::string* verb) const {
    path = path.substr(0, path.find('?'));
    size_t c = path.rfind(':'), s = path.rfind('/');
    if (c != std::string::npos && s != std::string::npos && c > s && (c_any() || verbs.count(path.substr(c + 1)))) {
      *verb = path.substr(c + 1);
      path.resize(c);
    }
    parts->clear();
    if (!path.empty()) *parts = split(path.substr(1), '/');
    while (!parts->empty() && parts->back().empty()) parts->pop_back();
  }
  bool c_any() const { return c.any; }
};
static bool seg_match(const Path& t, size_t a, const Path& p, size_t i) {
  if (a == t.size()) return i == p.size();
  if (t[a] == "**") {
    if (a + 1 == t.size() && i == p.size()) return true;
    for (size_t j = i + 1; j <= p.size(); j++) if (seg_match(t, a + 1, p, j)) return true;
    return false;
  }
  return i < p.size() && (t[a] == "*" || t[a] == p[i]) && seg_match(t, a + 1, p, i + 1);
}
static std::vector<VariableBinding> path_bindings(const Reg& g, const Path& p, int mode) {
  std::vector<VariableBinding> o;
  // how many request segments each template segment took: only "**" is elastic
  int n = int(p.size()), len = int(g.ast.segs.size()), w = 0;
  while (w < len && g.ast.segs[w] != "**") w++;
  for (auto& v : g.ast.vars) {
    int s = v.start < 0 ? v.start + len + 1 : v.start, e = v.end < 0 ? v.end + len + 1 : v.end;
    int rs = s <= w ? s : n - len + s, re = e <= w ? e : n - len + e;
    VariableBinding b;
    b.field_path = v.path;
    bool any;
    for (int i = rs; i < re; i++) {
      if (i > rs) b.value += '/';
      b.value += oracle(p[i], v.wild || re - rs > 1 ? mode : 2, false, &any);
    }
    o.push_back(b);
  }
  return o;
}
static std::vector<VariableBinding> query_bindings(const Reg& g, const std::string& q, bool plus) {
  std::vector<VariableBinding> o;
  for (auto& x : split(q, '&')) {
    size_t e = x.find('=');
    if (e == std::string::npos || e == 0 || g.sys.count(x.substr(0, e))) continue;
    VariableBinding b;
    b.field_path = split(x.substr(0, e), '.');
    bool any;
    b.value = oracle(x.substr(e + 1), 2, plus, &any);
    o.push_back(b);
  }
  return o;
}
static bool same(const std::vector<VariableBinding>& a, const std::vector<VariableBinding>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (a[i].field_path != b[i].field_path || a[i].value != b[i].value) return false;
  return true;
}
static std::string show(const std::vector<VariableBinding>& v) {
  std::string o = "[";
  for (auto& b : v) o += vp::list(b.field_path) + "=" + vp::quote(b.value) + " ";
  return o + "]";
}
static Model* g_model;
static size_t g_upto;
static std::string g_req;
static std::string describe() {
  std::string o = "decode mode " + std::to_string(g_model->c.mode) + ", plus " + std::to_string(g_model->c.plus) + ", unregistered verbs " + std::to_string(g_model->c.any) + ", fail on duplicate " +
                  std::to_string(g_model->c.dupfail) + "\n";
  for (size_t i = 0; i < g_upto && i < g_model->regs.size(); i++) {
    auto& g = g_model->regs[i];
    o += "Register(" + vp::quote(g.method) + ", " + vp::quote(g.tmpl) + ", body " + vp::quote(g.body) + ", method " + std::to_string(g.id);
    for (auto& s : g.sys) o += ", system " + vp::quote(s);
    o += ")\n";
  }
  return o + g_req;
}
// ---- generators
static std::string rnd_lit() {
  static const char* t[] = {"a", "b", "c", "aa", "x%2Fy", "%41", "z", ".", "a%20b"};
  return vp::chance(80) ? t[vp::pick(3)] : t[vp::pick(9)];
}
static std::string rnd_tmpl() {
  if (vp::chance(3)) return "/";
  if (vp::chance(4)) { static const char* bad[] = {"", "a", "//", "/{x", "/**/*", "/a:", "/{x=**}/{y}", "/a/", "/{=a}", "/:v"}; return bad[vp::pick(10)]; }
  std::string s;
  bool wild = false;
  int n = 1 + vp::pick(4), var = 0;
  static const char* names[] = {"x", "y.z", "x.y", "w", "q"};
  for (int i = 0; i < n; i++) {
    s += "/";
    auto one = [&]() -> std::string {
      int k = vp::pick(10);
      if (!wild && k == 0) { wild = true; return "**"; }
      if (!wild && k <= 2) return "*";
      return rnd_lit();
    };
    if (vp::chance(40) && var < 4) {
      std::string nm = names[var++];
      if (!wild && vp::chance(30)) s += "{" + nm + "}";
      else {
        s += "{" + nm + "=" + one();
        while (vp::chance(40)) s += "/" + one();
        s += "}";
      }
    } else s += one();
  }
  if (vp::chance(30)) s += vp::chance(70) ? ":v" : ":w";
  return s;
}
static std::string rnd_seg() {
  static const char* t[] = {"a", "b", "c", "aa", "", "%2F", "%2f%20", "a+b", "%41", "*", "**", "%", "%4", "x%2Fy", "%23%21", ":", "a:v", "%C3%A9", "z", "."};
  return vp::chance(75) ? t[vp::pick(3)] : t[vp::pick(20)];
}
// a path matching the template in most cases
static std::string rnd_path(const Model& m) {
  std::string s;
  if (!m.regs.empty() && vp::chance(75)) {
    const Reg& g = m.regs[vp::pick(int(m.regs.size()))];
    if (g.ok) {
      for (auto& x : g.ast.segs) {
        int k = x == "**" ? vp::pick(4) : 1;
        while (k--) s += "/" + (x == "*" || x == "**" ? rnd_seg() : vp::chance(95) ? x : rnd_seg());
      }
      if (s.empty()) s = "/";
      if (!g.ast.verb.empty() && vp::chance(85)) s += ":" + g.ast.verb;
      else if (vp::chance(8)) s += vp::chance(50) ? ":v" : ":u";
      if (vp::chance(10)) s += vp::chance(50) ? "/" : "//";
      if (vp::chance(10)) s += vp::chance(50) ? "?x=y" : vp::chance(50) ? "?a/b:v" : "?x?/y?:v";
      return s;
    }
  }
  int n = vp::pick(5);
  for (int i = 0; i < n; i++) s += (i || vp::chance(97) ? "/" : "") + rnd_seg();
  if (n == 0 && vp::chance(70)) s = "/";
  if (vp::chance(30)) s += vp::chance(50) ? ":v" : vp::chance(50) ? ":w" : ":u";
  while (vp::chance(12)) s += "/";
  if (vp::chance(12)) s += vp::chance(50) ? "?" : vp::chance(50) ? "?k=v:v" : "??";
  return s;
}
static std::string rnd_query() {
  std::string q;
  int n = vp::pick(4);
  static const char* nm[] = {"a", "b.c", "key", "x..y", "", ".", "%41", "k+k", "a.b.c"};
  static const char* val[] = {"", "1", "a=b", "%20", "%2F%2f", "+", "%", "%zz", "a+b", "%25%41", "=", "%00"};
  for (int i = 0; i < n; i++) {
    if (i || vp::chance(10)) q += "&";
    q += nm[vp::pick(9)];
    if (vp::chance(85)) { q += "="; q += val[vp::pick(12)]; }
  }
  return q;
}
static std::string rnd_method() { static const char* t[] = {"GET", "POST", "PUT", "*"}; int k = vp::pick(10); return k < 6 ? t[0] : k < 8 ? t[1] : k < 9 ? t[2] : t[3]; }
static Reg make(const std::string& method, const std::string& t, int id) {
  Reg g{method, t, "", {}, id, {}, false};
  g.ok = tmpl::parse(t, &g.ast);
  return g;
}
static void one_table() {
  Model m;
  m.c = Config{vp::pick(3), vp::chance(50), vp::chance(25), vp::chance(40)};
  int n = 1 + vp::pick(vp::chance(30) ? 12 : 5);
  std::vector<std::string> ts;
  if (is("C06")) {
    static const char* t[] = {"/{x=**}", "/{x=**}:v", "/{x=**}:w", "/a/{x=**}", "/{x}", "/{x}:v", "/", "/a:v"};
    for (int i = 0; i < n; i++) ts.push_back(t[vp::pick(8)]);
  } else
    for (int i = 0; i < n; i++) ts.push_back(!ts.empty() && vp::chance(is("C09") ? 50 : 15) ? ts[vp::pick(int(ts.size()))] : rnd_tmpl());
  for (int i = 0; i < n; i++) {
    Reg g = make(is("C06") ? "GET" : rnd_method(), ts[i], i);
    if (vp::chance(30)) g.body = vp::chance(50) ? "*" : "b.c";
    if (vp::chance(30)) g.sys.insert("key");
    if (vp::chance(10)) g.sys.insert("b.c");
    m.regs.push_back(g);
  }
  g_model = &m;
  g_req = "";
  auto b = std::make_unique<PathMatcherBuilder<const M*>>();
  b->SetUrlUnescapeSpec(m.c.mode == 0 ? UrlUnescapeSpec::kAllCharactersExceptReserved : m.c.mode == 1 ? UrlUnescapeSpec::kAllCharactersExceptSlash : UrlUnescapeSpec::kAllCharacters);
  b->SetQueryParamUnescapePlus(m.c.plus);
  b->SetMatchUnregisteredCustomVerb(m.c.any);
  b->SetFailRegistrationOnDuplicate(m.c.dupfail);
  std::vector<bool> got;
  for (size_t i = 0; i < m.regs.size(); i++) {
    Reg& g = m.regs[i];
    g_upto = i + 1;
    bool fresh = !g.ok || m.routes.find(RK(g.ast.segs, g.method + g.ast.verb)) == m.routes.end();
    bool want = m.add(i);
    bool r = g.sys.empty() && vp::chance(50) ? b->Register(g.method, g.tmpl, g.body, &g_methods[g.id])
                                           : b->Register(g.method, g.tmpl, g.body, std::unordered_set<std::string>(g.sys.begin(), g.sys.end()), &g_methods[g.id]);
    if (r != want && ((is("C10") && fresh) || (is("C09") && !fresh) || (is("C01") && !g.ok)))
      vp::fail(std::string("the last registration returned ") + (r ? "true" : "false") + ", expected " + (want ? "true" : "false"));
  }
  auto pm = b->Build();
  int k = 6 + vp::pick(20);
  while (k--) {
    std::string method = rnd_method(), path = rnd_path(m), query = is("C11") || vp::chance(40) ? rnd_query() : "";
    if (method == "*") method = vp::chance(70) ? "DELETE" : "*";
    g_req = "Lookup(" + vp::quote(method) + ", " + vp::quote(path) + ", " + vp::quote(query) + ")";
    Path parts;
    std::string verb;
    m.request(path, &parts, &verb);
    auto* hit = m.find(parts, method + verb);
    const Reg* want = hit && hit->second.count == 1 ? hit->second.reg : nullptr;
    std::vector<VariableBinding> vars(1);
    vars[0].value = "old";
    std::string body = "oldbody";
    const M* got = pm->Lookup(method, path, query, &vars, &body);
    int id = got ? int(got - g_methods) : -1;
    vp::count++;
    vp::interesting += got != nullptr;
    if (is("C05")) { pm->Lookup(method, path, query, nullptr, nullptr); pm->Lookup(method, path); continue; }
    std::string exp = want ? std::to_string(want->id) : "none", res = id < 0 ? "none" : std::to_string(id);
    if (got && is("C07")) {
      const Reg& g = m.regs[id];
      if (!g.ok || !seg_match(g.ast.segs, 0, parts, 0) || !(g.method + g.ast.verb == method + verb || g.method + g.ast.verb == "*")) vp::fail("returned method " + res + ", whose template does not match the request");
    }
    if (id != (want ? want->id : -1)) {
      bool amb = hit && hit->second.count > 1;
      if ((is("C08") && !amb) || (is("C09") && amb) || is("C06") || (is("C10") && !amb)) vp::fail("returned method " + res + ", expected " + exp + (amb ? " (ambiguous route)" : ""));
      if (is("C12")) {
        if (pm->Lookup(method, path) != got) vp::fail("the two-argument lookup returns another method");
      }
      continue;
    }
    if (is("C12")) {
      if (pm->Lookup(method, path) != got) vp::fail("the two-argument lookup returns another method");
      std::vector<VariableBinding> v2(2);
      std::string b2 = "x";
      if (pm->Lookup(method, path, query, nullptr, &b2) != got || pm->Lookup(method, path, query, &v2, nullptr) != got || pm->Lookup(method, path, query, nullptr, nullptr) != got)
        vp::fail("omitting an output changes the method returned");
      if (got && (b2 != body || !same(vars, v2))) vp::fail("omitting an output changes the other one");
      if (!got && (vars.size() != 1 || vars[0].value != "old" || body != "oldbody")) vp::fail("no method, but an output changed");
      if (got && body != want->body) vp::fail("body field path " + vp::quote(body) + ", expected " + vp::quote(want->body));
      std::vector<VariableBinding> v3;
      std::string b3;
      if (pm->Lookup(method, path, query, &v3, &b3) != got || (got && (!same(v3, vars) || b3 != body))) vp::fail("repeating the lookup gives another answer");
    }
    if (!got) continue;
    if (is("C10") && body != want->body) vp::fail("body field path " + vp::quote(body) + ", expected " + vp::quote(want->body));
    auto pb = path_bindings(*want, parts, m.c.mode), qb = query_bindings(*want, query, m.c.plus);
    auto all = pb;
    all.insert(all.end(), qb.begin(), qb.end());
    if ((is("C12") || is("C10") || is("C06")) && !same(vars, all)) vp::fail("bindings " + show(vars) + ", expected " + show(all));
    if (is("C04") && (vars.size() < pb.size() || !same(std::vector<VariableBinding>(vars.begin(), vars.begin() + pb.size()), pb))) vp::fail("bindings " + show(vars) + ", expected first " + show(pb));
    if (is("C11") && (vars.size() < qb.size() || !same(std::vector<VariableBinding>(vars.end() - qb.size(), vars.end()), qb) || vars.size() != all.size())) vp::fail("bindings " + show(vars) + ", expected last " + show(qb));
  }
  if (is("C08") || is("C07")) {  // the same registrations in another order answer alike
    std::vector<size_t> ord;
    for (size_t i = 0; i < m.regs.size(); i++) ord.insert(ord.begin() + vp::pick(int(ord.size()) + 1), i);
    PathMatcherBuilder<const M*> b2;
    b2.SetMatchUnregisteredCustomVerb(m.c.any);
    for (size_t i : ord) b2.Register(m.regs[i].method, m.regs[i].tmpl, m.regs[i].body, &g_methods[m.regs[i].id]);
    auto p2 = b2.Build();
    for (int j = 0; j < 8; j++) {
      std::string method = rnd_method(), path = rnd_path(m);
      if (m.c.dupfail) continue;
      auto* x = pm->Lookup(method, path);
      auto* y = p2->Lookup(method, path);
      g_req = "Lookup(" + vp::quote(method) + ", " + vp::quote(path) + ")";
      if (is("C08") && x != y) vp::fail("another order of registration gives another method");
    }
  }
}
// ---- C14
static std::string g_trie;
static void one_clone() {
  typedef PathMatcherNode::PathInfo Info;
  auto mk = [](const Path& p) { Info::Builder b; for (auto& s : p) b.AppendLiteralNode(s); return b.Build(); };
  static int cells[40];
  auto root = std::make_unique<PathMatcherNode>();
  std::vector<std::pair<Path, std::string>> done;
  g_trie = "";
  auto insert = [&](PathMatcherNode* r, bool log) {
    Path p;
    int n = vp::pick(5);
    static const char* t[] = {"a", "b", "*", "**", "c"};
    for (int j = 0; j < n; j++) p.push_back(t[vp::pick(5)]);
    std::string k = rnd_method();
    bool dup = vp::chance(70);
    int c = vp::pick(40);
    if (log) g_trie += "insert " + vp::list(p) + " key " + vp::quote(k) + " data " + std::to_string(c) + (dup ? " marking duplicates" : "") + "\n";
    r->InsertPath(mk(p), k, &cells[c], dup);
  };
  int n = 1 + vp::pick(10);
  for (int i = 0; i < n; i++) insert(root.get(), true);
  auto copy = root->Clone();
  std::vector<std::pair<Path, std::string>> qs;
  std::vector<PathMatcherLookupResult> rs;
  auto look = [](PathMatcherNode* r, const Path& p, const std::string& k) { PathMatcherLookupResult x(nullptr, false); r->LookupPath(p.begin(), p.end(), k, &x); return x; };
  for (int i = 0; i < 25; i++) {
    Path p;
    int l = vp::pick(5);
    static const char* t[] = {"a", "b", "c", "d"};
    while (l--) p.push_back(t[vp::pick(4)]);
    std::string k = rnd_method();
    auto x = look(root.get(), p, k), y = look(copy.get(), p, k);
    g_req = "lookup " + vp::list(p) + " key " + vp::quote(k);
    if (x.data != y.data || x.is_multiple != y.is_multiple) vp::fail("the clone answers differently");
    qs.push_back({p, k});
    rs.push_back(x);
    vp::count++;
    vp::interesting += x.data != nullptr;
  }
  // changes of the original do not reach the clone
  for (int i = 0; i < 4; i++) insert(root.get(), false);
  if (vp::chance(50)) root.reset();
  for (size_t i = 0; i < qs.size(); i++) {
    auto y = look(copy.get(), qs[i].first, qs[i].second);
    g_req = "lookup " + vp::list(qs[i].first) + " key " + vp::quote(qs[i].second) + " after changing the original";
    if (rs[i].data != y.data || rs[i].is_multiple != y.is_multiple) vp::fail("the clone changed with the original");
  }
}
static void one_garbage() {  // C05: arbitrary bytes
  auto junk = [](int n) { std::string s; while (n-- > 0) s += vp::chance(70) ? "/*{}=.:?&%2Fa+"[vp::pick(14)] : char(vp::rnd()); return s; };
  Model m;
  m.c = Config{vp::pick(3), vp::chance(50), vp::chance(50), vp::chance(50)};
  for (int i = 0; i < 4; i++) m.regs.push_back(make(vp::chance(80) ? rnd_method() : junk(2), vp::chance(40) ? rnd_tmpl() : vp::chance(50) ? "/" + junk(vp::pick(12)) : junk(vp::pick(6)), i));
  g_model = &m;
  g_req = "";
  PathMatcherBuilder<const M*> b;
  b.SetMatchUnregisteredCustomVerb(m.c.any);
  b.SetFailRegistrationOnDuplicate(m.c.dupfail);
  b.SetQueryParamUnescapePlus(m.c.plus);
  for (auto& g : m.regs) { g_upto++; b.Register(g.method, g.tmpl, g.body, &g_methods[g.id]); }
  auto pm = b.Build();
  for (int i = 0; i < 12; i++) {
    std::string method = vp::chance(80) ? rnd_method() : junk(2), path = vp::chance(40) ? rnd_path(m) : junk(vp::pick(10)), q = junk(vp::pick(10));
    g_req = "Lookup(" + vp::quote(method) + ", " + vp::quote(path) + ", " + vp::quote(q) + ")";
    std::vector<VariableBinding> v;
    std::string body;
    pm->Lookup(method, path, q, &v, &body);
    pm->Lookup(method, path);
    vp::count++;
  }
}
int main(int argc, char** argv) {
  prop = vp::init(argc, argv);
  if (is("C14")) {
    vp::describe = [] { return g_trie + g_req; };
    while (vp::time_left()) one_clone();
    return vp::finish();
  }
  vp::describe = describe;
  while (vp::time_left()) {
    g_upto = 0;
    if (is("C05") && vp::chance(50)) one_garbage(); else one_table();
  }
  return vp::finish();
}
