// C25: the real TypeHelper over real Type/Field objects against a direct recursive resolution.
// C26: concurrent lookups through a type information that notices being entered twice.
#include <atomic>
#include <map>
#include <memory>
#include <thread>
#include "common.h"
#include "decode_oracle.h"
#include "google/protobuf/util/converter/type_info.h"
#include "google/protobuf/util/type_resolver.h"
#include "grpc_transcoding/type_helper.h"
using namespace vp;
namespace pb = google::protobuf;
using google::grpc::transcoding::TypeHelper;
static std::atomic<int> inside{0};
static std::atomic<bool> overlap{false};
static bool slow = false;
static const std::string PREFIX = "type.googleapis.com/";
struct Enter {
  Enter() {
    if (inside.fetch_add(1) != 0) overlap = true;
    if (slow) usleep(20);
  }
  ~Enter() { inside.fetch_sub(1); }
};
// a type information that asks the resolver and caches, as protobuf's does
struct Lazy : pb::util::converter::TypeInfo {
  explicit Lazy(pb::util::TypeResolver* r) : r(r) {}
  pb::util::TypeResolver* r;
  mutable std::map<std::string, std::unique_ptr<pb::Type>> types;
  mutable std::map<std::string, std::unique_ptr<pb::Enum>> enums;
  const pb::Type* type(const std::string& u) const {
    auto i = types.find(u);
    if (i == types.end()) {
      std::unique_ptr<pb::Type> t(new pb::Type);
      if (!r->ResolveMessageType(u, t.get()).ok()) t.reset();
      i = types.emplace(u, std::move(t)).first;
    }
    return i->second.get();
  }
  absl::StatusOr<const pb::Type*> ResolveTypeUrl(absl::string_view u) const override {
    Enter e;
    auto t = type(std::string(u));
    if (!t) return absl::NotFoundError("no such type");
    return t;
  }
  const pb::Type* GetTypeByTypeUrl(absl::string_view u) const override { Enter e; return type(std::string(u)); }
  const pb::Enum* GetEnumByTypeUrl(absl::string_view u) const override {
    Enter e;
    auto& x = enums[std::string(u)];
    if (!x) { x.reset(new pb::Enum); if (!r->ResolveEnumType(std::string(u), x.get()).ok()) { enums.erase(std::string(u)); return nullptr; } }
    return x.get();
  }
  const pb::Field* FindField(const pb::Type* t, absl::string_view n) const override {
    Enter e;
    for (auto& f : t->fields()) if (f.name() == n) return &f;
    for (auto& f : t->fields()) if (f.json_name() == n) return &f;
    return nullptr;
  }
};
pb::util::converter::TypeInfo* pb::util::converter::TypeInfo::NewTypeInfo(pb::util::TypeResolver* r) { return new Lazy(r); }

static std::string escape(const std::string& s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) if (chance(30)) { snprintf(b, 4, chance(50) ? "%%%02x" : "%%%02X", c); o += b; } else o += char(c);
  return o;
}
struct World {
  std::vector<pb::Type> types;
  std::vector<pb::Enum> enums;
};
static const char* const NAMES[] = {"a", "b", "shelf", "theme", "a_b", "x%", "r/s", "%61"};
static void make(World* w) {
  int n = 1 + pick(5);
  for (int i = 0; i < n; i++) {
    pb::Type t;
    t.set_name("T" + std::to_string(i));
    int k = pick(6);
    std::map<std::string, int> seen;
    for (int j = 0; j < k; j++) {
      std::string nm = NAMES[pick(8)];
      if (seen[nm]++) continue;
      auto* f = t.add_fields();
      f->set_name(nm);
      f->set_json_name(nm + "Json");
      int c = pick(10);
      if (c < 6) { f->set_kind(pb::Field::TYPE_MESSAGE); f->set_type_url(PREFIX + "T" + std::to_string(pick(n + (chance(20) ? 1 : 0)))); }
      else if (c < 7) { f->set_kind(pb::Field::TYPE_GROUP); f->set_type_url(PREFIX + "T0"); }
      else { f->set_kind(pb::Field::Kind(1 + pick(9))); if (chance(50)) f->set_type_url(PREFIX + "T0"); }
      f->set_cardinality(chance(30) ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL);
    }
    w->types.push_back(t);
  }
  pb::Enum e;
  e.set_name("E0");
  w->enums.push_back(e);
}
static std::string names(const std::vector<const pb::Field*>& v) {
  std::string o;
  for (auto f : v) o += (f ? f->name() + ":" + f->type_url() : std::string("null")) + " ";
  return o;
}
static const pb::Field* find(const pb::Type& t, const std::string& n) {
  for (auto& f : t.fields()) if (f.name() == n) return &f;
  for (auto& f : t.fields()) if (f.json_name() == n) return &f;
  return nullptr;
}
// does the name contain an escape sequence the decoder would decode?
static bool escaped(const std::string& s) {
  for (size_t i = 0; i + 2 < s.size(); i++) if (s[i] == '%' && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2])) return true;
  return false;
}
static std::string unescape(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '%' && i + 2 < s.size() && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2])) { o += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
    else o += s[i];
  return o;
}
static void path(const World& w, TypeHelper& h, const std::vector<std::string>& p, bool as_string) {
  std::vector<const pb::Field*> want, got;
  std::string joined;
  for (size_t i = 0; i < p.size(); i++) joined += (i ? "." : "") + p[i];
  bool found = true;
  std::string schema;
  for (auto& t : w.types) schema += t.ShortDebugString() + "\n";
  absl::Status st;
  describe = [&] { return "schema " + schema + "path " + joined + (as_string ? " (as a string)" : "") + "\nexpected " + (found ? names(want) : "an error") + "\nstatus " + std::string(st.ToString()) + "\ngot " + names(got); };
  const pb::Type* t = &w.types[0];
  for (size_t i = 0; i < p.size() && found; i++) {
    auto f = find(*t, p[i]);
    if (!f && escaped(p[i])) f = find(*t, unescape(p[i]));
    if (!f) { found = false; break; }
    want.push_back(f);
    if (i + 1 < p.size()) {
      t = nullptr;
      if (f->kind() == pb::Field::TYPE_MESSAGE) for (auto& x : w.types) if (PREFIX + x.name() == f->type_url()) { t = &x; break; }
      if (!t) found = false;
    }
  }
  auto* start = h.Info()->GetTypeByTypeUrl(PREFIX + w.types[0].name());
  if (!start) fail("the first type is not known");
  pb::Field dummy;
  std::vector<const pb::Field*> before;
  if (chance(50)) before.push_back(&dummy);
  got = before;
  st = as_string ? h.ResolveFieldPath(*start, joined, &got) : h.ResolveFieldPath(*start, p, &got);
  if (st.ok() != found) fail("success differs");
  if (!found) {
    if (st.code() != absl::StatusCode::kInvalidArgument) fail("the error is not invalid-argument");
    if (got != before) fail("the output changed although the path does not resolve");
  } else {
    if (got.size() != want.size()) fail("the number of fields differs");
    for (size_t i = 0; i < got.size(); i++) if (!got[i] || got[i]->SerializeAsString() != want[i]->SerializeAsString()) fail("a field differs");
    interesting++;
  }
  count++;
}
static std::string pick_name(const pb::Type* t) {
  if (t && t->fields_size() && chance(90)) {
    std::string n = t->fields(pick(t->fields_size())).name();
    if (chance(15)) n += "Json";
    return chance(40) ? escape(n) : n;
  }
  return NAMES[pick(8)];
}
static void resolve_all(double) {
  while (time_left()) {
    World w;
    make(&w);
    TypeHelper h(w.types, w.enums);
    for (int k = 0; k < 12; k++) {
      std::vector<std::string> p;
      const pb::Type* t = &w.types[0];
      for (int len = pick(6); len > 0; len--) {
        std::string n = pick_name(t);
        p.push_back(n);
        const pb::Field* f = t ? find(*t, escaped(n) && !find(*t, n) ? unescape(n) : n) : nullptr;
        t = nullptr;
        if (f && f->kind() == pb::Field::TYPE_MESSAGE) for (auto& x : w.types) if (PREFIX + x.name() == f->type_url()) t = &x;
        if (!f && chance(70)) break;
      }
      path(w, h, p, false);
      bool plain = true;
      for (auto& n : p) if (n.find('.') != n.npos || n.empty()) plain = false;
      if (plain) path(w, h, p, true);
    }
  }
}
struct Own : pb::util::TypeResolver {
  explicit Own(const World* w) : w(w) {}
  const World* w;
  absl::Status ResolveMessageType(const std::string& u, pb::Type* t) override {
    for (auto& x : w->types) if (PREFIX + x.name() == u) { *t = x; return absl::OkStatus(); }
    return absl::NotFoundError("no such type");
  }
  absl::Status ResolveEnumType(const std::string& u, pb::Enum* t) override {
    for (auto& x : w->enums) if (PREFIX + x.name() == u) { *t = x; return absl::OkStatus(); }
    return absl::NotFoundError("no such enum");
  }
};
static void concurrent() {
  slow = true;
  describe = [] { return std::string("8 threads: lookups of types, enums, fields and paths through TypeHelper"); };
  World w;
  while (w.types.size() < 3 || w.types[0].fields_size() < 3) { w = World(); make(&w); }
  for (int round = 0; round < 2 || time_left(); round++) {
    TypeHelper own(w.types, w.enums);
    TypeHelper other(new Own(&w));
    for (int which = 0; which < 2; which++) {
      TypeHelper& h = which ? other : own;
      const pb::Type* start = h.Info()->GetTypeByTypeUrl(PREFIX + "T0");
      if (!start) fail("the first type is not known");
      for (int mode = 0; mode < 6; mode++) {
        std::vector<std::thread> ts;
        std::atomic<int> ready{0};
        for (int k = 0; k < 8; k++) ts.emplace_back([&, k] {
          ready++;
          while (ready < 8) {}
          for (int i = 0; i < 8; i++) {
            int op = mode < 5 ? (k & 1 ? mode : (i + k) % 5) : (i + k) % 5;
            std::vector<const pb::Field*> out;
            if (op == 0) h.Info()->FindField(start, "a");
            if (op == 1) h.Info()->GetTypeByTypeUrl(PREFIX + "T" + std::to_string(i % 4));
            if (op == 2) h.Info()->GetEnumByTypeUrl(PREFIX + "E0");
            if (op == 3) h.Info()->ResolveTypeUrl(PREFIX + "T1").ok();
            if (op == 4) h.ResolveFieldPath(*start, start->fields(0).name() + ".a", &out).ok();
          }
        });
        for (auto& t : ts) t.join();
        count++;
        interesting++;
        if (overlap) fail("two threads were inside the type information at the same time");
      }
    }
  }
}
int main(int argc, char** argv) {
  std::string prop = init(argc, argv);
  if (prop == "C26") concurrent(); else resolve_all(budget);
  return finish();
}
