// C20, C21: the real RequestWeaver; the expected events are computed from the body as a tree of values.
#include <list>
#include "common.h"
#include "fake_proto.h"
#include "grpc_transcoding/request_weaver.h"
using namespace vp;
namespace pb = google::protobuf;
using namespace google::grpc::transcoding;
static pb::Field fields[9];  // 0-5: a..f; 6: another object called a; 7: another object called b, repeated; 8: ""
static std::string prop;
static void make_fields() {
  const char* names[] = {"a", "b", "c", "d", "e", "f", "a", "b", ""};
  for (int i = 0; i < 9; i++) fields[i].set_name(names[i]);
  fields[3].set_cardinality(pb::Field::CARDINALITY_REPEATED);
  fields[4].set_cardinality(pb::Field::CARDINALITY_REPEATED);
  fields[7].set_cardinality(pb::Field::CARDINALITY_REPEATED);
  fields[0].set_cardinality(pb::Field::CARDINALITY_OPTIONAL);
  fields[1].set_cardinality(pb::Field::CARDINALITY_REQUIRED);
}
struct Member;
struct Value { char k = 'n'; std::string val; std::vector<Member> kids; };
struct Member { std::string first; Value second; };
struct Kid;
struct Node { std::vector<std::pair<const pb::Field*, std::string>> bound; std::list<Kid> kids; bool empty() const { return bound.empty() && kids.empty(); } };
struct Kid { std::string first; Node second; };
static Node* kid(Node* n, const std::string& name) { if (n) for (auto& k : n->kids) if (k.first == name) return &k.second; return nullptr; }
static bool near_(double a, double b) { return a == b || std::fabs(a - b) < std::ldexp(1.0, -18); }
// the binding, converted to the type of the body value, is the body value
static bool same(char k, const std::string& body, const std::string& t) {
  int32_t i; uint32_t u; int64_t I; uint64_t U; double d; float f;
  switch (k) {
    case 'b': return unbits<bool>(body) ? t == "true" : t == "false";
    case 'i': return absl::SimpleAtoi(t, &i) && i == unbits<int32_t>(body);
    case 'u': return absl::SimpleAtoi(t, &u) && u == unbits<uint32_t>(body);
    case 'I': return absl::SimpleAtoi(t, &I) && I == unbits<int64_t>(body);
    case 'U': return absl::SimpleAtoi(t, &U) && U == unbits<uint64_t>(body);
    case 'd': return absl::SimpleAtod(t, &d) && near_(d, unbits<double>(body));
    case 'f': return absl::SimpleAtof(t, &f) && near_(f, unbits<float>(body));
    default: return t == body;
  }
}
static std::vector<Ev> want;
static bool clash, report;
static void plain(const std::string& name, const Value& v) {
  want.push_back(Ev{v.k, v.k == '}' || v.k == ']' ? "" : name, v.val});
  if (v.k != '{' && v.k != '[') return;
  for (auto& k : v.kids) plain(k.first, k.second);
  want.push_back(Ev{v.k == '{' ? '}' : ']', "", ""});
}
static void close(Node* n) {
  for (auto& b : n->bound) want.push_back(Ev{'s', b.first->name(), b.second});
  for (auto& k : n->kids) if (!k.second.empty()) { want.push_back(Ev{'{', k.first, ""}); close(&k.second); want.push_back(Ev{'}', "", ""}); }
  n->bound.clear();
  n->kids.clear();
}
static void object(Node* n, const Value& v) {
  for (auto& k : v.kids) {
    const Value& x = k.second;
    if (x.k == '{' && kid(n, k.first)) { want.push_back(Ev{'{', k.first, ""}); object(kid(n, k.first), x); want.push_back(Ev{'}', "", ""}); continue; }
    if (x.k != '{' && x.k != '[' && x.k != 'n') {
      auto left = n->bound;
      left.clear();
      for (auto& b : n->bound) {
        if (b.first->name() != k.first) { left.push_back(b); continue; }
        if (b.first->cardinality() == pb::Field::CARDINALITY_REPEATED) want.push_back(Ev{'s', k.first, b.second});
        else if (!same(x.k, x.val, b.second)) clash = true;
      }
      n->bound = left;
    }
    plain(k.first, x);
  }
  close(n);
}
static void feed(OW* w, const std::string& name, const Value& v) {
  send(w, Ev{v.k, name, v.val});
  if (v.k != '{' && v.k != '[') return;
  for (auto& k : v.kids) feed(w, k.first, k.second);
  send(w, Ev{v.k == '{' ? '}' : ']', "", ""});
}
static const char* const texts[] = {"0", "1", "-1", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
    "18446744073709551615", "true", "false", "", "x", "1.5", "1.500001", "1.50001", "1000000.5", "nan", "inf", "-inf", "1e300", "0.1", "1.5x", "16777217", "16777216", "eHl6", "!"};
static const int NT = sizeof texts / sizeof *texts;
static Value scalar(const std::vector<std::string>& bound) {
  Value v;
  v.k = "biuIUdfsBn"[pick(10)];
  std::string t = !bound.empty() && chance(70) ? bound[pick(int(bound.size()))] : texts[pick(NT)];
  int32_t i = 0; uint32_t u = 0; int64_t I = 0; uint64_t U = 0; double d = 0; float f = 0;
  bool off = chance(25);
  switch (v.k) {
    case 'b': v.val = bits((t == "true") != off); break;
    case 'i': (void)absl::SimpleAtoi(t, &i); v.val = bits(int32_t(i ^ int(off))); break;
    case 'u': (void)absl::SimpleAtoi(t, &u); v.val = bits(uint32_t(u ^ unsigned(off))); break;
    case 'I': (void)absl::SimpleAtoi(t, &I); v.val = bits(int64_t(I ^ (off ? int64_t(1) << pick(63) : 0))); break;
    case 'U': (void)absl::SimpleAtoi(t, &U); v.val = bits(uint64_t(U ^ (off ? uint64_t(1) << pick(64) : 0))); break;
    case 'd': (void)absl::SimpleAtod(t, &d); v.val = bits(d + (off ? (chance(50) ? 3e-6 : 5e-6) * (chance(50) ? 1 : -1) : 0)); break;
    case 'f': (void)absl::SimpleAtof(t, &f); v.val = bits(float(f + (off ? (chance(50) ? 3e-6f : 5e-6f) * (chance(50) ? 1 : -1) : 0))); break;
    case 's': case 'B': v.val = off ? t + "y" : t; break;
    default: break;
  }
  return v;
}
static Value value(int depth, bool obj, const std::vector<std::string>& bound) {
  Value v;
  if (!obj && (depth <= 0 || chance(50))) return scalar(bound);
  v.k = obj || chance(70) ? '{' : '[';
  for (int i = pick(4); i > 0; i--) v.kids.push_back({v.k == '[' ? std::string() : std::string(chance(3) ? "" : fields[pick(6)].name()), value(depth - 1, false, bound)});
  return v;
}
static void one(const std::vector<RequestWeaver::BindingInfo>& bs, const Value& v) {
  Node root;
  for (auto& b : bs) {
    if (b.field_path.empty()) continue;
    Node* n = &root;
    for (size_t i = 0; i + 1 < b.field_path.size(); i++) {
      Node* k = kid(n, b.field_path[i]->name());
      if (!k) { n->kids.push_back({b.field_path[i]->name(), Node()}); k = &n->kids.back().second; }
      n = k;
    }
    n->bound.push_back({b.field_path.back(), b.value});
  }
  want.clear();
  clash = false;
  Recording<pb::util::converter::ObjectWriter> out;
  StatusErrorListener el;
  std::vector<Ev> body;
  describe = [&] {
    std::string s = "bindings";
    for (auto& b : bs) { s += " "; for (auto* f : b.field_path) s += "." + f->name() + (f->cardinality() == pb::Field::CARDINALITY_REPEATED ? "[]" : ""); s += "=" + quote(b.value); }
    return s + "\nreport collisions " + std::to_string(report) + "\nbody     " + show(body) + "\nexpected " + show(want) + (report && clash ? " and an error" : "") + "\ngot      " + show(out.log) + " status " + el.status().ToString();
  };
  want.push_back(Ev{'{', "", ""});
  { auto w = std::move(want); want.clear(); plain("", v); body = want; want = std::move(w); }
  object(&root, v);
  want.push_back(Ev{'}', "", ""});
  RequestWeaver w(bs, &out, &el, report);
  feed(&w, "", v);
  count++;
  if (!bs.empty()) interesting++;
  if (out.log != want) fail("the events written differ");
  if (prop == "C20") return;
  absl::Status st = w.Status();
  if (st.ok() == (report && clash)) fail(st.ok() ? "a collision is not reported" : "an error is reported without a collision");
  if (!st.ok() && st.code() != absl::StatusCode::kInvalidArgument) fail("the error is not an invalid argument");
}
int main(int argc, char** argv) {
  prop = init(argc, argv);
  make_fields();
  report = true;
  // every pair of body type and bound text, for every kind of field
  for (int k = 0; k < 10; k++)
    for (int t = 0; t < NT; t++)
      for (int r = 0; r < 40; r++) {
        std::vector<RequestWeaver::BindingInfo> bs = {{{&fields[r % 6]}, texts[t]}};
        Value v, s;
        do s = scalar({texts[t]}); while (s.k != "biuIUdfsBn"[k]);
        v.k = '{';
        v.kids.push_back({fields[r % 6].name(), s});
        report = r % 8 != 7;
        one(bs, v);
      }
  while (time_left()) {
    std::vector<RequestWeaver::BindingInfo> bs;
    std::vector<std::string> bound;
    for (int i = pick(5); i > 0; i--) {
      RequestWeaver::BindingInfo b;
      for (int j = chance(3) ? 0 : 1 + pick(3); j > 0; j--) b.field_path.push_back(&fields[chance(80) ? pick(4) : pick(9)]);
      b.value = texts[pick(NT)];
      bound.push_back(b.value);
      bs.push_back(b);
    }
    report = chance(80);
    one(bs, value(4, true, bound));
  }
  return finish();
}
