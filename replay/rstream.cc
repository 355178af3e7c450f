// C22: the real RequestStreamTranslator; each element is translated on its own by a RequestMessageTranslator for comparison.
#include <deque>
#include "common.h"
#include "fake_proto.h"
#include "grpc_transcoding/request_stream_translator.h"
using namespace vp;
namespace pb = google::protobuf;
using namespace google::grpc::transcoding;
static pb::Type type;
static pb::Field fields[6];
struct Resolver : pb::util::TypeResolver {
  absl::Status ResolveMessageType(const std::string&, pb::Type*) override { return absl::NotFoundError(""); }
  absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { return absl::NotFoundError(""); }
} resolver;
static RequestInfo info(bool first, int variant) {
  RequestInfo i;
  i.message_type = &type;
  i.body_field_path = variant & 1 ? "x.y" : variant & 2 ? "*" : "";
  i.reject_binding_body_field_collisions = variant & 4;
  i.case_insensitive_enum_parsing = variant & 8;
  if (first && (variant & 16)) i.variable_bindings.push_back({{&fields[0]}, "bound"});
  if (first && (variant & 32)) i.variable_bindings.push_back({{&fields[3], &fields[1]}, "deep"});
  return i;
}
struct Made { const pb::Type* t; bool ci, unknown; bool operator==(const Made& o) const { return t == o.t && ci == o.ci && unknown == o.unknown; } };
static std::vector<Made> made;
// what one element is translated to: (status, message)
static std::pair<absl::Status, std::string> single(bool first, int variant, bool delim, const std::vector<Ev>& v) {
  RequestMessageTranslator t(resolver, delim, info(first, variant));
  for (auto& e : v) send(&t.Input(), e);
  std::string m;
  if (!t.Status().ok()) return {t.Status(), ""};
  if (!t.NextMessage(&m)) return {absl::InvalidArgumentError("no message"), ""};
  return {absl::OkStatus(), m};
}
static void one(int variant, bool delim, const std::vector<Ev>& es, int takes) {
  std::vector<std::string> got, want;
  absl::Status want_st, got_st;
  std::string trouble;
  int at = -1;
  describe = [&] { return "variant " + std::to_string(variant) + " delimiters " + std::to_string(delim) + " events " + show(es) + "\nat event " + std::to_string(at) + "\nexpected " + list(want) + " status " + want_st.ToString() + "\ngot      " + list(got) + " status " + got_st.ToString(); };
  // the writers' parameters are compared as well
  made.clear();
  on_writer = [&](pb::util::converter::ProtoStreamObjectWriter* w) { made.push_back({w->type_, w->options_.case_insensitive_enum_parsing, w->options_.ignore_unknown_fields}); };
  RequestStreamTranslator t(resolver, delim, info(true, variant));
  pb::util::converter::ObjectWriter* w = &t;
  int depth = 0;
  bool done = false, first = true, failed = false;
  std::vector<Ev> cur;
  std::deque<std::string> queue;
  auto poll = [&] {
    std::string m = "left";
    bool r = t.NextMessage(&m);
    if (r) got.push_back(m);
    if (r != !queue.empty()) fail(r ? "a message is returned that should not be there" : "a message is missing");
    if (r) { if (m != queue.front()) fail("a message differs"); queue.pop_front(); }
    if (t.Finished() != ((queue.empty() && done) || failed)) fail("Finished differs");
  };
  auto error = [&](const absl::Status& s) { failed = true; want_st = s; };
  size_t writers = 0;
  for (auto& e : es) {
    at++;
    size_t before = made.size();
    send(w, e);
    size_t made_now = made.size() - before;
    if (failed) {
      if (made_now) fail("an event after the error was processed");
    } else if (depth == 0) {
      if (e.k == '[') depth = 1;
      else error(absl::InvalidArgumentError(""));
    } else if (depth == 1 && e.k == ']') { depth = 0; done = true; }
    else if (depth == 1 && e.k == '}') error(absl::InvalidArgumentError(""));
    else {
      if (depth == 1) {
        writers++;
        if (made_now != 1) fail("an element is not given a translator of its own");
        Made m = made.back(), x{&type, (variant & 8) != 0, true};
        if (!(m == x)) fail("the request options are not applied to every message");
      }
      cur.push_back(e);
      depth += e.opens() ? 1 : e.closes() ? -1 : 0;
      if (depth == 1) {
        auto r = single(first, variant, delim, cur);
        first = false;
        cur.clear();
        if (r.first.ok()) { queue.push_back(r.second); want.push_back(r.second); } else error(r.first);
      }
    }
    got_st = t.Status();
    if (failed != !got_st.ok() || (failed && got_st.code() != want_st.code())) fail("the status differs");
    if (t.Finished() != ((queue.empty() && done) || failed)) fail("Finished differs");
    if (chance(takes)) poll();
  }
  while (!queue.empty()) poll();
  poll();
  on_writer = nullptr;
  count++;
  if (want.size() > 1) interesting++;
}
int main(int argc, char** argv) {
  init(argc, argv);
  static const char* const N[] = {"a", "b", "c", "o", "p", "q"};
  for (int i = 0; i < 6; i++) { fields[i].set_name(N[i]); if (i == 2) fields[i].set_cardinality(pb::Field::CARDINALITY_REPEATED); }
  auto namer = [] { return chance(3) ? std::string("bad") + char('1' + pick(3)) : chance(60) ? std::string(1, "abcopq"[pick(6)]) : any_name(); };
  while (time_left()) {
    std::vector<Ev> es;
    bool wild = chance(20);
    if (!wild || chance(70)) es.push_back({'[', "", ""});
    for (int k = pick(6); k > 0; k--) {
      if (wild && chance(25)) { static const char C[] = "{}[]"; es.push_back({C[pick(4)], "", ""}); }
      else any_value(&es, chance(90) ? "" : namer(), pick(4), namer);
    }
    if (!wild || chance(50)) es.push_back({']', "", ""});
    if (wild && chance(30)) any_value(&es, "", 2, namer);
    int variant = pick(64);
    if (chance(50)) variant &= ~4;
    one(variant, chance(50), es, pick(3) * 40);
  }
  return finish();
}
