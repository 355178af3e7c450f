// C23: the real JsonRequestTranslator, over scripted inputs and a parser that records what it is given.
#include <memory>
#include "common.h"
#include "fake_proto.h"
#include "google/protobuf/io/zero_copy_stream.h"
#include "grpc_transcoding/json_request_translator.h"
using namespace vp;
namespace pb = google::protobuf;
namespace pbconv = google::protobuf::util::converter;
using namespace google::grpc::transcoding;
static pb::Type type;
static pb::Field field;
struct Resolver : pb::util::TypeResolver {
  absl::Status ResolveMessageType(const std::string&, pb::Type*) override { return absl::NotFoundError(""); }
  absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { return absl::NotFoundError(""); }
} resolver;
static const std::string END = "\x01";
// the answers of the input: END when there is no more, "" when there is nothing yet
struct Input : pb::io::ZeroCopyInputStream {
  std::vector<std::string> script;
  size_t at = 0;
  bool Next(const void** d, int* n) override {
    const std::string& a = at < script.size() ? script[at] : END;
    if (at < script.size()) at++;
    if (a == END) return false;
    *d = a.data();
    *n = int(a.size());
    return true;
  }
  void BackUp(int) override { fail("BackUp of the input"); }
  bool Skip(int) override { fail("Skip on the input"); }
  int64_t ByteCount() const override { return 0; }
};
static RequestInfo info(int variant) {
  RequestInfo i;
  i.message_type = &type;
  i.body_field_path = variant & 1 ? "x.y" : "";
  if (variant & 2) i.variable_bindings.push_back({{&field}, "bound"});
  return i;
}
int main(int argc, char** argv) {
  init(argc, argv);
  field.set_name("f");
  while (time_left()) {
    bool streaming = chance(60), delim = chance(40);
    int variant = pick(4), style = pick(3);
    std::string doc = streaming ? "[" : "";
    if (streaming) {
      for (int k = pick(6); k > 0; k--) { static const char* const E[] = {"{}", "s", "[s]", "{s{s}}", "[]", "n"}; doc += E[pick(6)]; }
      doc += ']';
    } else {
      static const char* const E[] = {"{}", "{s}", "{s[s{}]}", "", "{{}s}", "n", "N", "{n}"};
      doc = E[pick(8)];
    }
    if (chance(15)) doc.insert(pick(int(doc.size()) + 1), 1, "!?[]{}snN"[pick(9)]);
    if (chance(15)) doc.resize(pick(int(doc.size()) + 1));
    Input in;
    std::vector<std::string>& sc = in.script;
    for (size_t i = 0; i < doc.size();) {
      while (chance(style * 20)) sc.push_back("");
      size_t n = chance(40) ? doc.size() - i : 1 + pick(int(doc.size() - i));
      sc.push_back(doc.substr(i, n));
      i += n;
    }
    while (chance(style * 20)) sc.push_back("");
    parse_error_at = chance(10) ? pick(5) : -1;
    int err = parse_error_at;
    fed.clear();
    std::vector<std::string> want_fed;
    std::string last;
    describe = [&] { return std::string(streaming ? "streaming" : "single") + " input " + list(sc) + " failing parser call " + std::to_string(err) + "\nexpected to be parsed " + list(want_fed) + "\nparsed " + list(fed) + last; };
    JsonRequestTranslator t(&resolver, &in, info(variant), streaming, delim);
    MessageStream& out = t.Output();
    // the translation the parser's events should drive
    std::unique_ptr<RequestStreamTranslator> rs;
    std::unique_ptr<RequestMessageTranslator> rm;
    pbconv::ObjectWriter* w;
    MessageStream* tr;
    if (streaming) { rs.reset(new RequestStreamTranslator(resolver, delim, info(variant))); w = rs.get(); tr = rs.get(); }
    else { rm.reset(new RequestMessageTranslator(resolver, delim, info(variant))); w = &rm->Input(); tr = rm.get(); }
    pbconv::vp_open.erase(w);
    pbconv::vp_pending.erase(w);
    absl::Status st;
    bool over = false;      // the parser was told the end, or the script is over
    bool data = false;
    size_t pos = 0;
    int calls = int(sc.size()) + 4 + pick(4);
    for (int c = 0; c < calls; c++) {
      std::string want_m, got_m = "left";
      bool want = false, failed = !st.ok();
      for (int guard = 0; ; guard++) {
        if (guard > 40) fail("harness: too many polls");
        if (tr->NextMessage(&want_m)) { want = true; break; }
        if (failed || tr->Finished()) break;
        std::string a = pos < sc.size() ? sc[pos] : END;
        if (pos < sc.size()) pos++;
        if (a == "") break;
        bool fin = false;
        if (a == END) {
          if (data) { want_fed.push_back(END); pbconv::vp_parse_end(w); st = pbconv::vp_parse_answer(w, int(want_fed.size()) - 1, ""); fin = true; over = true; }
          else { want_fed.push_back("{}"); pbconv::vp_parse_events(w, "{}"); st = pbconv::vp_parse_answer(w, int(want_fed.size()) - 1, "{}"); }
        } else {
          data = true;
          want_fed.push_back(a);
          pbconv::vp_parse_events(w, a);
          st = pbconv::vp_parse_answer(w, int(want_fed.size()) - 1, a);
        }
        if (st.ok()) st = tr->Status();
        if (!st.ok() || fin) break;
      }
      bool r = out.NextMessage(&got_m);
      last = "\ncall " + std::to_string(c) + " expected " + (want ? quote(want_m) : "nothing") + " status " + st.ToString() + " got " + (r ? quote(got_m) : "nothing") + " status " + out.Status().ToString();
      if (fed != want_fed) fail("the parser is not given the input as it arrives, or not only as needed");
      if (r != want) fail(r ? "a message is returned that should not be there" : "a message is missing");
      if (r && got_m != want_m) fail("a message differs");
      if (in.at != pos) fail("input is read that should not be, or left unread");
      if (out.Status() != st) fail("the status differs");
      if (out.Finished() != (tr->Finished() || !st.ok())) fail("Finished differs");
    }
    count++;
    if (want_fed.size() > 1 && over) interesting++;
  }
  return finish();
}
