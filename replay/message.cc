// C18, C27: the real RequestMessageTranslator; the prefixes it writes are read back by the real MessageReader.
#include "common.h"
#include "fake_proto.h"
#include "in_stream.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/request_message_translator.h"
using namespace vp;
namespace pb = google::protobuf;
using namespace google::grpc::transcoding;
static pb::Type type;
static pb::Field field;
struct Resolver : pb::util::TypeResolver {
  absl::Status ResolveMessageType(const std::string&, pb::Type*) override { return absl::NotFoundError(""); }
  absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { return absl::NotFoundError(""); }
} resolver;
using Writer = pb::util::converter::ProtoStreamObjectWriter;
static std::string be(size_t n) {
  std::string o(1, '\0');
  for (int i = 24; i >= 0; i -= 8) o += char((n >> i) & 0xff);
  return o;
}
int main(int argc, char** argv) {
  std::string prop = init(argc, argv);
  field.set_name("f");
  bool sizes = prop == "C18";
  while (time_left()) {
    RequestInfo info;
    info.message_type = &type;
    static const char* const P[] = {"", "*", "p", "p.q", "**", "p*"};
    std::string path = P[pick(6)];
    info.body_field_path = path;
    bool bound = chance(50), reject = chance(50), ci = chance(50), delim = chance(60);
    if (bound) info.variable_bindings.push_back({{&field}, "v"});
    info.reject_binding_body_field_collisions = reject;
    info.case_insensitive_enum_parsing = ci;
    Writer* made = nullptr;
    int writers = 0;
    on_writer = [&](Writer* w) { made = w; writers++; };
    // the body: one object, or any value where nothing is woven or put below a field
    bool prefixed = !path.empty() && path != "*";
    std::vector<std::string> steps;
    for (size_t i = 0, j; prefixed && i <= path.size(); i = j + 1) { j = std::min(path.find('.', i), path.size()); steps.push_back(path.substr(i, j - i)); }
    std::vector<Ev> body, want;
    auto namer = [] { static const char* const N[] = {"a", "b", "f2", ""}; return std::string(N[pick(4)]); };
    bool clash = bound && !prefixed && chance(20), bad = chance(10);
    if (bound || chance(70)) {
      body.push_back({'{', "", ""});
      if (clash) body.push_back({'s', "f", chance(50) ? "v" : "w"});
      for (int i = pick(3); i > 0; i--) any_value(&body, namer(), 2, namer);
      if (bad) body.push_back({'s', "bad" + std::to_string(1 + pick(3)), "x"});
      body.push_back({'}', "", ""});
    } else {
      bad = false;
      any_value(&body, "", 2, namer);
    }
    if (prefixed) {
      want.push_back({'{', "", ""});
      for (size_t i = 0; i + 1 < steps.size(); i++) want.push_back({'{', steps[i], ""});
    }
    for (size_t i = 0; i < body.size(); i++) {
      bool last = i + 1 == body.size();
      if (last && bound && !prefixed && !clash) want.push_back({'s', "f", "v"});
      want.push_back(body[i]);
      if (i == 0 && prefixed) want.back().name = steps.back();
    }
    if (prefixed) {
      for (size_t i = 0; i + 1 < steps.size(); i++) want.push_back({'}', "", ""});
      if (bound) want.push_back({'s', "f", "v"});
      want.push_back({'}', "", ""});
    }
    int st = bad ? 3 : clash && reject && body[1].val != "v" ? 3 : 0;
    std::string what;
    size_t extra = !sizes ? 0 : chance(90) ? size_t(pick(300)) : chance(80) ? size_t(pick(70000)) : chance(98) ? size_t(pick(1 << 20)) : size_t((1 << 24) + pick(1 << 20));
    describe = [&] { return "body path " + quote(path) + (bound ? " bound" : "") + (reject ? " reject" : "") + (ci ? " case-insensitive" : "") + (delim ? " delimiters" : "") + " body " + show(body) + "\nwritten besides " + std::to_string(extra) + " bytes\nexpected events " + show(want) + "\n" + what; };
    RequestMessageTranslator t(resolver, delim, info);
    if (writers != 1) fail("not exactly one writer is made");
    auto& o = made->options_;
    auto d = Writer::Options::Defaults();
    if (made->type_ != &type) fail("the writer is made for another type");
    if (!o.ignore_unknown_fields) fail("unknown fields are not ignored");
    if (o.case_insensitive_enum_parsing != ci) fail("case_insensitive_enum_parsing is not passed on");
    if (o.struct_integers_as_strings != d.struct_integers_as_strings || o.ignore_unknown_enum_values != d.ignore_unknown_enum_values || o.use_lower_camel_for_enums != d.use_lower_camel_for_enums || o.ignore_null_value_map_entry != d.ignore_null_value_map_entry ||
        o.use_legacy_json_map_format != d.use_legacy_json_map_format || o.suppress_implicit_message_list_error != d.suppress_implicit_message_list_error || o.disable_implicit_message_list != d.disable_implicit_message_list ||
        o.suppress_implicit_scalar_list_error != d.suppress_implicit_scalar_list_error || o.disable_implicit_scalar_list != d.disable_implicit_scalar_list || o.suppress_object_to_scalar_error != d.suppress_object_to_scalar_error || o.use_json_name_in_missing_fields != d.use_json_name_in_missing_fields)
      fail("another option differs from the default");
    if (made->use_strict_base64_decoding()) fail("strict base64 is required");
    std::string m = "left", text;
    size_t before = 0;
    for (size_t i = 0; i < body.size(); i++) {
      if (!made->done() && t.NextMessage(&m)) fail("a message is returned before it is complete");
      if (t.Finished()) fail("finished too early");
      if (i + 1 == body.size() && extra) { text = std::string(extra, 'x'); before = static_cast<WriterState*>(made->extra_)->log.size(); made->sink_->Append(text.data(), text.size()); }
      send(&t.Input(), body[i]);
      if (made->done() && i + 1 < body.size()) fail("the writer is done before the body ends");
    }
    auto got = static_cast<WriterState*>(made->extra_)->log;
    what = "actual events " + show(got);
    if (!(got == want)) fail("the events that reach the writer differ");
    if (int(t.Status().code()) != st) fail("status " + t.Status().ToString());
    if (st == 0 && chance(20)) {   // what the writer reports
      Here here;
      const char* x = chance(50) ? "" : "x";
      int k = pick(3);
      what += "\nreported " + std::to_string(k) + " " + quote(x);
      if (k == 0) made->listener_->InvalidName(here, x, chance(50) ? "" : "m");
      if (k == 1) made->listener_->InvalidValue(here, chance(50) ? "" : "T", x);
      if (k == 2) made->listener_->MissingField(here, x);
      if (!absl::IsInvalidArgument(t.Status())) fail("a reported error is not the status");
    }
    std::string payload;
    payload = encode(std::vector<Ev>(want.begin(), want.begin() + long(before))) + text + encode(std::vector<Ev>(want.begin() + long(before), want.end()));
    if (!t.NextMessage(&m)) fail("no message");
    if (m != (delim ? be(payload.size()) : "") + payload) { what += "\nreturned " + std::to_string(m.size()) + " bytes " + quote(m.substr(0, 40)) + " expected " + quote(((delim ? be(payload.size()) : "") + payload).substr(0, 40)); fail("the message differs"); }
    if (!t.Finished()) fail("not finished after the message");
    std::string n = "left";
    if (t.NextMessage(&n) || n != "left") fail("a second message");
    if (delim) {
      In in;
      in.data = m;
      MessageReader r(&in);
      auto p = r.NextMessageAndGrpcFrame();
      if (!p.message || p.message_size != payload.size()) fail("the prefix does not read back as the size");
    }
    count++;
    if (bound || prefixed) interesting++;
  }
  return finish();
}
