// Concrete stand-ins for the parts of protobuf's converter library that the stubs only declare.
#pragma once
#include <string>
#include <vector>
#include "google/protobuf/util/converter/object_writer.h"
namespace vp {
struct Ev {
  char k = 0;  // '{' '}' '[' ']' or the type of a value: b i u I U d f s B n
  std::string name, val;
  bool operator==(const Ev& o) const { return k == o.k && name == o.name && val == o.val; }
  bool opens() const { return k == '{' || k == '['; }
  bool closes() const { return k == '}' || k == ']'; }
};
template <class T>
std::string bits(T v) { return std::string(reinterpret_cast<const char*>(&v), sizeof v); }
template <class T>
T unbits(const std::string& s) { T v; memcpy(&v, s.data(), sizeof v); return v; }
inline std::string show(const std::vector<Ev>& es) {
  std::string o;
  for (auto& e : es) {
    o += e.k;
    if (!e.closes()) o += quote(e.name);
    if (!e.opens() && !e.closes()) {
      switch (e.k) {
        case 'b': o += unbits<bool>(e.val) ? "=true" : "=false"; break;
        case 'i': o += "=" + std::to_string(unbits<int32_t>(e.val)); break;
        case 'u': o += "=" + std::to_string(unbits<uint32_t>(e.val)); break;
        case 'I': o += "=" + std::to_string(unbits<int64_t>(e.val)); break;
        case 'U': o += "=" + std::to_string(unbits<uint64_t>(e.val)); break;
        case 'd': o += "=" + std::to_string(unbits<double>(e.val)); break;
        case 'f': o += "=" + std::to_string(unbits<float>(e.val)); break;
        case 'n': o += "=null"; break;
        default: o += "=" + quote(e.val);
      }
    }
    o += ' ';
  }
  return o;
}
using OW = google::protobuf::util::converter::ObjectWriter;
template <class Base>
struct Recording : Base {
  using Base::Base;
  std::vector<Ev> log;
  OW* add(char k, absl::string_view n, std::string v = "") { log.push_back(Ev{k, std::string(n), std::move(v)}); return this; }
  OW* StartObject(absl::string_view n) override { return add('{', n); }
  OW* EndObject() override { return add('}', ""); }
  OW* StartList(absl::string_view n) override { return add('[', n); }
  OW* EndList() override { return add(']', ""); }
  OW* RenderBool(absl::string_view n, bool v) override { return add('b', n, bits(v)); }
  OW* RenderInt32(absl::string_view n, int32_t v) override { return add('i', n, bits(v)); }
  OW* RenderUint32(absl::string_view n, uint32_t v) override { return add('u', n, bits(v)); }
  OW* RenderInt64(absl::string_view n, int64_t v) override { return add('I', n, bits(v)); }
  OW* RenderUint64(absl::string_view n, uint64_t v) override { return add('U', n, bits(v)); }
  OW* RenderDouble(absl::string_view n, double v) override { return add('d', n, bits(v)); }
  OW* RenderFloat(absl::string_view n, float v) override { return add('f', n, bits(v)); }
  OW* RenderString(absl::string_view n, absl::string_view v) override { return add('s', n, std::string(v)); }
  OW* RenderBytes(absl::string_view n, absl::string_view v) override { return add('B', n, std::string(v)); }
  OW* RenderNull(absl::string_view n) override { return add('n', n); }
};
using Recorder = Recording<OW>;
inline void send(OW* w, const Ev& e) {
  switch (e.k) {
    case '{': w->StartObject(e.name); break;
    case '}': w->EndObject(); break;
    case '[': w->StartList(e.name); break;
    case ']': w->EndList(); break;
    case 'b': w->RenderBool(e.name, unbits<bool>(e.val)); break;
    case 'i': w->RenderInt32(e.name, unbits<int32_t>(e.val)); break;
    case 'u': w->RenderUint32(e.name, unbits<uint32_t>(e.val)); break;
    case 'I': w->RenderInt64(e.name, unbits<int64_t>(e.val)); break;
    case 'U': w->RenderUint64(e.name, unbits<uint64_t>(e.val)); break;
    case 'd': w->RenderDouble(e.name, unbits<double>(e.val)); break;
    case 'f': w->RenderFloat(e.name, unbits<float>(e.val)); break;
    case 's': w->RenderString(e.name, e.val); break;
    case 'B': w->RenderBytes(e.name, e.val); break;
    default: w->RenderNull(e.name);
  }
}
inline std::string any_name() {
  static const char* const N[] = {"", "a", "b", "ab", "a.b", "x", "A", "name with space", "%41", "0"};
  return N[pick(10)];
}
inline Ev any_scalar(const std::string& n) {
  static const int64_t E[] = {0, 1, -1, 7, 2147483647, -2147483648LL, 4294967295LL, 4294967296LL, -4294967296LL, INT64_MAX, INT64_MIN, 255, 65536};
  int64_t v = chance(80) ? E[pick(13)] : int64_t(rnd());
  static const char* const S[] = {"", "x", "true", "1", "-1", "1.5", "4294967297", "abc", "\xff\x00z"};
  switch (pick(10)) {
    case 0: return {'b', n, bits(bool(v & 1))};
    case 1: return {'i', n, bits(int32_t(v))};
    case 2: return {'u', n, bits(uint32_t(v))};
    case 3: return {'I', n, bits(int64_t(v))};
    case 4: return {'U', n, bits(uint64_t(v))};
    case 5: return {'d', n, bits(double(v) / 3)};
    case 6: return {'f', n, bits(float(v) / 3)};
    case 7: return {'s', n, S[pick(9)]};
    case 8: return {'B', n, std::string(S[pick(9)])};
    default: return {'n', n, ""};
  }
}
// appends one value (scalar, object or list)
template <class N>
void any_value(std::vector<Ev>* o, const std::string& name, int depth, N&& namer) {
  int c = depth <= 0 ? 9 : pick(10);
  if (c < 3) {
    o->push_back({'{', name, ""});
    for (int i = pick(4); i > 0; i--) any_value(o, namer(), depth - 1, namer);
    o->push_back({'}', "", ""});
  } else if (c < 5) {
    o->push_back({'[', name, ""});
    for (int i = pick(4); i > 0; i--) any_value(o, "", depth - 1, namer);
    o->push_back({']', "", ""});
  } else {
    o->push_back(any_scalar(name));
  }
}
}  // namespace vp
