// C15, C16, C18 (reading side): MessageReader over a chunked input stream against a direct parse of the bytes.
#include <memory>
#include "common.h"
#include "in_stream.h"
#include "google/protobuf/io/zero_copy_stream.h"
#include "grpc_transcoding/message_reader.h"
using namespace google::grpc::transcoding;
namespace pbio = google::protobuf::io;
static std::string prop;
static bool is(const char* p) { return prop == p; }
using vp::In;
static std::string g_desc, g_hist;
static std::string frame(const std::string& s, uint32_t n, char flag = 0) {
  std::string o(1, flag);
  for (int i = 3; i >= 0; i--) o += char(n >> (8 * i));
  return o + s;
}
static std::string read_all(pbio::ZeroCopyInputStream* m) {
  std::string o;
  const void* d;
  int n;
  while (m->Next(&d, &n)) {
    if (n > 1 && vp::chance(20)) { int k = 1 + vp::pick(n - 1); m->BackUp(k); n -= k; }
    o.append(static_cast<const char*>(d), size_t(n));
    if (vp::chance(3) && o.size() > 1u << 22) vp::fail("the message does not end");
  }
  return o;
}
static void one() {
  // the whole input
  std::string all;
  int n = vp::pick(5);
  std::string what;
  for (int i = 0; i < n; i++) {
    size_t k = vp::chance(20) ? 0 : vp::chance(80) ? size_t(vp::pick(20)) : vp::chance(80) ? size_t(vp::pick(700)) : size_t(vp::pick(140000));
    std::string s;
    for (size_t j = 0; j < k; j++) s += char(vp::chance(50) ? vp::pick(3) : vp::pick(256));
    all += frame(s, uint32_t(k));
    what += " message(" + std::to_string(k) + ")";
  }
  switch (vp::pick(6)) {
    case 0: { static const char f[] = {1, 2, char(0x80), char(0xff)}; all += frame("ab", 2, f[vp::pick(4)]) + frame("c", 1); what += " badflag"; break; }
    case 1: { int k = 1 + vp::pick(4); all += std::string("\0\0\0\0", size_t(k)); what += " header-part(" + std::to_string(k) + ")"; break; }
    case 2: { static const uint32_t z[] = {1, 5, 200, 70000, 1u << 24, 0x7fffffff, 0x80000000u, 0xffffffffu}; uint32_t k = z[vp::pick(8)]; int m = vp::pick(int(std::min<uint32_t>(k, 20))); all += frame(std::string(size_t(m), 'x'), k); what += " truncated(" + std::to_string(m) + " of " + std::to_string(k) + ")"; break; }
    default: break;
  }
  In in;
  in.zero = vp::chance(25);
  MessageReader r(&in);
  size_t sent = 0, end = 0;    // end: end of the last message returned
  bool over = false;
  std::string err;
  g_desc = "input:" + what + "\n";
  g_hist = "";
  int steps = 0;
  bool big = vp::chance(30);
  while (steps++ < 4000) {
    int k = vp::pick(10);
    if (sent < all.size() && k < (over ? 5 : 4)) {
      size_t m = big ? all.size() - sent : std::min(all.size() - sent, size_t(1 + vp::pick(vp::chance(70) ? 6 : 4000)));
      if (all.size() - sent > 2000 && !big && vp::chance(60)) m = std::min(all.size() - sent, size_t(60000));
      in.data = all.substr(0, sent += m);
      in.cuts.push_back(sent);
      if (vp::chance(30)) { std::vector<size_t> c; for (size_t x : in.cuts) if (x != sent) c.push_back(x); size_t h = sent - m + size_t(vp::pick(int(std::min<size_t>(m, 100)))); if (h > (c.empty() ? 0 : c.back())) c.push_back(h); c.push_back(sent); in.cuts = c; }
      g_hist += " arrive(" + std::to_string(m) + ")";
      continue;
    }
    if (sent == all.size() && !in.fin && k < 2) { in.fin = true; g_hist += " end"; continue; }
    // call
    bool fr = vp::chance(50);
    g_hist += fr ? " NextMessageAndGrpcFrame" : " NextMessage";
    if (g_hist.size() > 3000) g_hist = "..." + g_hist.substr(g_hist.size() - 2000);
    std::unique_ptr<pbio::ZeroCopyInputStream> m;
    MessageAndGrpcFrame f;
    if (fr) { f = r.NextMessageAndGrpcFrame(); m = std::move(f.message); } else m = r.NextMessage();
    vp::count++;
    if (in.bad) vp::fail("the input was backed up by more than was read");
    // expected
    size_t have = in.data.size() - end;
    bool was_over = over, want = false, bad = false, done = false;
    uint32_t size = 0;
    size_t want_pos = end;
    if (!over) {
      if (have < 5) { if (in.fin) { done = have == 0; bad = have != 0; } }
      else {
        const unsigned char* h = reinterpret_cast<const unsigned char*>(in.data.data()) + end;
        size = uint32_t(h[1]) << 24 | uint32_t(h[2]) << 16 | uint32_t(h[3]) << 8 | h[4];
        want_pos = end + 5;
        if (h[0] != 0) bad = true;
        else if (have - 5 < size) bad = in.fin;
        else want = true;
      }
    } else want_pos = in.pos;
    static size_t over_pos = 0;
    if (was_over && in.pos != over_pos) vp::fail("a finished or failed reader read from its input");
    if ((m != nullptr) != want) vp::fail(want ? "a complete message is available but none was returned" : "a message was returned although none is complete");
    if (is("C16")) {
      bool expect_bad = was_over ? !err.empty() : bad;
      if (r.Status().ok() == expect_bad) vp::fail("status " + r.Status().ToString() + (expect_bad ? ", expected an error" : ", expected OK"));
      if (expect_bad && r.Status().code() != absl::StatusCode::kInternal) vp::fail("status " + r.Status().ToString() + ", expected an internal error");
      if (was_over && r.Status().ToString() != err && !err.empty()) vp::fail("the reported error changed");
      if (r.Finished() != (was_over || bad || done)) vp::fail(std::string("Finished() is ") + (r.Finished() ? "true" : "false"));
    }
    if (!was_over && in.pos != want_pos) vp::fail("the input was read up to byte " + std::to_string(in.pos) + ", expected " + std::to_string(want_pos));
    if (bad || done) { over = true; err = bad ? r.Status().ToString() : ""; }
    if (m) {
      vp::interesting++;
      if (fr) {
        if (memcmp(f.grpc_frame, in.data.data() + end, 5) != 0) vp::fail("the frame header returned is not that of the message");
        if (f.message_size != size) vp::fail("message size " + std::to_string(f.message_size) + ", expected " + std::to_string(size));
      }
      std::string got = read_all(m.get()), exp = in.data.substr(end + 5, size);
      m.reset();
      if (got != exp) vp::fail("message of " + std::to_string(got.size()) + " bytes differs from the payload of " + std::to_string(exp.size()) + " bytes");
      end += 5 + size;
      if (in.pos != end) vp::fail("after the message the input is at byte " + std::to_string(in.pos) + ", expected " + std::to_string(end));
    }
    over_pos = in.pos;
    if (over && sent == all.size() && vp::chance(30)) return;
  }
}
// messages of up to 2^32-1 bytes, counted without materialising them
class Huge : public TranscoderInputStream {
 public:
  std::string head;
  int64_t total = 0, pos = 0, last = 0;
  bool Next(const void** d, int* n) override {
    if (pos >= total) { *n = 0; return false; }
    if (pos < int64_t(head.size())) { *d = head.data() + pos; *n = int(int64_t(head.size()) - pos); }
    else { *d = head.data(); *n = int(std::min<int64_t>(total - pos, 0x7fffffff)); }
    last = *n;
    pos += *n;
    return true;
  }
  void BackUp(int n) override { pos -= n; }
  bool Skip(int n) override { pos += n; return pos <= total; }
  int64_t ByteCount() const override { return pos; }
  int64_t BytesAvailable() const override { return total - pos; }
  bool Finished() const override { return true; }
};
static void huge() {
  uint32_t n = uint32_t(vp::rnd()) >> vp::pick(32);
  static const uint32_t z[] = {0, 1, 255, 256, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x01020304, 0x80808080u};
  if (vp::chance(20)) n = z[vp::pick(13)];
  Huge in;
  in.head = frame("", n);
  int64_t more = vp::chance(50) ? 0 : vp::chance(50) ? 7 : -1;
  if (n == 0 && more < 0) more = 0;
  in.total = 5 + int64_t(n) + more;
  g_desc = "a message of " + std::to_string(n) + " bytes, " + std::to_string(int64_t(n) + more) + " bytes behind its header";
  g_hist = "";
  MessageReader r(&in);
  auto m = r.NextMessageAndGrpcFrame();
  vp::count++;
  if (more < 0) {
    if (m.message) vp::fail("an incomplete message was returned");
    if (is("C16") && r.Status().ok()) vp::fail("a truncated message was not reported");
    return;
  }
  vp::interesting++;
  if (!m.message) vp::fail("the message was not returned: " + r.Status().ToString());
  if (m.message_size != n) vp::fail("message size " + std::to_string(m.message_size) + ", expected " + std::to_string(n));
  int64_t got = 0;
  const void* d;
  int k;
  while (m.message->Next(&d, &k)) got += k;
  m.message.reset();
  if (got != int64_t(n)) vp::fail("the message has " + std::to_string(got) + " bytes");
}
int main(int argc, char** argv) {
  prop = vp::init(argc, argv);
  vp::describe = [] { return g_desc + (g_hist.empty() ? "" : "history:" + g_hist); };
  while (vp::time_left()) {
    if (is("C18") || vp::chance(5)) huge(); else one();
  }
  return vp::finish();
}
