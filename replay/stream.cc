// C17: the byte stream over a message stream against the concatenation of the messages.
#include <deque>
#include <memory>
#include "common.h"
#include "grpc_transcoding/message_stream.h"
using namespace google::grpc::transcoding;
class Src : public MessageStream {
 public:
  std::deque<std::string> q;
  bool fin = false;
  bool NextMessage(std::string* m) override {
    if (q.empty()) return false;
    *m = std::move(q.front());
    q.pop_front();
    return true;
  }
  bool Finished() const override { return fin && q.empty(); }
  absl::Status Status() const override { return absl::OkStatus(); }
};
static std::string g_hist;
int main(int argc, char** argv) {
  vp::init(argc, argv);
  vp::describe = [] { return "history:" + g_hist; };
  while (vp::time_left()) {
    Src src;
    auto in = src.CreateInputStream();
    std::vector<std::string> ms;   // messages not consumed yet (the first one from offset off)
    size_t off = 0, last = 0;      // last: bytes that may be backed up
    g_hist = "";
    bool fin = false;
    size_t next_len = 0;
    auto front = [&]() -> size_t {  // size of the next chunk; drops what is used up
      while (!ms.empty() && off == ms[0].size()) { ms.erase(ms.begin()); off = 0; }
      return ms.empty() ? 0 : ms[0].size() - off;
    };
    std::string cur;               // the message last delivered, for back-ups
    size_t delivered = 0;
    int steps = 5 + vp::pick(40);
    while (steps--) {
      vp::count++;
      switch (vp::pick(8)) {
        case 0: case 1: case 2: {
          if (fin) break;
          if (vp::chance(15)) { fin = src.fin = true; g_hist += " end"; break; }
          std::string s;
          size_t k = vp::chance(30) ? 0 : size_t(1 + vp::pick(vp::chance(90) ? 6 : 3000));
          for (size_t i = 0; i < k; i++) s += char('a' + vp::pick(26));
          src.q.push_back(s);
          ms.push_back(s);
          g_hist += " message(" + vp::quote(s.size() > 10 ? s.substr(0, 10) + "..." : s) + ")";
          break;
        }
        case 3: {
          // the count first: it must not change what is read
          if (last) break;
          int64_t a = in->BytesAvailable();
          g_hist += " BytesAvailable()";
          if (a != int64_t(front())) vp::fail("BytesAvailable() is " + std::to_string(a) + ", expected " + std::to_string(front()));
          last = 0;
          break;
        }
        case 4: {
          g_hist += " Finished()";
          if (in->Finished() != src.Finished()) vp::fail("Finished() differs from the source");
          break;
        }
        case 5: {
          if (vp::chance(40)) {     // invalid back-ups change nothing
            int k = !last && !ms.empty() && off < ms[0].size() && vp::chance(60) ? int(off) + 1 + vp::pick(int(ms[0].size() - off) + 2) : vp::chance(50) ? -1 - vp::pick(3) : vp::chance(30) ? 0 : 0x7ffffff0 + vp::pick(15);
            g_hist += " BackUp(" + std::to_string(k) + ")";
            in->BackUp(k);
            break;
          }
          if (!last) break;
          size_t k = 1 + size_t(vp::pick(int(last)));
          g_hist += " BackUp(" + std::to_string(k) + ")";
          in->BackUp(int(k));
          off -= k;
          last = 0;
          break;
        }
        default: {
          const void* d = nullptr;
          int n = -7;
          size_t want = last ? (off < ms[0].size() ? ms[0].size() - off : 0) : 0;
          want = front();
          bool r = in->Next(&d, &n);
          g_hist += " Next()";
          if (n != int(want)) vp::fail("Next() delivers " + std::to_string(n) + " bytes, expected " + std::to_string(want));
          if (want == 0) { last = 0; if (r == fin) vp::fail(std::string("Next() returns ") + (r ? "true" : "false") + " without data"); break; }
          vp::interesting++;
          if (!r) vp::fail("Next() returns false with data left");
          if (std::string(static_cast<const char*>(d), size_t(n)) != ms[0].substr(off, want)) vp::fail("Next() delivers other bytes");
          off += want;
          last = want;
          break;
        }
      }
    }
  }
  return vp::finish();
}
