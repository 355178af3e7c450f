#pragma once
#include <memory>
#include <string>
#include <vector>
#include "common.h"
#include "grpc_transcoding/transcoder_input_stream.h"
namespace vp {
// bytes arrive in pieces; a read never crosses a piece boundary
class In : public google::grpc::transcoding::TranscoderInputStream {
 public:
  std::string data;
  std::vector<size_t> cuts;
  size_t pos = 0, last = 0;
  bool fin = false, zero = false, bad = false;
  bool Next(const void** d, int* n) override {
    last = 0;
    if (pos == data.size()) { *n = 0; *d = data.data(); return !fin; }
    size_t e = data.size();
    for (size_t c : cuts) if (c > pos) { e = c; break; }
    if (e > data.size()) e = data.size();
    if (zero && chance(20)) e = pos;
    // hand out exactly the chunk in its own buffer so that reading past it is seen
    buf.reset(new char[e - pos + 1]);
    std::unique_ptr<char[]> exact(new char[e - pos]);
    memcpy(exact.get(), data.data() + pos, e - pos);
    buf = std::move(exact);
    *d = buf.get();
    *n = int(e - pos);
    last = e - pos;
    pos = e;
    return true;
  }
  void BackUp(int n) override { if (n < 0 || size_t(n) > last) { bad = true; return; } pos -= size_t(n); last = 0; }
  bool Skip(int n) override {
    while (n > 0) {
      if (pos == data.size()) return false;
      size_t k = std::min(size_t(n), data.size() - pos);
      pos += k;
      n -= int(k);
    }
    return true;
  }
  int64_t ByteCount() const override { return int64_t(pos); }
  int64_t BytesAvailable() const override { return int64_t(data.size() - pos); }
  bool Finished() const override { return fin; }
 private:
  std::unique_ptr<char[]> buf;
};
}  // namespace vp
