// Scripted byte stream with gRPC frames, shared by C12-C14 and C16.
#ifndef FRAMING_H_
#define FRAMING_H_

#include <sys/mman.h>

#include <limits>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "google/protobuf/io/zero_copy_stream_impl.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/transcoder_input_stream.h"
#include "pbt.h"

namespace framing {

namespace gt = google::grpc::transcoding;
using pbt::Case;
using std::string;
using std::vector;

// 2 GiB of readable zero bytes without memory behind them.
inline const char* Zeros() {
  static const char* p = [] {
    void* m = mmap(nullptr, 1ull << 31, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return m == MAP_FAILED ? nullptr : static_cast<const char*>(m);
  }();
  return p;
}

// The complete byte sequence: literal pieces and virtual runs of zeros.
class Content {
 public:
  struct Piece {
    int64_t begin, end;
    bool zeros;
    std::unique_ptr<char[]> data;  // see pbt::Bytes
  };
  void Append(const string& s) {
    if (s.empty()) return;
    Piece p;
    p.begin = size_;
    p.end = size_ + static_cast<int64_t>(s.size());
    p.zeros = false;
    p.data.reset(pbt::Bytes(s.size()));
    memcpy(p.data.get(), s.data(), s.size());
    size_ = p.end;
    pieces_.push_back(std::move(p));
  }
  void AppendZeros(int64_t n) {
    if (n == 0) return;
    Piece p;
    p.begin = size_;
    p.end = size_ + n;
    p.zeros = true;
    size_ = p.end;
    pieces_.push_back(std::move(p));
  }
  int64_t size() const { return size_; }
  const Piece& At(int64_t pos) const {
    for (const Piece& p : pieces_)
      if (pos < p.end) return p;
    return pieces_.back();
  }
  // Merges neighbouring literal pieces, so that one buffer can span frames.
  void Merge() {
    vector<Piece> out;
    for (Piece& p : pieces_) {
      if (!out.empty() && !p.zeros && !out.back().zeros && out.back().end - out.back().begin + (p.end - p.begin) < (1 << 20)) {
        Piece& q = out.back();
        int64_t a = q.end - q.begin, b = p.end - p.begin;
        std::unique_ptr<char[]> d(pbt::Bytes(a + b));
        memcpy(d.get(), q.data.get(), a);
        memcpy(d.get() + a, p.data.get(), b);
        q.data = std::move(d);
        q.end = p.end;
      } else {
        out.push_back(std::move(p));
      }
    }
    pieces_ = std::move(out);
  }

 private:
  vector<Piece> pieces_;
  int64_t size_ = 0;
};

// Delivers Content as buffers cut at `cuts` and, in literal areas, every
// `every` bytes; only what has "arrived" is visible. Checks how it is used.
class ScriptedStream : public gt::TranscoderInputStream {
 public:
  explicit ScriptedStream(const Content* content) : content_(content) {}

  bool Next(const void** data, int* size) override {
    calls_++;
    can_back_up_ = 0;
    Late();
    if (pos_ >= arrived_) {
      last_was_next_ = !finished_;
      *size = 0;
      *data = nullptr;
      return !finished_;
    }
    last_was_next_ = true;
    if (zero_every_ && ++zero_count_ % zero_every_ == 0) {
      *data = "";
      *size = 0;
      return true;
    }
    const Content::Piece& p = content_->At(pos_);
    int64_t end = std::min(p.end, arrived_);
    auto it = cuts_.upper_bound(pos_);
    if (it != cuts_.end()) end = std::min(end, *it);
    if (every_ && !p.zeros) end = std::min(end, pos_ + every_);
    end = std::min<int64_t>(end, pos_ + std::numeric_limits<int>::max());
    const int n = static_cast<int>(end - pos_);
    if (p.zeros) {
      *data = Zeros();
    } else {
      // Hand out an exact-size copy: reading beyond a buffer must be visible.
      if (copy_) {
        buffer_.reset(pbt::Bytes(n));
        memcpy(buffer_.get(), p.data.get() + (pos_ - p.begin), n);
        *data = buffer_.get();
      } else {
        *data = p.data.get() + (pos_ - p.begin);
      }
    }
    *size = n;
    pos_ = end;
    can_back_up_ = n;
    return true;
  }
  void BackUp(int count) override {
    calls_++;
    if (!last_was_next_) Misuse(pbt::Format("BackUp(%d) not directly after Next", count));
    if (count < 0 || count > can_back_up_) {
      Misuse(pbt::Format("BackUp(%d) after a buffer of %lld bytes", count, (long long)can_back_up_));
    } else {
      pos_ -= count;
    }
    last_was_next_ = false;
    can_back_up_ = 0;
  }
  bool Skip(int count) override {
    calls_++;
    last_was_next_ = false;
    if (count < 0) {
      Misuse(pbt::Format("Skip(%d)", count));
      return false;
    }
    if (count > arrived_ - pos_) {
      pos_ = arrived_;
      return false;
    }
    pos_ += count;
    return true;
  }
  int64_t ByteCount() const override { return pos_; }
  int64_t BytesAvailable() const override {
    Late();
    return arrived_ - pos_;
  }
  bool Finished() const override { return finished_; }

  // Bytes that arrive between two calls of one poll.
  void Late() const {
    if (late_to_ > arrived_ && late_after_-- <= 0) arrived_ = late_to_;
  }
  void Misuse(const string& m) {
    if (misuse_.empty()) misuse_ = m;
  }

  const Content* content_;
  int64_t pos_ = 0;
  mutable int64_t arrived_ = 0;
  int64_t late_to_ = 0;            // arrives after late_after_ more calls
  mutable int late_after_ = 0;
  bool finished_ = false;
  std::set<int64_t> cuts_;
  int64_t every_ = 0;
  int zero_every_ = 0, zero_count_ = 0;
  bool copy_ = true;
  std::unique_ptr<char[]> buffer_;
  bool last_was_next_ = false;
  int64_t can_back_up_ = 0;
  uint64_t calls_ = 0;
  string misuse_;
};

struct Frame {
  int64_t start = 0;  // of the header
  unsigned char header[5] = {0, 0, 0, 0, 0};
  uint32_t size = 0;
  bool huge = false;
  string body;  // unless huge
  int64_t end() const { return start + 5 + static_cast<int64_t>(size); }
};

struct Script {
  Content content;
  vector<Frame> frames;  // as the header bytes say, possibly cut off at the end
  int64_t total = 0;     // bytes that ever arrive
  int fault = 0;         // 0 none, 1 bad flag, 2 truncated
  int fault_frame = -1;
  bool has_huge = false;
};

inline string Pattern(uint64_t seed, size_t n) {
  string s(n, 0);
  uint64_t x = 0;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) x = pbt::Mix(seed + i);
    s[i] = static_cast<char>(x >> (8 * (i % 8)));
  }
  return s;
}

inline uint32_t GenSize(Case& c) {
  switch (c.weighted({12, 4, 2, 1})) {
    case 0: return static_cast<uint32_t>(c.below(20));
    case 1: {
      static const uint32_t b[] = {0, 1, 4, 5, 6, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 32767, 32768, 65535, 65536, 65537};
      return b[c.below(sizeof(b) / sizeof(b[0]))];
    }
    case 2: {
      static const uint32_t b[] = {0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu, 0xff000000u, 0x00ff0000, 0x0000ff00, 0x01020304, 0x80808080u, 0x00800000, 0x00008000, 0x7ffffffau, 0x7ffffffbu};
      return b[c.below(sizeof(b) / sizeof(b[0]))];
    }
    default: {
      unsigned bits = static_cast<unsigned>(1 + c.below(32));
      return static_cast<uint32_t>(c.raw((1ull << bits) - 1));
    }
  }
}

// `fault`: 0 none, 1 non-zero flag, 2 truncation.
inline void GenScript(Case& c, int fault, Script* s) {
  size_t n = c.size(12);
  if (fault && n == 0) n = 1;
  s->fault = fault;
  if (fault) s->fault_frame = static_cast<int>(fault == 2 ? n - 1 : c.below(n));
  for (size_t i = 0; i < n; i++) {
    Frame f;
    f.start = s->content.size();
    f.size = GenSize(c);
    f.huge = f.size > 100000;
    for (int k = 0; k < 4; k++) f.header[1 + k] = static_cast<unsigned char>(f.size >> (8 * (3 - k)));
    if (fault == 1 && static_cast<int>(i) == s->fault_frame) f.header[0] = static_cast<unsigned char>(1 + c.below(255));
    s->content.Append(string(reinterpret_cast<char*>(f.header), 5));
    if (f.huge) {
      s->content.AppendZeros(f.size);
      s->has_huge = true;
    } else {
      // Bodies that look like frames are the interesting ones.
      if (c.chance(1, 4)) {
        f.body = string(f.size, static_cast<char>(c.below(4)));
      } else {
        f.body = Pattern(c.below(1000), f.size);
      }
      s->content.Append(f.body);
    }
    s->frames.push_back(f);
  }
  s->total = s->content.size();
  if (fault == 2) {
    const Frame& f = s->frames.back();
    int64_t lo = f.start + 1, hi = f.end() - 1;
    switch (c.below(4)) {
      case 0: s->total = lo + static_cast<int64_t>(c.below(4)); break;              // inside the header
      case 1: s->total = f.start + 5; break;                                       // header only
      case 2: s->total = hi; break;                                                // one byte missing
      default: s->total = lo + static_cast<int64_t>(c.raw(static_cast<uint64_t>(hi - lo))); break;
    }
    if (s->total > hi) s->total = hi;
    if (s->total < lo) s->total = lo;
  }
  if (c.coin()) s->content.Merge();
}

// How buffers are cut.
inline void GenCuts(Case& c, const Script& s, ScriptedStream* in) {
  switch (c.weighted({2, 3, 3, 2})) {
    case 0: break;  // as large as possible
    case 1: in->every_ = static_cast<int64_t>(1 + c.below(7)); break;
    case 2: {
      for (const Frame& f : s.frames) {
        if (c.coin()) in->cuts_.insert(f.start + static_cast<int64_t>(c.below(7)));
        if (c.coin()) in->cuts_.insert(f.end() - static_cast<int64_t>(c.below(3)));
        if (c.coin()) in->cuts_.insert(f.start);
      }
      break;
    }
    default: {
      size_t k = c.below(12);
      for (size_t i = 0; i < k; i++) in->cuts_.insert(static_cast<int64_t>(c.raw(static_cast<uint64_t>(std::max<int64_t>(s.total, 1)))));
      break;
    }
  }
  if (c.chance(1, 5)) in->zero_every_ = static_cast<int>(2 + c.below(3));
  in->copy_ = c.chance(3, 4);
}

// A next arrival point > now.
inline int64_t GenArrival(Case& c, const Script& s, int64_t now) {
  if (now >= s.total) return now;
  int64_t next = now;
  switch (c.weighted({3, 3, 2, 2})) {
    case 0: next = now + 1 + static_cast<int64_t>(c.below(8)); break;
    case 1: {  // near the next frame boundary
      for (const Frame& f : s.frames) {
        if (f.end() > now) {
          next = f.end() + static_cast<int64_t>(c.below(10)) - 2;
          if (f.start + 5 > now && c.coin()) next = f.start + static_cast<int64_t>(c.below(7));
          break;
        }
      }
      break;
    }
    case 2: next = now + 1 + static_cast<int64_t>(c.raw(static_cast<uint64_t>(s.total - now))); break;
    default: next = s.total; break;
  }
  if (next <= now) next = now + 1;
  return std::min(next, s.total);
}

}  // namespace framing

#endif  // FRAMING_H_
