// C15: the stream view of a MessageStream, model-based over call histories.
#include <deque>

#include "grpc_transcoding/message_stream.h"
#include "pbt.h"

namespace gt = google::grpc::transcoding;
using pbt::Case;
using std::string;

namespace {

class Source : public gt::MessageStream {
 public:
  bool NextMessage(string* m) override {
    asked_++;
    if (queue_.empty()) return false;
    *m = std::move(queue_.front());
    queue_.pop_front();
    return true;
  }
  bool Finished() const override { return ended_ && queue_.empty(); }
  absl::Status Status() const override { return absl::OkStatus(); }
  std::deque<string> queue_;
  bool ended_ = false;
  int asked_ = 0;
};

// Expected behaviour, from the description of the interface alone: the stream
// is the concatenation of the messages, one non-empty message at a time.
struct Model {
  string cur;
  size_t pos = 0;
  std::deque<string> queue;
  bool ended = false;
  void Refill() {
    while (pos >= cur.size() && !queue.empty()) {
      cur = queue.front();
      queue.pop_front();
      pos = 0;
    }
  }
  bool finished() const { return ended && queue.empty(); }
};

}  // namespace

PBT(C15, history, 500000, 20000000) {
  Source src;
  Model mod;
  auto in = src.CreateInputStream();
  string all;    // everything that arrived
  string read;   // consumed so far (BackUp removes from it)
  size_t steps = 4 + c.size(60);
  bool last_next = false;
  int last_size = 0;
  int illegal = 0, backups = 0, empties = 0, messages = 0, peeks = 0;
  uint64_t h = 1;
  unsigned counter = 0;
  for (size_t i = 0; i < steps; i++) {
    size_t op = c.weighted({6, 5, 3, 4, 2, 1});
    if (op == 2 && !(last_next && last_size > 0)) op = 0;
    h = pbt::Mix(h ^ op);
    switch (op) {
      case 0: {  // Next
        mod.Refill();
        size_t want = mod.cur.size() - std::min(mod.pos, mod.cur.size());
        const void* data = nullptr;
        int size = -1;
        bool ok = in->Next(&data, &size);
        c.note("Next -> %d, %d bytes", ok, size);
        if (want > 0) {
          if (!ok) c.fail(pbt::Format("Next returned false although %zu bytes are to be read", want));
          if (size <= 0) c.fail(pbt::Format("Next returned %d bytes although %zu bytes are available", size, want));
          string got(static_cast<const char*>(data), static_cast<size_t>(size));
          if (got != mod.cur.substr(mod.pos)) c.fail(pbt::Format("Next returned %s, expected %s", pbt::Show(got).c_str(), pbt::Show(mod.cur.substr(mod.pos)).c_str()));
          read += got;
          mod.pos = mod.cur.size();
          last_next = true;
          last_size = size;
        } else {
          if (size != 0) c.fail(pbt::Format("Next returned %d bytes although nothing is available", size));
          if (ok != !mod.finished()) c.fail(pbt::Format("Next returned %d without data, the source has %s", ok, mod.finished() ? "finished" : "not finished"));
          last_next = true;
          last_size = 0;
        }
        break;
      }
      case 1: {  // a message arrives
        string m;
        if (!mod.ended) {
          size_t n = c.chance(1, 4) ? 0 : 1 + c.size(c.chance(1, 50) ? 5000 : 40);
          if (c.chance(1, 6000)) n = (1u << 20) + c.below(3u << 20);
          m.reserve(n);
          for (size_t k = 0; k < n; k++) m += static_cast<char>('!' + (counter++ % 90));
          src.queue_.push_back(m);
          mod.queue.push_back(m);
          all += m;
          messages++;
          if (n == 0) empties++;
          c.note("message of %zu bytes arrives", n);
        }
        break;  // does not disturb a following BackUp
      }
      case 2: {  // BackUp, directly after Next
        if (c.chance(1, 12)) {
          // More than the message ever had, or less than nothing: ignored.
          int bad = c.chance(1, 2) ? static_cast<int>(mod.cur.size() + 1 + c.below(1000)) : -static_cast<int>(c.below(1000));
          if (c.chance(1, 8)) bad = bad > 0 ? 0x7fffffff : -0x7fffffff - 1;
          c.note("BackUp(%d), not allowed", bad);
          in->BackUp(bad);
          illegal++;
          last_next = false;
          break;
        }
        int n = static_cast<int>(1 + c.below(static_cast<uint64_t>(last_size)));
        c.note("BackUp(%d)", n);
        in->BackUp(n);
        mod.pos -= static_cast<size_t>(n);
        read.resize(read.size() - static_cast<size_t>(n));
        backups++;
        last_next = false;
        break;
      }
      case 3: {  // BytesAvailable
        mod.Refill();
        int64_t want = static_cast<int64_t>(mod.cur.size() - std::min(mod.pos, mod.cur.size()));
        int64_t got = in->BytesAvailable();
        c.note("BytesAvailable -> %lld", (long long)got);
        if (got != want) c.fail(pbt::Format("BytesAvailable() is %lld, the next Next would return %lld bytes", (long long)got, (long long)want));
        last_next = false;
        peeks++;
        break;
      }
      case 4: {
        bool f = in->Finished();
        c.note("Finished -> %d", f);
        if (f != mod.finished()) c.fail(pbt::Format("Finished() is %d, the source has %s", f, mod.finished() ? "finished" : "not finished"));
        break;
      }
      default:
        src.ended_ = mod.ended = true;
        c.note("the source ends");
        break;
    }
  }
  // Drain.
  src.ended_ = mod.ended = true;
  for (int guard = 0;; guard++) {
    if (guard > messages + 10) c.fail("the stream does not end");
    const void* data = nullptr;
    int size = 0;
    if (!in->Next(&data, &size)) break;
    read.append(static_cast<const char*>(data), static_cast<size_t>(size));
  }
  if (read != all) c.fail(pbt::Format("read %s in total, the messages were %s", pbt::Show(read).c_str(), pbt::Show(all).c_str()));
  if (!in->Finished()) c.fail("not finished at the end");
  if (in->BytesAvailable() != 0) c.fail("bytes available at the end");
  c.evaluations(steps);
  if (backups) c.label("history:backup");
  if (illegal) c.label("history:backup-not-allowed");
  if (empties) c.label("history:empty-messages");
  if (backups && peeks) c.label("history:backup-and-bytes-available");
  h = pbt::HashStr(all, h);
  if (messages > 1) c.nontrivial(h);
}

// Every history of up to 7 (thorough: 8) operations out of 7.
PBT_ENUM(C15, small_scope, 2401, 2401) {
  const int extra = c.thorough ? 5 : 3;
  uint64_t i = c.raw(2400);
  int ops[16];
  for (int k = 0; k < 4; k++) {
    ops[k] = static_cast<int>(i % 7);
    i /= 7;
  }
  uint64_t total = 1;
  for (int k = 0; k < extra; k++) total *= 7;
  uint64_t nt = 0;
  for (uint64_t x = 0; x < total; x++) {
    uint64_t y = x;
    for (int k = 0; k < extra; k++) {
      ops[4 + k] = static_cast<int>(y % 7);
      y /= 7;
    }
    Source src;
    Model mod;
    auto in = src.CreateInputStream();
    int last = 0;
    bool backed = false;
    string trace;
    unsigned counter = 0;
    for (int k = 0; k < 4 + extra; k++) {
      switch (ops[k]) {
        case 0:
        case 1: {
          if (mod.ended) break;
          string m;
          for (int b = 0; b < ops[k] * 2; b++) m += static_cast<char>('a' + counter++ % 26);
          src.queue_.push_back(m);
          mod.queue.push_back(m);
          trace += pbt::Format("arrive(%zu) ", m.size());
          break;
        }
        case 2: {
          mod.Refill();
          string want = mod.cur.substr(std::min(mod.pos, mod.cur.size()));
          const void* d = nullptr;
          int n = -1;
          bool ok = in->Next(&d, &n);
          trace += "Next ";
          if (n != static_cast<int>(want.size()) || (n > 0 && string(static_cast<const char*>(d), n) != want) || ok != (n > 0 || !mod.finished())) c.fail(trace + pbt::Format("-> %d, %d bytes; expected %zu bytes", ok, n, want.size()));
          mod.pos = mod.cur.size();
          last = n;
          break;
        }
        case 3:
        case 4:
          if (last > 0) {
            int n = ops[k] == 3 ? 1 : last;
            in->BackUp(n);
            mod.pos -= static_cast<size_t>(n);
            trace += pbt::Format("BackUp(%d) ", n);
            last = 0;
            backed = true;
          }
          break;
        case 5: {
          mod.Refill();
          trace += "BytesAvailable ";
          int64_t got = in->BytesAvailable();
          if (got != static_cast<int64_t>(mod.cur.size() - std::min(mod.pos, mod.cur.size()))) c.fail(trace + pbt::Format("-> %lld", (long long)got));
          last = 0;
          break;
        }
        default:
          src.ended_ = mod.ended = true;
          trace += "end ";
          if (in->Finished() != mod.finished()) c.fail(trace + "Finished is wrong");
          break;
      }
    }
    if (backed) nt++;
    if (x == 0) c.note("%s...", trace.c_str());
  }
  c.evaluations(total);
  c.bulk_nontrivial(nt);
}
