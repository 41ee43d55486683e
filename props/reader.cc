// C12, C13, C14: MessageReader against a model of the frame stream.
#include "framing.h"

using namespace framing;
namespace pbio = google::protobuf::io;

namespace {

enum Focus { kData = 1, kFault = 2, kConsumption = 4 };

struct Stats {
  int polls = 0, idle_polls = 0, messages = 0, huge = 0, late = 0;
  bool split_header = false, error = false, partial_reads = false;
};

// Reads a delivered message completely, in a generated way. Checks content and
// bounds.
void ReadMessage(Case& c, pbio::ZeroCopyInputStream* m, const Frame& f, int focus, Stats* st) {
  int64_t got = 0;  // bytes consumed so far
  const bool piecemeal = c.chance(1, 2);
  int guard = 0;
  const bool data = (focus & kData) != 0, cons = (focus & kConsumption) != 0;
  while (true) {
    if (++guard > 2000000) c.fail("reading a message does not end");
    if (piecemeal && c.chance(1, 6) && got < static_cast<int64_t>(f.size)) {
      int64_t left = static_cast<int64_t>(f.size) - got;
      int k = static_cast<int>(c.raw(static_cast<uint64_t>(std::min<int64_t>(left, std::numeric_limits<int>::max()))));
      if (k > 0 && m->Skip(k)) {
        got += k;
        st->partial_reads = true;
        c.note("    Skip(%d)", k);
        continue;
      } else if (k > 0) {
        if (data || cons) c.fail(pbt::Format("Skip(%d) inside a message of %u bytes failed at %lld", k, f.size, (long long)got));
        return;
      }
    }
    const void* d = nullptr;
    int n = 0;
    if (!m->Next(&d, &n)) break;
    if (n < 0) c.fail("a buffer of negative size");
    if (got + n > static_cast<int64_t>(f.size)) {
      if (data || cons) c.fail(pbt::Format("the stream of a %u byte message exposes %lld bytes", f.size, (long long)(got + n)));
      return;
    }
    const char* p = static_cast<const char*>(d);
    if (data && n > 0) {
      if (f.huge) {
        for (int k = 0; k < std::min(n, 16); k++)
          if (p[k] || p[n - 1 - k]) c.fail(pbt::Format("wrong content in a %u byte message near offset %lld", f.size, (long long)got));
      } else if (memcmp(p, f.body.data() + got, n) != 0) {
        c.fail(pbt::Format("wrong bytes at offset %lld of a %u byte message: %s instead of %s", (long long)got, f.size, pbt::Show(string(p, n), 40).c_str(), pbt::Show(f.body.substr(got, n), 40).c_str()));
      }
    }
    got += n;
    if (piecemeal && n > 0 && c.chance(1, 3)) {
      int back = static_cast<int>(c.raw(static_cast<uint64_t>(std::min(n, 1 << 20))));
      if (back) {
        m->BackUp(back);
        got -= back;
        st->partial_reads = true;
        c.note("    BackUp(%d)", back);
      }
    }
  }
  if (got != static_cast<int64_t>(f.size) && (data || cons)) c.fail(pbt::Format("a message of %u bytes ended after %lld bytes", f.size, (long long)got));
}

void Run(Case& c, int focus, int fault) {
  Script s;
  GenScript(c, fault, &s);
  ScriptedStream in(&s.content);
  GenCuts(c, s, &in);
  pbt::Fresh<gt::MessageReader> reader_at(&in);
  gt::MessageReader& reader = *reader_at;
  Stats st;
  if (c.verbose) {
    string d;
    for (const Frame& f : s.frames) d += pbt::Format(" [flag %d, %u bytes]", f.header[0], f.size);
    c.note("frames:%s; %lld of %lld bytes arrive%s", d.c_str(), (long long)s.total, (long long)s.content.size(), in.every_ ? pbt::Format("; buffers of at most %lld bytes", (long long)in.every_).c_str() : "");
  }
  uint64_t h = pbt::Mix(static_cast<uint64_t>(s.total) * 4 + fault);
  for (const Frame& f : s.frames) h = pbt::Mix(h ^ f.size ^ (uint64_t(f.header[0]) << 40));

  size_t next_frame = 0;     // model: index of the frame to be delivered
  bool header_taken = false; // model: its header has been read
  bool err = false, fin = false;
  const bool data = (focus & kData) != 0, flt = (focus & kFault) != 0, cons = (focus & kConsumption) != 0;
  const bool use_frame_api = c.coin();
  // Arrive / poll until everything has arrived, the end was signalled and the
  // reader has been polled to its final state.
  const bool finish_with_last = c.coin();
  int extra = 0;
  for (int step = 0;; step++) {
    if (step > 4000) c.fail("the reader makes no progress");
    const bool hurry = step > 400;  // whatever the choices are, come to an end
    // 1. maybe something arrives
    if (in.arrived_ < s.total) {
      if (hurry || (step == 0 ? c.coin() : !c.chance(1, 4))) {
        in.arrived_ = hurry ? s.total : GenArrival(c, s, in.arrived_);
        if (in.arrived_ == s.total && finish_with_last) in.finished_ = true;
        c.note("arrived: %lld%s", (long long)in.arrived_, in.finished_ ? ", finished" : "");
      }
    } else if (!in.finished_) {
      if (hurry || !c.chance(1, 4)) {
        in.finished_ = true;
        c.note("finished");
      }
    }
    // 2. poll, possibly several times
    size_t polls = std::max<size_t>(c.weighted({2, 6, 2, 1}), hurry);
    if (!hurry && c.chance(1, 4000)) polls += 1 + c.raw(5000);  // a very patient caller
    for (size_t k = 0; k < polls; k++) {
      // Expected outcome of this poll.
      const int64_t pos0 = next_frame < s.frames.size() ? s.frames[next_frame].start : s.content.size();
      struct Want {
        bool msg, err, fin, header;
      };
      auto expect = [&]() {
        Want w = {false, err, fin || err, header_taken};
        if (err || fin) return w;
        const int64_t avail = in.arrived_ - pos0;
        if (!header_taken && avail < 5) {
          if (in.finished_) {
            if (avail > 0) w.err = true;
            w.fin = true;
          }
        } else {
          const Frame& f = s.frames[next_frame];
          w.header = true;
          if (f.header[0] != 0) {
            w.err = w.fin = true;
          } else if (in.arrived_ < f.end()) {
            if (in.finished_) w.err = w.fin = true;
          } else {
            w.msg = true;
          }
        }
        return w;
      };
      const Want before = expect();
      // More may arrive while the reader is at work.
      if (!in.finished_ && in.arrived_ < s.total && k < 6 && c.chance(1, 6)) {
        in.late_to_ = GenArrival(c, s, in.arrived_);
        in.late_after_ = static_cast<int>(c.below(4));
      }
      const int64_t arrived0 = in.arrived_;
      std::unique_ptr<pbio::ZeroCopyInputStream> m;
      gt::MessageAndGrpcFrame mf;
      if (use_frame_api) {
        mf = reader.NextMessageAndGrpcFrame();
        m = std::move(mf.message);
      } else {
        m = reader.NextMessage();
      }
      st.polls++;
      if (!m) st.idle_polls++;
      in.late_to_ = 0;
      const Want after = in.arrived_ == arrived0 ? before : expect();
      if (in.arrived_ != arrived0) {
        st.late++;
        c.note("during the poll the bytes up to %lld arrive", (long long)in.arrived_);
      }
      // What arrives during the poll may or may not have an effect yet.
      const bool want_msg = before.msg == after.msg ? before.msg : m != nullptr;
      const bool want_err = before.err == after.err ? before.err : !reader.Status().ok();
      const bool want_fin = before.fin == after.fin ? before.fin : reader.Finished();
      const bool want_header = after.header;
      c.note("poll -> %s, status %s, finished %d (stream at %lld)", m ? "message" : "nothing", reader.Status().ToString().c_str(), reader.Finished(), (long long)in.pos_);
      if (!in.misuse_.empty() && cons) c.fail("the underlying stream was misused: " + in.misuse_);

      // -- data
      if (m && !want_msg) {
        if (data && !want_err) c.fail(pbt::Format("a message was returned although frame %zu is %s", next_frame, next_frame < s.frames.size() ? "incomplete" : "absent"));
        if (flt && want_err) c.fail(pbt::Format("a message was handed out for the faulty frame %zu", next_frame));
        return;  // another property's business: the model no longer applies
      }
      if (!m && want_msg) {
        if (data) c.fail(pbt::Format("frame %zu (%u bytes) is complete but no message was returned (status %s)", next_frame, s.frames[next_frame].size, reader.Status().ToString().c_str()));
        if (flt && s.fault) c.fail(pbt::Format("the complete frame %zu before the fault was not returned", next_frame));
        if (flt && !reader.Status().ok()) c.fail(pbt::Format("error %s although frame %zu is complete and valid", reader.Status().ToString().c_str(), next_frame));
        return;
      }
      // -- status
      if (flt || (data && !fault)) {
        if (want_err && reader.Status().ok()) c.fail(pbt::Format("no error is reported for the %s of frame %zu", s.fault == 1 ? "non-zero flag" : "truncation", next_frame));
        if (!want_err && !reader.Status().ok()) c.fail(pbt::Format("error %s without a fault (%lld of %lld bytes have arrived%s)", reader.Status().ToString().c_str(), (long long)in.arrived_, (long long)s.total, in.finished_ ? ", finished" : ""));
        if (want_err && reader.Status().code() != absl::StatusCode::kInternal) c.fail("the error is not INTERNAL: " + reader.Status().ToString());
        if (reader.Finished() != want_fin) c.fail(pbt::Format("Finished() is %d after %s", reader.Finished(), want_err ? "an error" : want_fin ? "the end of the stream" : "a poll in the middle of the stream"));
      }
      // -- consumption
      if (cons) {
        const int64_t want_pos = pos0 + (want_header ? 5 : 0);
        if (in.pos_ != want_pos && in.pos_ != pos0) c.fail(pbt::Format("after a poll the underlying stream stands at %lld; frame %zu starts at %lld and %s", (long long)in.pos_, next_frame, (long long)pos0, want_header ? "only its header may be taken" : "its header is not complete"));
      }
      header_taken = want_header && in.pos_ != pos0;
      if (want_err && !err) {
        st.error = true;
      }
      err = want_err;
      fin = want_fin;
      if (m) {
        const Frame& f = s.frames[next_frame];
        if (use_frame_api && data) {
          if (memcmp(mf.grpc_frame, f.header, 5) != 0) c.fail(pbt::Format("the returned frame header of frame %zu is wrong", next_frame));
          if (mf.message_size != f.size) c.fail(pbt::Format("the returned size of frame %zu is %u, expected %u", next_frame, mf.message_size, f.size));
        }
        ReadMessage(c, m.get(), f, focus, &st);
        m.reset();
        if (cons) {
          if (!in.misuse_.empty()) c.fail("the underlying stream was misused: " + in.misuse_);
          if (in.pos_ != f.end()) c.fail(pbt::Format("after reading message %zu the underlying stream stands at %lld instead of %lld", next_frame, (long long)in.pos_, (long long)f.end()));
        }
        st.messages++;
        if (f.huge) st.huge++;
        next_frame++;
        header_taken = false;
      }
    }
    if (err || fin) {
      if (++extra > 2) break;
    }
  }
  if (data && !s.fault) {
    if (next_frame != s.frames.size()) c.fail(pbt::Format("%zu of %zu messages were returned", next_frame, s.frames.size()));
    if (!reader.Status().ok()) c.fail("valid input ends with " + reader.Status().ToString());
    if (!reader.Finished()) c.fail("Finished() is false after the last message of a finished input");
  }
  c.label(s.fault == 0 ? "stream:valid" : s.fault == 1 ? "stream:bad-flag" : "stream:truncated");
  if (st.huge) c.label("message:more-than-100kB");
  for (const Frame& f : s.frames) {
    if (f.size == 0) c.label("message:empty");
    if (f.size >= 0x80000000u) c.label("message:2^31-or-more");
  }
  if (st.partial_reads) c.label("read:piecemeal");
  if (st.idle_polls > 1) c.label("poll:idle");
  if (st.late) c.label("poll:arrivals-during");
  if (s.fault && s.fault_frame > 0) c.label("fault:after-good-messages");
  c.evaluations(static_cast<uint64_t>(st.polls));
  h = pbt::Mix(h ^ static_cast<uint64_t>(st.polls) ^ (in.every_ << 8) ^ (uint64_t(in.cuts_.size()) << 16));
  if (st.messages > 0 || s.fault) c.nontrivial(h);
}

// Every truncation point and every split of a short stream of frames.
void Exhaustive(Case& c, int focus) {
  static const vector<vector<int>> kSizes = {{}, {0}, {3}, {0, 0}, {2, 0}, {0, 2}, {1, 3}, {4, 1, 0}};
  // case: (sizes, truncation point, buffer size 1..7, arrival step 1..7)
  const uint64_t i = c.raw(kSizes.size() * 40 * 49 - 1);
  const vector<int>& sizes = kSizes[i / (40 * 49)];
  const int64_t cut = static_cast<int64_t>((i / 49) % 40);
  const int64_t every = static_cast<int64_t>((i / 7) % 7) + 1, step = static_cast<int64_t>(i % 7) + 1;
  Script s;
  for (int z : sizes) {
    Frame f;
    f.start = s.content.size();
    f.size = static_cast<uint32_t>(z);
    f.header[4] = static_cast<unsigned char>(z);
    f.body = Pattern(static_cast<uint64_t>(z) + 7, static_cast<size_t>(z));
    s.content.Append(string(reinterpret_cast<char*>(f.header), 5) + f.body);
    s.frames.push_back(f);
  }
  s.content.Merge();
  if (cut > s.content.size()) {
    c.evaluations(0);
    return;
  }
  c.note("frames %zu, %lld bytes arrive, buffers of %lld bytes, arriving %lld at a time", sizes.size(), (long long)cut, (long long)every, (long long)step);
  ScriptedStream in(&s.content);
  in.every_ = every;
  pbt::Fresh<gt::MessageReader> reader_at(&in);
  gt::MessageReader& reader = *reader_at;
  size_t got = 0;
  Stats st;
  bool boundary = cut == 0;
  for (const Frame& f : s.frames) boundary = boundary || f.end() == cut;
  for (int k = 0; k < 200; k++) {
    in.arrived_ = std::min(cut, in.arrived_ + step);
    if (in.arrived_ == cut && k % 2) in.finished_ = true;
    auto m = reader.NextMessage();
    if (m) {
      if (got >= s.frames.size() || s.frames[got].end() > cut) c.fail("a message was returned for an incomplete frame");
      ReadMessage(c, m.get(), s.frames[got], focus, &st);
      m.reset();
      got++;
      if ((focus & kConsumption) && in.pos_ != s.frames[got - 1].end()) c.fail("the stream does not stand at the end of the delivered message");
    }
    if ((focus & kConsumption) && !in.misuse_.empty()) c.fail(in.misuse_);
    if ((focus & kFault) && !reader.Status().ok() && (boundary || !in.finished_)) c.fail("error without a fault: " + reader.Status().ToString());
    if (reader.Finished()) break;
  }
  size_t whole = 0;
  for (const Frame& f : s.frames)
    if (f.end() <= cut) whole++;
  if (got != whole) c.fail(pbt::Format("%zu messages returned, %zu complete frames arrived", got, whole));
  if (!reader.Finished()) c.fail("the reader never finishes");
  if (focus & (kFault | kData)) {
    if (boundary && !reader.Status().ok()) c.fail("error at the end of a valid stream: " + reader.Status().ToString());
    if (!boundary && reader.Status().code() != absl::StatusCode::kInternal) c.fail("truncation not reported as INTERNAL: " + reader.Status().ToString());
  }
  c.nontrivial(i);
}

}  // namespace

PBT(C12, frames, 400000, 16000000) { Run(c, kData, 0); }
PBT_ENUM(C12, small_scope, 15680, 15680) { Exhaustive(c, kData); }
PBT(C13, faults, 300000, 12000000) { Run(c, kFault, static_cast<int>(1 + c.below(2))); }
PBT(C13, no_false_errors, 150000, 6000000) { Run(c, kFault, 0); }
PBT_ENUM(C13, small_scope, 15680, 15680) { Exhaustive(c, kFault); }
PBT(C14, consumption, 400000, 16000000) { Run(c, kConsumption, c.chance(1, 4) ? static_cast<int>(1 + c.below(2)) : 0); }
PBT_ENUM(C14, small_scope, 15680, 15680) { Exhaustive(c, kConsumption); }

// C12: every value of the four length bytes with one bit set, and all-ones
// tails: the length is the big-endian number, whatever the chunking.
PBT(C12, lengths, 200000, 6000000) {
  uint32_t size;
  switch (c.below(3)) {
    case 0: size = 1u << c.below(32); break;
    case 1: size = static_cast<uint32_t>((1ull << (1 + c.below(32))) - 1); break;
    default: size = static_cast<uint32_t>(c.raw(0xffffffffu)); break;
  }
  Content content;
  unsigned char hd[5] = {0, static_cast<unsigned char>(size >> 24), static_cast<unsigned char>(size >> 16), static_cast<unsigned char>(size >> 8), static_cast<unsigned char>(size)};
  content.Append(string(reinterpret_cast<char*>(hd), 5));
  content.AppendZeros(size);
  content.Append(string("\0\0\0\0\1Z", 6));
  ScriptedStream in(&content);
  in.every_ = static_cast<int64_t>(c.below(6));
  pbt::Fresh<gt::MessageReader> reader_at(&in);
  gt::MessageReader& reader = *reader_at;
  // One byte short of complete.
  in.arrived_ = 5 + static_cast<int64_t>(size) - (size ? 1 : 0);
  c.note("length %u, header buffers of %lld bytes", size, (long long)in.every_);
  if (size) {
    auto early = reader.NextMessage();
    if (early) c.fail(pbt::Format("a message of %u bytes was returned one byte early", size));
    if (!reader.Status().ok()) c.fail(pbt::Format("error while waiting for a message of %u bytes: %s", size, reader.Status().ToString().c_str()));
  }
  in.arrived_ = content.size();
  in.finished_ = true;
  auto mf = reader.NextMessageAndGrpcFrame();
  if (!mf.message) c.fail(pbt::Format("a complete message of %u bytes was not returned: %s", size, reader.Status().ToString().c_str()));
  if (mf.message_size != size || memcmp(mf.grpc_frame, hd, 5) != 0) c.fail(pbt::Format("frame of a message of %u bytes says %u", size, mf.message_size));
  uint64_t total = 0;
  const void* d;
  int n;
  while (mf.message->Next(&d, &n)) total += static_cast<uint64_t>(n);
  if (total != size) c.fail(pbt::Format("a message of %u bytes has %llu bytes", size, (unsigned long long)total));
  mf.message.reset();
  auto last = reader.NextMessageAndGrpcFrame();
  if (!last.message || last.message_size != 1) c.fail(pbt::Format("the message after one of %u bytes is lost", size));
  while (last.message->Next(&d, &n))
    if (n == 1 && *static_cast<const char*>(d) != 'Z') c.fail("the message after is wrong");
  last.message.reset();
  if (reader.NextMessage() || !reader.Finished() || !reader.Status().ok()) c.fail("the stream does not end cleanly");
  c.nontrivial(size * 8ull + static_cast<uint64_t>(in.every_));
}
