// C28: translation happens on demand.
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "req.h"

namespace {

using namespace cv;

// Gives out whole chunks, as many as have arrived.
struct Feed : public gt::TranscoderInputStream {
  vector<string> chunks;
  size_t arrived = 0, given = 0;
  bool ended = false;
  int calls = 0;
  std::unique_ptr<char[]> buffer;
  bool backed_up = false;
  bool Next(const void** data, int* size) override {
    calls++;
    *size = 0;
    *data = nullptr;
    if (given >= arrived) return !ended;
    const string& s = chunks[given++];
    buffer.reset(pbt::Bytes(s.size()));
    memcpy(buffer.get(), s.data(), s.size());
    *data = buffer.get();
    *size = static_cast<int>(s.size());
    return true;
  }
  void BackUp(int n) override { backed_up = backed_up || n != 0; }
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return 0; }
  int64_t BytesAvailable() const override {
    int64_t n = 0;
    for (size_t i = given; i < arrived; i++) n += static_cast<int64_t>(chunks[i].size());
    return n;
  }
  bool Finished() const override { return ended && given == arrived; }
};

}  // namespace

// Requests: chunks are read when a message is asked for, until it is there.
PBT(C28, requests, 30000, 900000) {
  ChooseHelper(c);
  Request q;
  GenOpts o;
  o.fields = c.chance(1, 8) ? 20 : 4;
  q.streaming = !c.chance(1, 4);
  const bool as_bytes = c.chance(1, 3);
  q.delimiters = as_bytes || c.coin();
  const Style st = GenStyle(c);
  q.body_field_path = c.coin() ? "*" : "";
  if (c.chance(1, 3)) GenBodyPath(c, &q);
  const size_t n = q.streaming ? c.size(6) : 1;
  bool scalars = false;
  for (size_t i = 0; i < n; i++) {
    GenElement(c, &q, st, o);
    // A number ends where the next token begins.
    const string& t = q.elements.back()->text;
    if (t.empty() || (t.back() != '}' && t.back() != ']')) {
      if (!q.streaming) return;
      scalars = true;
    }
  }
  if (c.chance(1, 3)) GenBindings(c, &q, 3, o);
  Assemble(c, &q, st);
  vector<int64_t> ends = q.element_end;
  int64_t all = static_cast<int64_t>(q.text.size());  // where the value is complete
  if (!q.streaming) ends = {all};
  // A number is complete with the character after it. No chunk ends just after
  // a scalar of another kind: it may or may not be complete there.
  std::set<int64_t> open;
  for (size_t i = 0; i < ends.size() && scalars; i++) {
    const char last = q.text[static_cast<size_t>(ends[i]) - 1];
    if (last == '}' || last == ']') continue;
    if (last < '0' || last > '9') open.insert(ends[i]);
    ends[i]++;
  }
  if (q.streaming || c.coin()) {
    // What follows need not be read.
    q.text += string(c.below(5), ' ');
  }
  bool truncated = false;
  if (c.chance(1, 6)) {
    q.text.resize(c.below(q.text.size() + 1));
    truncated = static_cast<int64_t>(q.text.size()) < all;
    if (q.text.find_first_not_of(" \t\r\n") == string::npos) return;
    if (open.count(static_cast<int64_t>(q.text.size()))) q.text.pop_back();
    if (q.text.empty()) return;
  }
  NoteRequest(c, q);
  Feed in;
  const bool tiny = c.chance(1, 6);  // very many chunks
  for (size_t at = 0; at < q.text.size();) {
    size_t k = 0;
    switch (tiny ? 3 : c.below(3)) {
      case 3: k = 1 + c.below(2); break;
      case 0: k = 1 + c.below(8); break;
      case 1: {  // to the end of an element, give or take
        k = q.text.size();
        for (int64_t e : ends)
          if (e > static_cast<int64_t>(at)) {
            k = static_cast<size_t>(std::max<int64_t>(1, e - static_cast<int64_t>(at) + c.range(-1, 2)));
            break;
          }
        break;
      }
      default: k = 1 + c.below(q.text.size()); break;
    }
    if (open.count(static_cast<int64_t>(at + k))) k++;
    in.chunks.push_back(q.text.substr(at, k));
    at += k;
  }
  auto Read = [&](size_t d) {
    int64_t p = 0;
    for (size_t i = 0; i < d; i++) p += static_cast<int64_t>(in.chunks[i].size());
    return p;
  };
  auto Ready = [&](size_t d) {
    const int64_t p = Read(d);
    size_t k = 0;
    while (k < ends.size() && ends[k] <= p) k++;
    return k;
  };
  if (c.coin()) in.arrived = in.chunks.size();
  pbt::Fresh<gt::JsonRequestTranslator> t_at(Helper().Resolver(), &in, Info(c, q), q.streaming, q.delimiters);
  gt::JsonRequestTranslator& t = *t_at;
  gt::MessageStream& out = t.Output();
  std::unique_ptr<gt::TranscoderInputStream> bytes;
  if (as_bytes) bytes = out.CreateInputStream();
  if (in.calls != 0) c.fail("constructing the translator reads input");
  size_t taken = 0;       // messages handed out
  int64_t unread = 0;     // of the last one, in bytes mode
  int32_t last = 0;       // size of the last piece, while it can be given back
  bool failed = false;
  size_t full_polls = 0;
  // A poll for one message; returns whether one is expected.
  auto Expect = [&](size_t* d) {
    *d = in.given;
    if (failed) return false;
    while (Ready(*d) <= taken && Read(*d) < all && *d < in.arrived) ++*d;
    return Ready(*d) > taken;
  };
  for (int step = 0; step < 400; step++) {
    const bool hurry = step > 200;
    if ((hurry || c.coin()) && !in.ended) {
      if (in.arrived < in.chunks.size()) in.arrived += hurry ? in.chunks.size() - in.arrived : 1 + c.below(std::min<size_t>(3, in.chunks.size() - in.arrived));
      if (in.arrived == in.chunks.size() && (hurry || c.coin())) in.ended = true;
    }
    // Looking does not read.
    const int calls = in.calls;
    const size_t given = in.given;
    if (c.coin()) {
      out.Finished();
      out.Status();
      if (bytes) bytes->Finished();
      if (in.calls != calls) c.fail("Finished() or Status() reads input");
    }
    size_t d = 0;
    if (!as_bytes) {
      const bool want = Expect(&d);
      const bool idle = failed || Ready(given) > taken || Read(given) >= all;
      string m;
      const bool got = out.NextMessage(&m);
      c.note("NextMessage with %zu of %zu chunks there -> %d, %zu read", in.arrived, in.chunks.size(), got, in.given);
      if (got != want) c.fail(Format("NextMessage returned %d; %zu messages are complete in the %zu chunks that have arrived, %zu were handed out (status %s)", got, Ready(in.arrived), in.arrived, taken, out.Status().ToString().c_str()));
      if (in.given != d) c.fail(Format("asking for message %zu reads to chunk %zu, needed: %zu", taken, in.given, d));
      if (idle && in.calls != calls) c.fail(Format("asking for message %zu reads input although %s", taken, failed ? "the translation has failed" : Ready(given) > taken ? "what was read before holds it" : "the request is complete"));
      if (got) taken++;
      else if (++full_polls > 12 && in.ended) break;
    } else {
      switch (c.weighted({4, 2, 2})) {
        case 0: {
          const bool want = unread > 0 || Expect(&d);
          const bool idle = unread > 0 || failed || Ready(given) > taken || Read(given) >= all;
          if (unread > 0) d = given;
          const void* data = nullptr;
          int size = 0;
          bytes->Next(&data, &size);
          c.note("Next with %zu of %zu chunks there -> %d bytes, %zu read", in.arrived, in.chunks.size(), size, in.given);
          if ((size > 0) != want) c.fail(Format("Next gives %d bytes; %zu messages are complete in the %zu chunks that have arrived, %zu were handed out, %lld bytes left of the last", size, Ready(in.arrived), in.arrived, taken, (long long)unread));
          if (in.given != d) c.fail(Format("Next reads to chunk %zu, needed: %zu", in.given, d));
          if (idle && in.calls != calls) c.fail("Next reads input although it need not");
          if (size > 0) {
            if (unread == 0) taken++;
            unread = 0;
            last = size;
          } else {
            last = 0;
            if (++full_polls > 12 && in.ended) step = 400;
          }
          break;
        }
        case 1:
          if (last > 0) {
            const int k = 1 + static_cast<int>(c.below(static_cast<uint64_t>(last)));
            bytes->BackUp(k);
            unread = k;
            last = 0;
            if (in.calls != calls) c.fail("BackUp reads input");
          }
          break;
        default: {
          last = 0;
          const bool want = unread > 0 || Expect(&d);
          if (unread > 0) d = given;
          const bool idle = unread > 0 || failed || Ready(given) > taken || Read(given) >= all;
          const int64_t k = bytes->BytesAvailable();
          c.note("BytesAvailable -> %lld", (long long)k);
          if ((k > 0) != want) c.fail(Format("BytesAvailable() is %lld; %zu messages are complete in the %zu chunks that have arrived, %zu were handed out, %lld bytes left of the last", (long long)k, Ready(in.arrived), in.arrived, taken, (long long)unread));
          if (in.given != d) c.fail(Format("BytesAvailable reads to chunk %zu, needed: %zu", in.given, d));
          if (idle && in.calls != calls) c.fail("BytesAvailable reads input although it need not");
          if (k > 0) {
            if (unread == 0) taken++;
            unread = k;
          }
          break;
        }
      }
    }
    const bool ok = out.Status().ok();
    if (!ok && !failed) {
      if (!truncated || in.given < in.chunks.size() || !in.ended) c.fail("error for a valid request: " + out.Status().ToString());
      failed = true;
    }
    if (in.backed_up) c.fail("the translator gives back what it has read");
  }
  if (!truncated && taken != ends.size()) c.fail(Format("%zu messages for %zu elements", taken, ends.size()));
  c.label(as_bytes ? "as bytes" : "as messages");
  if (scalars) c.label("scalar elements");
  if (truncated) c.label("cut off");
  if (in.chunks.size() > 1) c.nontrivial(pbt::HashStr(q.text, in.chunks.size()));
}

// Responses: not a byte beyond the message that was asked for.
PBT(C28, responses, 30000, 900000) {
  ChooseHelper(c);
  framing::Script script;
  const bool streaming = !c.chance(1, 4);
  pbt::Fresh<gt::JsonResponseTranslateOptions> opts_at;
  gt::JsonResponseTranslateOptions& opts = *opts_at;
  opts.stream_newline_delimited = c.chance(1, 3);
  GenOpts o;
  o.fields = 3;
  const size_t n = streaming ? c.size(6) : 1;
  for (size_t i = 0; i < n + (streaming ? 0 : c.below(2)); i++) {
    conv::Msg m;
    GenMsg(c, &m, 2, o);
    const string b = Det(m);
    framing::Frame f;
    f.start = script.content.size();
    f.size = static_cast<uint32_t>(b.size());
    for (int k = 0; k < 4; k++) f.header[1 + k] = static_cast<unsigned char>(f.size >> (8 * (3 - k)));
    script.content.Append(string(reinterpret_cast<char*>(f.header), 5));
    script.content.Append(b);
    script.frames.push_back(f);
  }
  script.content.Merge();
  script.total = script.content.size();
  if (script.total == 0) return;
  framing::ScriptedStream in(&script.content);
  framing::GenCuts(c, script, &in);
  c.note("%s, %zu messages, %lld bytes", streaming ? "streaming" : "unary", n, (long long)script.total);
  pbt::Fresh<gt::ResponseToJsonTranslator> t_at(Helper().Resolver(), kUrl + string("conv.Msg"), streaming, &in, opts);
  gt::ResponseToJsonTranslator& t = *t_at;
  if (in.calls_ != 0) c.fail("constructing the translator reads input");
  size_t taken = 0;
  for (int step = 0; step < 300; step++) {
    const bool hurry = step > 150;
    if (in.arrived_ < script.total && (hurry || c.coin())) in.arrived_ = hurry ? script.total : framing::GenArrival(c, script, in.arrived_);
    if (in.arrived_ == script.total && (hurry || c.coin())) in.finished_ = true;
    const uint64_t calls = in.calls_;
    const bool finished = t.Finished();
    t.Status();
    if (in.calls_ != calls) c.fail("Finished() or Status() reads input");
    string s;
    const bool there = taken < n && in.arrived_ >= script.frames[taken].end();
    const bool got = t.NextMessage(&s);
    c.note("NextMessage with %lld bytes there -> %d, %lld read", (long long)in.arrived_, got, (long long)in.pos_);
    if (finished) {
      if (in.calls_ != calls) c.fail("NextMessage reads input after Finished()");
      break;
    }
    if (!t.Status().ok()) c.fail("error for valid messages: " + t.Status().ToString());
    if (taken == n) {  // the closing text, perhaps
      const int64_t end = n == 0 ? 0 : script.frames[n - 1].end();
      if (in.pos_ != end) c.fail(Format("%lld bytes read after the last message, which ends at %lld", (long long)in.pos_, (long long)end));
      continue;
    }
    if (got != there) c.fail(Format("NextMessage returned %d for message %zu, which ends at %lld; %lld bytes have arrived", got, taken, (long long)script.frames[taken].end(), (long long)in.arrived_));
    const framing::Frame& f = script.frames[taken];
    if (got) {
      if (in.pos_ != f.end()) c.fail(Format("message %zu ends at %lld, but %lld bytes have been read", taken, (long long)f.end(), (long long)in.pos_));
      taken++;
    } else if (in.pos_ != f.start && in.pos_ != f.start + 5) {
      c.fail(Format("%lld bytes have been read while message %zu, which begins at %lld, is awaited", (long long)in.pos_, taken, (long long)f.start));
    }
  }
  if (taken != n) c.fail(Format("%zu messages came out, expected %zu", taken, n));
  if (!in.misuse_.empty()) c.fail("the input stream is misused: " + in.misuse_);
  c.nontrivial(pbt::HashStr(Format("%lld %zu", (long long)script.total, n), in.calls_));
}

namespace {

struct Source : public gt::MessageStream {
  vector<string> messages;
  size_t arrived = 0, given = 0;
  bool ended = false;
  int calls = 0;
  bool NextMessage(string* m) override {
    calls++;
    if (given >= arrived) return false;
    *m = messages[given++];
    return true;
  }
  bool Finished() const override { return ended && given == arrived; }
  absl::Status Status() const override { return absl::OkStatus(); }
};

}  // namespace

// The byte stream over a message stream asks for a message when it has none.
PBT(C28, byte_stream, 60000, 3000000) {
  Source src;
  const size_t n = c.size(8);
  for (size_t i = 0; i < n; i++) src.messages.push_back(framing::Pattern(i, c.chance(1, 3) ? 0 : c.chance(1, 30) ? 5000 + c.below(10000) : 1 + c.below(20)));
  if (c.coin()) src.arrived = n;
  std::unique_ptr<gt::TranscoderInputStream> in = src.CreateInputStream();
  if (src.calls != 0) c.fail("CreateInputStream() asks for a message");
  string rest;  // of the current message
  string piece;
  uint64_t h = n;
  for (int step = 0; step < 60; step++) {
    if (src.arrived < n && c.coin()) src.arrived++;
    if (src.arrived == n && c.coin()) src.ended = true;
    const int calls = src.calls;
    const size_t given = src.given;
    size_t want = given;
    const bool had = !rest.empty();
    if (rest.empty())
      while (want < src.arrived && src.messages[want++].empty()) {
      }
    const bool fresh = rest.empty() && want > given && !src.messages[want - 1].empty();
    const size_t op = c.weighted({4, 2, 2, 1});
    h = h * 31 + op;
    switch (op) {
      case 0: {
        const void* data = nullptr;
        int size = 0;
        const bool ok = in->Next(&data, &size);
        c.note("Next -> %d, %d bytes (%zu messages asked for)", ok, size, src.given);
        if (fresh) rest = src.messages[want - 1];
        if (string(static_cast<const char*>(data), static_cast<size_t>(size)) != rest) c.fail(Format("Next gives %d bytes, expected %zu", size, rest.size()));
        piece = rest;
        rest.clear();
        break;
      }
      case 1:
        if (piece.empty()) continue;
        {
          const size_t k = 1 + c.below(piece.size());
          in->BackUp(static_cast<int>(k));
          c.note("BackUp(%zu)", k);
          rest = piece.substr(piece.size() - k);
          if (src.calls != calls) c.fail("BackUp asks for a message");
          piece.clear();
        }
        continue;
      case 2: {
        const int64_t k = in->BytesAvailable();
        c.note("BytesAvailable -> %lld (%zu messages asked for)", (long long)k, src.given);
        if (rest.empty()) piece.clear();
        if (fresh) rest = src.messages[want - 1];
        if (k != static_cast<int64_t>(rest.size())) c.fail(Format("BytesAvailable() is %lld, expected %zu", (long long)k, rest.size()));
        break;
      }
      default:
        in->Finished();
        if (src.calls != calls) c.fail("Finished() asks for a message");
        continue;
    }
    if (src.given != want) c.fail(Format("%zu messages were asked for, needed: %zu", src.given, want));
    if (had && src.calls != calls) c.fail("a message is asked for while one is being read");
  }
  if (n > 0) c.nontrivial(h);
}
