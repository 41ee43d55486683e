// C17, C18: gRPC response frames to JSON.
#include "conv.h"
#include "grpc_transcoding/response_to_json_translator.h"

using namespace cv;
using framing::Frame;
using framing::Script;
using framing::ScriptedStream;

namespace {

struct Setup {
  string type;               // full name
  vector<string> bodies;     // message bytes
  vector<string> json;       // expected text per message
  bool streaming = true;
  pbt::Fresh<gt::JsonResponseTranslateOptions> opts_at;
  gt::JsonResponseTranslateOptions& opts = *opts_at;
  Script script;
};

std::unique_ptr<Message> NewOf(const string& type) {
  const pb::Descriptor* d = pb::DescriptorPool::generated_pool()->FindMessageTypeByName(type);
  return std::unique_ptr<Message>(pb::MessageFactory::generated_factory()->GetPrototype(d)->New());
}

void GenBody(Case& c, const string& type, string* body) {
  GenOpts o;
  if (type == "conv.Msg") {
    conv::Msg m;
    GenMsg(c, &m, 2, o);
    *body = Det(m);
  } else if (type == "conv.Inner") {
    conv::Inner m;
    GenMsg(c, &m, 2, o);
    *body = Det(m);
  } else if (type == "conv.Plain") {
    conv::Plain m;
    GenMsg(c, &m, 3, o);
    *body = Det(m);
  } else if (type == "google.protobuf.Struct") {
    pb::Struct m;
    GenStruct(c, &m, 3);
    *body = Det(m);
  } else {
    pb::StringValue m;
    m.set_value(GenText(c));
    *body = Det(m);
  }
}

void GenSetup(Case& c, Setup* s, size_t max_messages) {
  static const vector<string> types = {"conv.Inner", "conv.Msg", "google.protobuf.Struct", "google.protobuf.StringValue", "conv.Plain"};
  ChooseHelper(c);
  s->type = types[c.weighted({3, 5, 1, 1, 2})];
  s->streaming = !c.chance(1, 4);
  s->opts.stream_newline_delimited = c.chance(1, 3);
  auto& p = s->opts.json_print_options;
  p.add_whitespace = c.chance(1, 5);
  p.always_print_primitive_fields = c.chance(1, 5);
  p.always_print_enums_as_ints = c.chance(1, 3);
  p.preserve_proto_field_names = c.chance(1, 3);
  size_t n = s->streaming ? c.size(max_messages) : 1;
  for (size_t i = 0; i < n; i++) {
    string b;
    GenBody(c, s->type, &b);
    s->bodies.push_back(b);
  }
  c.note("type %s, %s%s%s, %zu message(s)%s", s->type.c_str(), s->streaming ? "streaming" : "unary", s->opts.stream_newline_delimited ? ", newline-delimited" : "", p.add_whitespace ? ", whitespace" : "",
         n, p.always_print_primitive_fields ? ", primitive fields always" : "");
}

// Frames the bodies.
void Frames(Setup* s) {
  for (const string& b : s->bodies) {
    Frame f;
    f.start = s->script.content.size();
    f.size = static_cast<uint32_t>(b.size());
    for (int k = 0; k < 4; k++) f.header[1 + k] = static_cast<unsigned char>(f.size >> (8 * (3 - k)));
    f.body = b;
    s->script.content.Append(string(reinterpret_cast<char*>(f.header), 5));
    s->script.content.Append(b);
    s->script.frames.push_back(f);
  }
  s->script.content.Merge();
  s->script.total = s->script.content.size();
}

string Unit(const Setup& s, size_t i) {  // the text message i adds
  if (!s.streaming) return s.json[i];
  if (s.opts.stream_newline_delimited) return s.json[i] + "\n";
  return (i == 0 ? "[" : ",") + s.json[i];
}
string End(const Setup& s) {
  if (!s.streaming || s.opts.stream_newline_delimited) return "";
  return s.bodies.empty() ? "[]" : "]";
}

void RoundTrip(Case& c, const Setup& s, size_t i, const string& json) {
  auto orig = NewOf(s.type), back = NewOf(s.type);
  orig->ParsePartialFromString(s.bodies[i]);
  auto st = pb::util::JsonStringToMessage(json, back.get());
  if (!st.ok()) c.fail(Format("the text of message %zu does not convert back: %s; %s", i, st.ToString().c_str(), Show(json, 600).c_str()));
  // Primitive fields printed although unset come back as unset; nothing else may differ.
  if (!Same(*orig, *back)) c.fail(Format("message %zu { %s } comes back as { %s } from %s", i, Text(*orig).c_str(), Text(*back).c_str(), Show(json, 600).c_str()));
}

// With the options, or without them when they are the defaults.
std::unique_ptr<gt::ResponseToJsonTranslator> NewTranslator(Case& c, const Setup& s, gt::TranscoderInputStream* in) {
  auto& p = s.opts.json_print_options;
  const bool defaults = !s.opts.stream_newline_delimited && !p.add_whitespace && !p.always_print_primitive_fields && !p.always_print_enums_as_ints && !p.preserve_proto_field_names;
  if (defaults && c.coin()) {
    c.label("no options given");
    return std::unique_ptr<gt::ResponseToJsonTranslator>(new gt::ResponseToJsonTranslator(Helper().Resolver(), kUrl + s.type, s.streaming, in));
  }
  return std::unique_ptr<gt::ResponseToJsonTranslator>(new gt::ResponseToJsonTranslator(Helper().Resolver(), kUrl + s.type, s.streaming, in, s.opts));
}

}  // namespace

// Long messages and very many of them.
PBT(C17, large_streams, 240, 2400) {
  Setup s;
  s.type = "conv.Msg";
  s.streaming = c.coin();
  s.opts.stream_newline_delimited = c.coin();
  const int form = static_cast<int>(c.below(4));
  static const vector<uint64_t> counts = {100, 255, 256, 257, 500, 1000, 1024, 1025, 2047, 4097, 8200};
  static const vector<uint64_t> sizes = {250, 4090, 8190, 65000, 65530, 131000, 1048500, 2097100, 4194300, 16777200};
  const size_t n = !s.streaming ? 1 : form == 0 ? c.pick(counts) + c.below(4) : 1 + c.below(4);
  for (size_t i = 0; i < n; i++) {
    conv::Msg m;
    string json;
    switch (form) {
      case 0:  // small ones
        m.set_i32_field(static_cast<int32_t>(i + 1));
        json = Format("{\"i32Field\":%zu}", i + 1);
        break;
      case 1: {  // a long string
        const string v(c.coin() ? c.pick(sizes) + c.below(80) : c.below(300000), static_cast<char>('a' + c.below(26)));
        m.set_name(v);
        json = v.empty() ? "{}" : "{\"name\":\"" + v + "\"}";
        break;
      }
      case 2: {  // a long list
        const size_t k = 1 + c.below(c.coin() ? 3000 : 60000);
        for (size_t j = 0; j < k; j++) {
          m.add_i32_list(static_cast<int32_t>(j));
          json += (j ? "," : "") + std::to_string(j);
        }
        json = "{\"i32List\":[" + json + "]}";
        break;
      }
      default: {  // many messages in one
        const size_t k = 1 + c.below(4000);
        for (size_t j = 0; j < k; j++) {
          m.add_items()->set_name(std::to_string(j));
          json += string(j ? "," : "") + "{\"name\":\"" + std::to_string(j) + "\"}";
        }
        json = "{\"items\":[" + json + "]}";
        break;
      }
    }
    s.bodies.push_back(m.SerializeAsString());
    s.json.push_back(json);
  }
  Frames(&s);
  ScriptedStream in(&s.script.content);
  if (s.script.total < 20000 || c.coin()) in.every_ = 1 + c.below(s.script.total < 20000 ? 3000 : 300000);
  c.note("%s%s, form %d, %zu messages of %lld bytes, buffers of %lld", s.streaming ? "streaming" : "unary", s.opts.stream_newline_delimited ? ", newline-delimited" : "", form, n, (long long)s.script.total, (long long)in.every_);
  auto owner = NewTranslator(c, s, &in);
  gt::ResponseToJsonTranslator& t = *owner;
  const bool at_once = c.coin();
  size_t got = 0, calls = 0;
  bool ended = false;
  string m;
  while (!t.Finished()) {
    if (++calls > 20 * n + 2000) c.fail("the translator makes no progress");
    if (in.arrived_ < s.script.total)
      in.arrived_ = at_once || calls > 1000 ? s.script.total : std::min<int64_t>(s.script.total, in.arrived_ + static_cast<int64_t>(1 + c.below(static_cast<uint64_t>(s.script.total))));
    else
      in.finished_ = true;
    if (!t.NextMessage(&m)) {
      if (!t.Status().ok()) c.fail(Format("error for a valid stream after %zu of %zu messages: ", got, n) + t.Status().ToString());
      continue;
    }
    const string want = got < n ? Unit(s, got) : End(s);
    if (m != want || ended) c.fail(Format("text %zu of %zu is %s, expected %s", got, n, Show(m, 200).c_str(), ended ? "none" : Show(want, 200).c_str()));
    if (got < n) got++;
    else ended = true;
    if (!s.streaming && got == n) break;
  }
  if (got < n) c.fail(Format("%zu of %zu messages are translated", got, n));
  if (!t.Status().ok()) c.fail("error for a valid stream: " + t.Status().ToString());
  static const vector<const char*> labels = {"many messages", "a long string", "a long list", "many messages in one"};
  c.label(labels[static_cast<size_t>(form)]);
  c.nontrivial(pbt::Mix(static_cast<uint64_t>(s.script.total) * 64 + static_cast<uint64_t>(form * 8) + s.streaming * 2 + s.opts.stream_newline_delimited));
}

// Bodies of one of the other types.
void GenOtherBodies(Case& c, Setup* s) {
  ChosenHelper() = &PoolHelper();
  GenOpts o;
  o.known_enums = true;
  auto first = GenOther(c, 3, o);
  vector<string> bodies;
  string j;
  for (size_t i = 0; i < std::max<size_t>(s->bodies.size(), 1); i++) {
    std::unique_ptr<Message> m(first->New());
    if (i == 0) m->CopyFrom(*first);
    else GenSub(c, m.get(), 3, o);
    const string b = Det(*m);
    if (m->IsInitialized() && Convert(string(m->GetDescriptor()->full_name()), b, s->opts.json_print_options, &j).ok()) bodies.push_back(b);
  }
  if (bodies.empty()) return;
  s->type = string(first->GetDescriptor()->full_name());
  s->bodies = bodies;
  c.note("instead: type %s, %zu message(s)", s->type.c_str(), bodies.size());
  c.label("another type");
}

// The whole output, read as in the header's example (one string reused).
PBT(C17, whole_output, 36000, 400000) {
  Setup s;
  GenSetup(c, &s, c.chance(1, 20) ? 60 : 6);
  const bool other = c.chance(1, 6);
  if (other) GenOtherBodies(c, &s);
  for (size_t i = 0; i < s.bodies.size(); i++) {
    string j;
    auto st = Convert(s.type, s.bodies[i], s.opts.json_print_options, &j);
    if (!st.ok()) c.fail("test generator: " + st.ToString());
    s.json.push_back(j);
  }
  Frames(&s);
  ScriptedStream in(&s.script.content);
  framing::GenCuts(c, s.script, &in);
  in.arrived_ = s.script.total;
  in.finished_ = true;
  auto owner = NewTranslator(c, s, &in);
  gt::ResponseToJsonTranslator& t = *owner;
  string out, message;
  size_t calls = 0;
  bool ended = false;
  for (size_t guard = 0; guard < 2 * s.bodies.size() + 20; guard++) {
    const bool was_finished = t.Finished();
    if (!t.NextMessage(&message)) {
      if (in.zero_every_ && !was_finished && !t.Finished()) continue;
      break;
    }
    if (was_finished) c.fail("NextMessage returns text after Finished()");
    c.note("text: %s", Show(message, 300).c_str());
    if (calls < s.json.size()) {
      const string want = Unit(s, calls);
      if (message != want) c.fail(Format("text %zu is %s, expected %s", calls, Show(message, 500).c_str(), Show(want, 500).c_str()));
      if (!other) RoundTrip(c, s, calls, s.json[calls]);
    } else if (ended) {
      c.fail("the end of the stream is reported more than once");
    } else {
      ended = true;
    }
    out += message;
    calls++;
  }
  c.check(t.Status().ok(), "status " + t.Status().ToString() + " for valid messages");
  c.check(t.Finished(), "not Finished() after everything was translated");
  string want;
  for (size_t i = 0; i < s.json.size(); i++) want += Unit(s, i);
  want += End(s);
  if (out != want) c.fail(Format("the whole output is %s, expected %s", Show(out, 700).c_str(), Show(want, 700).c_str()));
  for (int k = 0; k < 2; k++) {
    string again = "untouched";
    if (t.NextMessage(&again)) c.fail("text after the end of the stream: " + Show(again));
  }
  if (s.streaming && !s.opts.stream_newline_delimited) {
    // One JSON array with as many elements as messages, judged by a JSON parser.
    pb::ListValue lv;
    auto st = pb::util::JsonStringToMessage(out, &lv);
    if (!st.ok()) c.fail("the output is not a JSON array: " + st.ToString() + " in " + Show(out, 700));
    if (static_cast<size_t>(lv.values_size()) != s.bodies.size()) c.fail(Format("the array has %d elements for %zu messages", lv.values_size(), s.bodies.size()));
  } else if (s.streaming && !s.opts.json_print_options.add_whitespace) {
    size_t lines = 0;
    for (char x : out) lines += x == '\n';
    if (lines != s.bodies.size() || (!out.empty() && out.back() != '\n')) c.fail(Format("%zu lines for %zu messages: %s", lines, s.bodies.size(), Show(out, 700).c_str()));
  }
  c.label(s.streaming ? s.opts.stream_newline_delimited ? "lines" : "array" : "unary");
  if (s.bodies.empty()) c.label("no messages");
  c.nontrivial(pbt::HashStr(out, s.streaming * 2 + s.opts.stream_newline_delimited));
}

// Any arrival schedule, with or without a fault at the end.
PBT(C18, schedules_and_faults, 36000, 400000) {
  Setup s;
  GenSetup(c, &s, 6);
  int fault = static_cast<int>(c.weighted({4, 2, 2, 3}));  // 1 bad flag, 2 truncation, 3 undecodable body
  if (s.bodies.empty()) fault = 0;
  size_t bad = fault == 2 ? s.bodies.size() - 1 : fault ? c.below(s.bodies.size()) : s.bodies.size();
  if (fault == 3) {
    string& b = s.bodies[bad];
    if (s.type == "conv.Plain" && c.coin()) {
      switch (c.below(4)) {
        case 0:
          if (!b.empty()) b.resize(b.size() - 1 - c.below(std::min<size_t>(b.size(), 5)));
          break;
        case 1:
          if (!b.empty()) b[c.below(b.size())] ^= static_cast<char>(1 << c.below(8));
          break;
        case 2: b.insert(c.below(b.size() + 1), 1, static_cast<char>(c.below(256))); break;
        default: b = GenRaw(c); break;
      }
    } else if (s.type == "conv.Msg" && c.coin()) {
      // A value that has no JSON form.
      conv::Msg m;
      if (c.coin()) {
        m.mutable_time()->set_seconds(c.coin() ? 253402300800ll : -62135596801ll);
      } else {
        m.mutable_any_field()->set_type_url("type.googleapis.com/no.such.Type");
        m.mutable_any_field()->set_value(string("\x08\x01", 2));
      }
      b += Det(m);
    } else {
      // Something that is no field after the last one.
      static const vector<string> tails = {string("\x0a\x05" "ab", 4), string("\x0a", 1), string("\x00", 1), string("\x0c", 1), string("\x08\xff\xff", 3), string("\x00\x00\x00\x00\x00", 5),
                                           string("\x00\x00\x00\x00\x00\x02\x0a\x00", 8), string("\x0a\x80", 2), string("\x0d\x01\x02", 3), string("\x09\x01\x02\x03", 4), string("\x04\x08\x01", 3)};
      b += c.pick(tails);
    }
  }
  // What each body converts to on its own decides what is expected.
  size_t good = 0;
  bool undecodable = false;
  for (size_t i = 0; i < s.bodies.size(); i++) {
    string j;
    if (fault != 3 || i != bad) {
      auto st = Convert(s.type, s.bodies[i], s.opts.json_print_options, &j);
      if (!st.ok()) c.fail("test generator: " + st.ToString());
      s.json.push_back(j);
      good++;
      continue;
    }
    const int ok = Decodable(s.type, s.bodies[i], s.opts.json_print_options, &j);
    if (ok < 0) {
      c.label("discarded: the converter is unsure about the damaged body");
      return;
    }
    if (!ok) {
      undecodable = true;
      break;
    }
    s.json.push_back(j);
    good++;
  }
  Frames(&s);
  if (fault == 1) {
    Script fresh;
    for (size_t i = 0; i < s.script.frames.size(); i++) {
      Frame& f = s.script.frames[i];
      if (i == bad) f.header[0] = static_cast<unsigned char>(1 + c.below(255));
      fresh.content.Append(string(reinterpret_cast<char*>(f.header), 5));
      fresh.content.Append(f.body);
    }
    fresh.content.Merge();
    s.script.content = std::move(fresh.content);
    good = bad;
  } else if (fault == 2) {
    const Frame& f = s.script.frames.back();
    s.script.total = f.start + 1 + static_cast<int64_t>(c.below(static_cast<uint64_t>(f.end() - f.start - 1)));
    good = bad;
  }
  const bool error = fault == 1 || fault == 2 || undecodable;
  ScriptedStream in(&s.script.content);
  framing::GenCuts(c, s.script, &in);
  auto owner = NewTranslator(c, s, &in);
  gt::ResponseToJsonTranslator& t = *owner;
  static const char* const kFault[] = {"none", "bad flag", "truncation", "undecodable"};
  c.note("fault: %s; %zu good message(s)%s", kFault[fault], good, error ? ", then an error" : "");
  size_t got = 0;
  bool ended = false;  // the closing text was seen
  string out;
  int extra = 0;
  for (int step = 0; extra < 6; step++) {
    if (step > 3000) c.fail("the translator makes no progress");
    const bool hurry = step > 400;  // whatever the choices are, come to an end
    if (in.arrived_ < s.script.total) {
      if (hurry || !c.chance(1, 4)) {
        in.arrived_ = hurry ? s.script.total : framing::GenArrival(c, s.script, in.arrived_);
        if (in.arrived_ == s.script.total && c.coin()) in.finished_ = true;
        c.note("arrived: %lld of %lld%s", (long long)in.arrived_, (long long)s.script.total, in.finished_ ? ", finished" : "");
      }
    } else if (!in.finished_) {
      if (hurry || !c.chance(1, 4)) in.finished_ = true;
    } else {
      extra++;
    }
    size_t polls = c.weighted({1, 5, 2, 2});
    if (in.finished_) polls += 2;
    if (!hurry && c.chance(1, 3000)) polls += 1 + c.raw(5000);  // a very patient caller
    for (size_t k = 0; k < polls; k++) {
      string message = "stale";
      const bool was_finished = t.Finished();
      const bool r = t.NextMessage(&message);
      if (r && was_finished) c.fail("text after Finished(): " + Show(message));
      if (r) {
        c.note("text %zu: %s", got, Show(message, 200).c_str());
        out += message;
        if (got < good) {
          const string want = Unit(s, got);
          if (message != want) c.fail(Format("text %zu is %s, expected %s", got, Show(message, 400).c_str(), Show(want, 400).c_str()));
          if (s.script.frames[got].end() > in.arrived_) c.fail(Format("text %zu appeared before its frame was complete", got));
          got++;
          if (!t.Status().ok()) c.fail("an error status with good text: " + t.Status().ToString());
        } else if (error) {
          c.fail(Format("text after the last good message, where an error is due: %s", Show(message, 400).c_str()));
        } else if (!ended) {
          ended = true;
          if (!in.finished_) c.fail("the end of the stream is reported before the input has finished");
          if (!s.streaming) c.fail("a second text in a unary call: " + Show(message));
          if (message != End(s)) c.fail(Format("the closing text is %s, expected %s", Show(message).c_str(), Show(End(s)).c_str()));
        } else {
          c.fail("text after the end: " + Show(message));
        }
      } else {
        if (message != "stale") c.fail("NextMessage changed its argument but returned false");
        // A complete good frame must have been turned into text (an empty
        // buffer from the stream may cost one poll).
        if (!in.zero_every_ && got < good && s.script.frames[got].end() <= in.arrived_)
          c.fail(Format("message %zu has arrived completely but its text is not returned (status %s)", got, t.Status().ToString().c_str()));
        if (!error && !t.Status().ok()) c.fail("error status for valid input: " + t.Status().ToString());
        if (error && !t.Status().ok()) {
          if (got < good) c.fail(Format("error after %zu of %zu good messages: %s", got, good, t.Status().ToString().c_str()));
          // The faulty frame must be there to be judged.
          if (fault == 2 && !in.finished_) c.fail("truncation reported before the input has finished: " + t.Status().ToString());
          if (fault == 1 && in.arrived_ <= s.script.frames[bad].start) c.fail("error before the faulty frame has arrived");
        }
      }
    }
  }
  if (got != good) c.fail(Format("%zu of %zu good messages were translated (status %s)", got, good, t.Status().ToString().c_str()));
  const bool unary_done = !s.streaming && good >= 1;
  if (error && !unary_done) {
    if (t.Status().ok()) c.fail(Format("no error status for a faulty stream (%s)", kFault[fault]));
    c.check(t.Finished(), "not Finished() after an error");
  } else {
    if (!t.Status().ok()) c.fail("error status for valid input: " + t.Status().ToString());
    c.check(t.Finished(), "not Finished() at the end");
    if (s.streaming && !ended) c.fail("the end of the stream was not reported");
  }
  if (!in.misuse_.empty()) c.fail("the input stream is misused: " + in.misuse_);
  c.label(string("fault: ") + kFault[fault] + (fault == 3 ? undecodable ? "" : " (still decodable)" : ""));
  c.nontrivial(pbt::HashStr(out, static_cast<uint64_t>(s.script.total) * 8 + static_cast<uint64_t>(fault)));
}
