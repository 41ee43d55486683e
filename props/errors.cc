// C29: errors say whose fault it is, name the culprit, and stay.
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "req.h"

namespace {

using namespace cv;

// Whether any error may be blamed on a request.
const absl::StatusCode kCaller = absl::StatusCode::kInvalidArgument;

// From the first error on nothing changes: `poll` asks for a message.
template <class Poll, class Stream>
void ExpectStays(Case& c, const absl::Status& st, Stream& out, framing::ScriptedStream& in, Poll poll) {
  for (int i = 0; i < 3; i++) {
    const uint64_t calls = in.calls_;
    string m = "stale";
    if (!out.Finished()) c.fail("not Finished() after the error " + st.ToString());
    if (poll(&m)) c.fail("a message after the error " + st.ToString() + ": " + Show(m));
    if (m != "stale") c.fail("NextMessage changed its argument but returned false");
    if (out.Status() != st) c.fail("the status changes from " + st.ToString() + " to " + out.Status().ToString());
    if (in.calls_ != calls) c.fail("input is read after the error " + st.ToString());
  }
}

struct Fault {
  string what;
  vector<string> names;  // the message names one of them
};

// Bindings that are right, alone or with the same value in the body: they make
// nothing better. Adds to the bindings of `q` and to the members of an object.
void AddRight(Case& c, Request* q, const string& taken, const vector<const FD*>& prefix, vector<string>* members) {
  static const vector<std::array<const char*, 3>> k = {{{"i32_field", "7", "7"}}, {{"name", "\"zz\"", "zz"}}, {{"bool_field", "true", "true"}}, {{"renamed", "\"q\"", "q"}}, {{"u64_field", "5", "5"}}, {{"double_field", "0.5", "0.50"}}};
  const size_t n = c.below(4);
  size_t at = c.below(k.size());
  for (size_t i = 0; i < n; i++) {
    const auto& p = k[(at + i) % k.size()];
    if (p[0] == taken) continue;
    const FD* f = conv::Msg::descriptor()->FindFieldByName(p[0]);
    Binding b;
    b.path = prefix;
    b.path.push_back(f);
    b.key = KeyOf(b.path);
    b.value = p[2];
    q->bindings.insert(q->bindings.begin() + static_cast<long>(c.below(q->bindings.size() + 1)), b);
    if (c.chance(3, 4)) members->insert(members->begin() + static_cast<long>(c.below(members->size() + 1)), string("\"") + (c.coin() ? f->name() : f->json_name()) + "\":" + p[1]);
  }
}

// Now and then a value that is wrong at length: far beyond what fits a message
// that somebody wants to read.
string Long(Case& c, const string& v) {
  if (!c.chance(1, 6)) return v;
  string t = v;
  const size_t at = v.find_last_not_of('"');
  if (v.empty() || v == "-1" || at == string::npos) return v;
  const size_t n = c.coin() ? 1 + c.below(600) : 1 + c.below(20000);
  t.insert(at + 1, string(n, isdigit(static_cast<unsigned char>(v[at])) ? '9' : 'x'));
  return t;
}

string Object(const vector<string>& members) {
  string v = "{";
  for (const string& m : members) v += (v.size() > 1 ? "," : "") + m;
  return v + "}";
}

}  // namespace

// Requests that are wrong in every way there is.
PBT(C29, requests, 90000, 1500000) {
  ChooseHelper(c);
  Request q;
  q.streaming = c.coin();
  q.delimiters = c.coin();
  q.reject = true;
  q.body_field_path = "*";
  GenOpts o;
  o.fields = 4;
  const Style st = GenStyle(c);
  const size_t n = q.streaming ? 1 + c.size(3) : 1;
  for (size_t i = 0; i < n; i++) GenElement(c, &q, st, o);
  Fault fault;
  size_t bad = c.below(n);
  const int kind = static_cast<int>(c.weighted({3, 3, 3, 2, 2, 2}));
  switch (kind) {
    case 0: {  // a value the field does not take
      static const vector<std::pair<const char*, const char*>> k = {
          {"i32_field", "\"abc\""}, {"i32_field", "2147483648"}, {"u32_field", "-1"}, {"i64_field", "1e30"}, {"u64_field", "\"18446744073709551616\""}, {"float_field", "1e39"}, {"double_field", "true"},
          {"bool_field", "\"maybe\""}, {"color", "\"NO_SUCH_COLOR\""}, {"name", "12"}, {"time", "\"not a time\""}, {"child", "5"}, {"inner", "true"}, {"i32_wrap", "\"abc\""}};
      const auto& p = c.pick(k);
      static const vector<const char*> wrap = {"", "child", "second_child"};
      const string w = c.pick(wrap);
      const bool text = p.second[0] == '"';
      string v = string("{\"") + p.first + "\":" + (text ? Long(c, p.second) : string(p.second)) + "}";
      if (!w.empty()) v = "{\"" + w + "\":" + v + "}";
      q.elements[bad]->text = v;
      fault.what = v;
      break;
    }
    case 1: {  // text that is no JSON
      static const vector<const char*> k = {"{\"name\":tru}", "{\"name\" \"x\"}", "{\"name\":\"x\"]", "{\"i32_list\":[1 2]}", "{@}", "{\"name\":\"\\u12\"}", "{:1}", "{\"name\":}"};
      q.elements[bad]->text = fault.what = c.pick(k);
      break;
    }
    case 2: {  // a binding that differs from the body
      static const vector<std::array<const char*, 3>> k = {{{"i32_field", "1", "2"}}, {{"name", "\"a\"", "b"}}, {{"bool_field", "true", "false"}}, {{"double_field", "1.5", "2.5"}}, {{"color", "\"RED\"", "DARK_BLUE"}},
                                                           {{"u64_field", "18446744073709551615", "1"}}, {{"renamed", "\"x\"", ""}}, {{"i64_field", "-9223372036854775808", "12"}}, {{"string_wrap", "\"\"", "?"}},
                                                           // bindings that cannot be read like the value in the body
                                                           {{"i32_field", "1", "x"}}, {{"i64_field", "-1", ""}}, {{"u32_field", "4000000000", "-1"}}, {{"u64_field", "18446744073709551615", "18446744073709551616"}},
                                                           {{"double_field", "1.5", "1.5.2"}}, {{"float_field", "0.25", "a"}}, {{"bool_field", "true", "maybe"}}, {{"i32_wrap", "7", "seven"}}};
      const auto& p = c.pick(k);
      const FD* f = conv::Msg::descriptor()->FindFieldByName(p[0]);
      Binding b;
      const bool nested = c.coin();
      if (nested) b.path.push_back(conv::Msg::descriptor()->FindFieldByName("child"));
      b.path.push_back(f);
      b.key = KeyOf(b.path);
      b.value = p[2];
      if (c.coin() && (b.value == "b" || b.value == "?" || b.value == "seven" || b.value == "maybe" || b.value == "a" || b.value == "x")) b.value = Long(c, b.value);
      q.bindings.push_back(b);
      vector<string> members = {string("\"") + (c.coin() ? f->name() : f->json_name()) + "\":" + p[1]};
      if (c.coin()) {
        vector<const FD*> prefix = b.path;
        prefix.pop_back();
        AddRight(c, &q, p[0], prefix, &members);
      }
      string v = Object(members);
      if (nested) v = "{\"child\":" + v + "}";
      bad = 0;
      q.elements[0]->text = v;
      fault.what = v + " and " + b.key + "=" + b.value;
      fault.names = {f->name(), f->json_name()};
      break;
    }
    case 3: {  // a binding that is no value of its field
      static const vector<std::pair<const char*, const char*>> k = {{"i32_field", "abc"}, {"i32_field", ""}, {"u32_field", "-1"}, {"u64_field", "18446744073709551616"}, {"bool_field", "2"}, {"double_field", "1.5.2"},
                                                                    {"color", "PURPLE"}, {"time", "yesterday"}, {"i32_list", "x"}, {"i64_wrap", "1e30"}, {"float_field", "1e39"}};
      const auto& p = c.pick(k);
      Binding b;
      if (c.coin()) b.path.push_back(conv::Msg::descriptor()->FindFieldByName("child"));
      b.path.push_back(conv::Msg::descriptor()->FindFieldByName(p.first));
      b.key = KeyOf(b.path);
      b.value = Long(c, p.second);
      q.bindings.push_back(b);
      bad = 0;
      vector<string> members;
      if (c.coin()) AddRight(c, &q, p.first, {}, &members);
      q.elements[0]->text = Object(members);
      fault.what = b.key + "=" + Show(b.value, 300);
      break;
    }
    case 4: {  // a stream that is no array, a message that is no object
      static const vector<const char*> k = {"5", "\"x\"", "true", "-1.5"};
      const string v = c.pick(k);
      if (q.streaming && c.coin()) {
        q.elements.clear();
        fault.what = v;
      } else {
        q.elements[bad]->text = fault.what = v;
      }
      break;
    }
    default: break;  // cut off
  }
  if (q.elements.empty()) {
    q.text = c.coin() ? "{\"name\":\"x\"}" : fault.what;
    bad = 0;
  } else {
    Assemble(c, &q, st);
  }
  if (kind == 5) {
    const size_t cut = 1 + c.below(q.text.size() - 1);
    if (q.text.size() < 2 || q.text.find_first_not_of(" \t\r\n") >= cut) return;
    q.text.resize(cut);
    fault.what = Format("cut off after %zu bytes", cut);
    bad = 0;
    while (bad < q.element_end.size() && q.element_end[bad] <= static_cast<int64_t>(cut)) bad++;
  }
  NoteRequest(c, q);
  c.note("fault: %s", fault.what.c_str());
  framing::Script script;
  script.content.Append(q.text);
  script.total = script.content.size();
  framing::ScriptedStream in(&script.content);
  JsonCuts(c, script.total, &in);
  if (c.coin()) in.arrived_ = script.total;
  pbt::Fresh<gt::JsonRequestTranslator> t_at(Helper().Resolver(), &in, Info(c, q), q.streaming, q.delimiters);
  gt::JsonRequestTranslator& t = *t_at;
  gt::MessageStream& out = t.Output();
  const bool as_bytes = q.delimiters && c.chance(1, 3);
  std::unique_ptr<gt::TranscoderInputStream> bytes;
  if (as_bytes) bytes = out.CreateInputStream();
  auto Poll = [&](string* m) {
    if (!as_bytes) return out.NextMessage(m);
    const void* data = nullptr;
    int size = 0;
    if (bytes->Next(&data, &size) && size > 0) {
      m->assign(static_cast<const char*>(data), static_cast<size_t>(size));
      return true;
    }
    return false;
  };
  size_t got = 0;
  for (int step = 0;; step++) {
    if (step > 3000 + static_cast<int>(script.total)) c.fail("no error after the whole input: " + fault.what);
    if (in.arrived_ < script.total) {
      if (step > 500 || c.coin()) in.arrived_ = step > 500 ? script.total : framing::GenArrival(c, script, in.arrived_);
    } else if (step > 500 || c.coin()) {
      in.finished_ = true;
    }
    const absl::Status before = out.Status();
    if (!before.ok()) break;
    string m = "stale";
    if (Poll(&m)) {
      if (got++ >= bad) c.fail(Format("message %zu comes out although only %zu elements are good (%s)", got - 1, bad, fault.what.c_str()));
      if (!out.Status().ok()) c.fail("a message and an error at once: " + out.Status().ToString());
    } else if (m != "stale") {
      c.fail("NextMessage changed its argument but returned false");
    }
    if (out.Finished() && out.Status().ok()) c.fail("finished without an error: " + fault.what);
  }
  const absl::Status err = out.Status();
  c.note("%s", err.ToString().c_str());
  if (err.code() != kCaller) c.fail("the caller's fault (" + fault.what + ") is reported as " + err.ToString());
  if (err.message().empty()) c.fail("an error without a message: " + fault.what);
  bool named = fault.names.empty();
  for (const string& s : fault.names) named = named || string(err.message()).find(s) != string::npos;
  if (!named) c.fail("the error for " + fault.what + " does not name the field: " + err.ToString());
  if (c.coin() && in.arrived_ < script.total) in.arrived_ = script.total;
  ExpectStays(c, err, out, in, Poll);
  static const vector<const char*> labels = {"bad value", "bad token", "conflict", "bad binding", "wrong kind", "cut off"};
  c.label(labels[static_cast<size_t>(kind)]);
  c.nontrivial(pbt::HashStr(q.text, pbt::HashStr(fault.what, q.streaming)));
}

// Responses: the server's fault.
PBT(C29, responses, 45000, 500000) {
  ChooseHelper(c);
  pbt::Fresh<gt::JsonResponseTranslateOptions> opts_at;
  gt::JsonResponseTranslateOptions& opts = *opts_at;
  const bool streaming = !c.chance(1, 4);
  opts.stream_newline_delimited = c.chance(1, 3);
  opts.json_print_options.always_print_primitive_fields = c.chance(1, 5);
  const size_t n = streaming ? 1 + c.size(4) : 1;
  const size_t bad = c.below(n);
  const int kind = static_cast<int>(c.weighted({4, 4, 4, 4, 1}));
  framing::Script script;
  string what;
  for (size_t i = 0; i < n; i++) {
    conv::Msg m;
    GenOpts o;
    o.fields = 3;
    GenMsg(c, &m, 2, o);
    string b = Det(m);
    framing::Frame f;
    if (i == bad && kind == 1) {
      static const vector<string> tails = {string(5, '\0'), string("\0\0\0\0\0\x02\x0a\0", 8), string("\x04\x08\x01", 3), string("\x0c\x08\x01", 3), string("\xca\x02\x02\x0a\x05", 5), string("\xca\x02\x01\x0d", 4)};
      b += c.pick(tails);
      what = "a body that is no message";
    }
    if (i == bad && kind == 1) {
      string j;
      if (Decodable("conv.Msg", b, opts.json_print_options, &j) != 0) return;  // the converter takes it after all
    }
    if (i == bad && kind == 2) {
      conv::Msg t;
      if (c.coin()) {
        t.mutable_time()->set_seconds(c.coin() ? 253402300800ll : -62135596801ll);
      } else {
        t.mutable_any_field()->set_type_url("type.googleapis.com/no.such.Type");
        t.mutable_any_field()->set_value(string("\x08\x01", 2));
      }
      b += Det(t);
      what = "a value that has no JSON form";
    }
    if (i == bad && kind == 0) {
      f.header[0] = static_cast<unsigned char>(1 + c.below(255));
      what = Format("flag %d", f.header[0]);
    }
    f.start = script.content.size();
    f.size = static_cast<uint32_t>(b.size());
    f.body = b;
    for (int k = 0; k < 4; k++) f.header[1 + k] = static_cast<unsigned char>(f.size >> (8 * (3 - k)));
    script.content.Append(string(reinterpret_cast<char*>(f.header), 5));
    script.content.Append(b);
    script.frames.push_back(f);
  }
  script.content.Merge();
  script.total = script.content.size();
  size_t good = bad;
  if (kind == 3) {
    good = n - 1;
    const framing::Frame& f = script.frames.back();
    script.total = f.start + 1 + static_cast<int64_t>(c.below(static_cast<uint64_t>(f.end() - f.start - 1)));
    what = Format("the last frame is cut off after %lld of %lld bytes", (long long)(script.total - f.start), (long long)(f.end() - f.start));
  }
  string type = "conv.Msg";
  if (kind == 4) {
    good = 0;
    type = c.pickc({"no.such.Type", "conv.Msg2", "Msg", ""});
    what = "type " + type;
  }
  framing::ScriptedStream in(&script.content);
  framing::GenCuts(c, script, &in);
  c.note("%s, %zu messages; %s in message %zu", streaming ? "streaming" : "unary", n, what.c_str(), good);
  pbt::Fresh<gt::ResponseToJsonTranslator> t_at(Helper().Resolver(), kUrl + type, streaming, &in, opts);
  gt::ResponseToJsonTranslator& t = *t_at;
  if (c.coin()) in.arrived_ = script.total;
  size_t got = 0;
  for (int step = 0;; step++) {
    if (step > 2000) c.fail("no error after the whole input: " + what);
    if (in.arrived_ < script.total) {
      if (step > 300 || c.coin()) in.arrived_ = step > 300 ? script.total : framing::GenArrival(c, script, in.arrived_);
    } else if (step > 300 || c.coin()) {
      in.finished_ = true;
    }
    if (!t.Status().ok()) break;
    string m = "stale";
    if (t.NextMessage(&m)) {
      if (got++ >= good) c.fail(Format("text %zu comes out, only %zu messages are good (%s): %s", got - 1, good, what.c_str(), Show(m, 200).c_str()));
      if (!t.Status().ok()) c.fail("text and an error at once: " + t.Status().ToString());
    } else if (m != "stale") {
      c.fail("NextMessage changed its argument but returned false");
    }
    if (t.Finished() && t.Status().ok()) c.fail("finished without an error: " + what);
  }
  const absl::Status err = t.Status();
  c.note("%s", err.ToString().c_str());
  if (got != good) c.fail(Format("%zu texts before the error, %zu messages are good (%s)", got, good, what.c_str()));
  // The conversion to JSON has its own ideas; what it takes is the server's fault.
  string j;
  auto own = kind == 1 || kind == 2 || kind == 4 ? Convert(type, script.frames[good].body, opts.json_print_options, &j).code() : absl::StatusCode::kInternal;
  if (own == absl::StatusCode::kOk) own = absl::StatusCode::kInternal;
  if (own != absl::StatusCode::kInternal) c.label("the conversion's code " + absl::StatusCodeToString(own));
  // (How far it gets with a damaged message depends on how the bytes arrive.)
  if (err.code() != own && !(kind == 1 && err.code() == absl::StatusCode::kInternal)) c.fail("the server's fault (" + what + ") is reported as " + err.ToString() + " instead of " + absl::StatusCodeToString(own));
  static const vector<const char*> labels = {"flag", "undecodable", "no JSON form", "cut off", "unknown type"};
  c.label(labels[static_cast<size_t>(kind)]);
  if (err.message().empty()) c.fail("an error without a message: " + what);
  ExpectStays(c, err, t, in, [&](string* m) { return t.NextMessage(m); });
  c.nontrivial(pbt::HashStr(what, n * 1000 + static_cast<uint64_t>(script.total)));
}

// Field paths that lead nowhere.
PBT(C29, paths, 200000, 5000000) {
  ChooseHelper(c);
  const pb::Type* type = TypeOf(conv::Msg::descriptor());
  vector<string> names;
  const pb::Descriptor* d = conv::Msg::descriptor();
  string culprit;
  const size_t depth = c.below(4);
  for (size_t i = 0; i < depth; i++) {
    const FD* f = nullptr;
    for (int k = 0; k < 50 && !f; k++) {
      const FD* g = d->field(static_cast<int>(c.below(static_cast<uint64_t>(d->field_count()))));
      if (PlainMessage(g)) f = g;
    }
    if (!f) return;
    names.push_back(c.coin() ? f->name() : f->json_name());
    d = f->message_type();
  }
  if (c.coin()) {
    static const vector<const char*> k = {"no_such_field", "Name", "name ", "%zz", "i32_fieldx", "*", "1", "namename"};
    culprit = c.pick(k);
    names.push_back(culprit);
    if (c.coin()) names.push_back("name");
  } else {
    const FD* f = nullptr;
    for (int k = 0; k < 80 && !f; k++) {
      const FD* g = d->field(static_cast<int>(c.below(static_cast<uint64_t>(d->field_count()))));
      if (g->cpp_type() != FD::CPPTYPE_MESSAGE) f = g;
    }
    if (!f) return;
    names.push_back(f->name());
    culprit = f->name();
    names.push_back("name");
  }
  string path;
  for (const string& s : names) path += (path.empty() ? "" : ".") + s;
  vector<const pb::Field*> out(1, nullptr);
  const absl::Status err = c.coin() ? Helper().ResolveFieldPath(*type, path, &out) : Helper().ResolveFieldPath(*type, names, &out);
  c.note("%s: %s", path.c_str(), err.ToString().c_str());
  if (err.ok()) c.fail("the path " + path + " is resolved");
  if (err.code() != kCaller) c.fail("the path " + path + " is reported as " + err.ToString());
  if (string(err.message()).find(culprit) == string::npos) c.fail("the error for the path " + path + " does not name " + culprit + ": " + err.ToString());
  c.nontrivial(pbt::HashStr(path));
}
