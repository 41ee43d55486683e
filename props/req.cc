// C19, C20, C21, C23: JSON requests with bindings to messages.
#include "req.h"

using namespace cv;

namespace {

void GenOptions(Case& c, Request* q) {
  ChooseHelper(c);
  q->streaming = c.chance(1, 3);
  q->delimiters = c.coin();
  q->enum_case = c.chance(1, 4);
}

uint64_t KeyHash(const Request& q) {
  uint64_t h = pbt::HashStr(q.text, q.streaming * 8 + q.delimiters * 4 + q.enum_case * 2 + q.reject);
  for (const Binding& b : q.bindings) h = pbt::HashStr(b.key + "=" + b.value, h);
  return pbt::HashStr(q.body_field_path, h);
}

}  // namespace

// Bindings into a body: the result is the body's message with the bound values
// written at their places.
PBT(C19, woven_message, 45000, 400000) {
  Request q;
  GenOptions(c, &q);
  if (c.chance(1, 3)) {
    GenBodyPath(c, &q);
  } else {
    q.body_field_path = c.coin() ? "*" : "";
  }
  GenOpts o;
  o.fields = c.coin() ? 7 : 3;
  Style st = GenStyle(c);
  size_t n = q.streaming ? 1 + c.size(2) : 1;
  for (size_t i = 0; i < n; i++) GenElement(c, &q, st, o);
  GenBindings(c, &q, 8, o);
  Assemble(c, &q, st);
  NoteRequest(c, q);
  q.first.CopyFrom(q.elements[0]->msg);
  Weave(q, q.elements[0].get(), &q.first);
  ExpectValid(c, q, Translate(c, q, q.text));
  if (q.bindings.empty()) return;
  size_t deep = 0;
  for (const Binding& b : q.bindings) deep += b.path.size() > 1;
  c.label(deep ? "with nested bindings" : "flat bindings only");
  if (q.bindings.size() > 1) c.label("several bindings");
  c.nontrivial(KeyHash(q));
}

namespace {

// What a body value looks like to the comparison.
struct Lit {
  enum Kind { kInt, kUint, kDouble, kBool, kString } kind;
  int64_t i = 0;
  uint64_t u = 0;
  double d = 0;
  bool b = false;
  string s;
};

}  // namespace

// The body and a binding set the same field.
PBT(C20, collision_in_request, 60000, 400000) {
  Request q;
  GenOptions(c, &q);
  q.enum_case = false;
  q.reject = !c.chance(1, 4);
  // Where: the root message or a nested one.
  Path path;
  static const vector<vector<const char*>> prefixes = {{}, {"child"}, {"inner", "back"}, {"second_child", "child"}, {"child", "inner", "back"}};
  const pb::Descriptor* d = conv::Msg::descriptor();
  for (const char* s : c.pick(prefixes)) {
    path.push_back(d->FindFieldByName(s));
    d = path.back()->message_type();
  }
  static const vector<const char*> leaves = {"i32_field", "i64_field", "u32_field", "u64_field", "s32_field", "s64_field", "f32", "f64", "sf32", "sf64", "float_field", "double_field", "bool_field", "name",
                                             "renamed", "color", "opt_num", "opt_text", "i64_wrap", "u64_wrap", "string_wrap", "bool_wrap", "double_wrap", "raw_bytes"};
  const FD* leaf = conv::Msg::descriptor()->FindFieldByName(c.pick(leaves));
  path.push_back(leaf);
  // Two values that the field accepts.
  GenOpts o;
  o.known_enums = true;
  conv::Msg va, vb;
  for (conv::Msg* v : {&va, &vb}) {
    for (;;) {
      v->Clear();
      GenFieldValue(c, v, leaf, 0, o);
      const FD* f = leaf;
      const Message* m = v;
      if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
        m = &m->GetReflection()->GetMessage(*m, f);
        f = m->GetDescriptor()->field(0);
      }
      if (f->cpp_type() == FD::CPPTYPE_DOUBLE && !std::isfinite(m->GetReflection()->GetDouble(*m, f))) continue;
      if (f->cpp_type() == FD::CPPTYPE_FLOAT && !std::isfinite(m->GetReflection()->GetFloat(*m, f))) continue;
      break;
    }
  }
  const bool same = c.coin();
  if (same) vb.CopyFrom(va);
  const string ta = LeafText(c, va, leaf, false);
  const string tb = same && c.chance(3, 4) ? ta : LeafText(c, vb, leaf, false);
  const FD* sf = leaf->cpp_type() == FD::CPPTYPE_MESSAGE ? leaf->message_type()->field(0) : leaf;
  // The body's literal.
  Lit lit;
  string text;
  const bool numeric = sf->cpp_type() != FD::CPPTYPE_STRING && sf->cpp_type() != FD::CPPTYPE_BOOL && sf->cpp_type() != FD::CPPTYPE_ENUM;
  const bool real = sf->cpp_type() == FD::CPPTYPE_DOUBLE || sf->cpp_type() == FD::CPPTYPE_FLOAT;
  if (numeric && !c.chance(1, 3)) {
    text = ta;
    if (real && ta.find_first_of(".eE") != string::npos) {
      lit.kind = Lit::kDouble;
      lit.d = strtod(ta.c_str(), nullptr);
    } else if (ta[0] == '-') {
      lit.kind = Lit::kInt;
      lit.i = strtoll(ta.c_str(), nullptr, 10);
      if (real && Format("%lld", static_cast<long long>(lit.i)) != ta) return;  // an integer literal out of range
    } else {
      lit.kind = Lit::kUint;
      lit.u = strtoull(ta.c_str(), nullptr, 10);
      if (real && Format("%llu", static_cast<unsigned long long>(lit.u)) != ta) return;
    }
  } else if (sf->cpp_type() == FD::CPPTYPE_BOOL && !c.chance(1, 4)) {
    text = ta;
    lit.kind = Lit::kBool;
    lit.b = ta == "true";
  } else if (sf->cpp_type() == FD::CPPTYPE_ENUM && (ta[0] == '-' || (ta[0] >= '0' && ta[0] <= '9'))) {
    text = ta;
    lit.kind = Lit::kInt;
    lit.i = strtoll(ta.c_str(), nullptr, 10);
  } else {
    lit.kind = Lit::kString;
    lit.s = ta;
    Style plain;
    Printer(c, plain, &text).Str(ta);
  }
  // Do they differ? 1 yes, 0 no, -1 too close to call.
  int differ;
  char* end = nullptr;
  errno = 0;
  switch (lit.kind) {
    case Lit::kInt: {
      long long v = strtoll(tb.c_str(), &end, 10);
      differ = *end || tb.empty() || errno || v != lit.i;
      break;
    }
    case Lit::kUint: {
      unsigned long long v = strtoull(tb.c_str(), &end, 10);
      differ = *end || tb.empty() || tb[0] == '-' || errno || v != lit.u;
      if (tb == "-0") differ = -1;
      break;
    }
    case Lit::kDouble: {
      double v = strtod(tb.c_str(), &end);
      const double gap = std::fabs(v - lit.d), big = std::max(std::fabs(v), std::fabs(lit.d));
      differ = v == lit.d ? 0 : gap > 1e-4 && (std::isinf(gap) || gap > 1e-3 * big) ? 1 : -1;
      break;
    }
    case Lit::kBool: differ = (tb == "true") != lit.b; break;
    default: differ = tb != lit.s; break;
  }
  // {"child":{"name":...}}, as the first of one or two elements.
  q.body_field_path = c.coin() ? "*" : "";
  string body = text;
  for (size_t i = path.size(); i-- > 0;) {
    string name;
    Style plain;
    Printer(c, plain, &name).Str(c.coin() ? path[i]->json_name() : path[i]->name());
    string other = c.chance(1, 4) && path[i] != leaf ? "\"name\":\"x\"," : "";
    body = "{" + other + name + ":" + body + "}";
  }
  if (q.streaming && c.coin()) body += ",{\"name\":\"second\"}";
  q.text = q.streaming ? "[" + body + "]" : body;
  Binding b;
  b.path = path;
  b.key = KeyOf(path);
  b.value = tb;
  q.bindings.push_back(b);
  // The same field bound once more, to one of the two values.
  if (ta == tb ? c.chance(1, 6) : differ == 1 && c.chance(1, 4)) {
    b.value = c.coin() ? ta : tb;
    q.bindings.insert(q.bindings.begin() + static_cast<long>(c.below(2)), b);
  }
  NoteRequest(c, q);
  Outcome r = Translate(c, q, q.text);
  if (q.reject && differ == 1) {
    if (r.status.ok()) c.fail(Format("%s is %s in the body and %s in the binding, but the request is accepted", b.key.c_str(), text.c_str(), Show(tb).c_str()));
  } else if (!q.reject || differ == 0) {
    if (!r.status.ok()) c.fail(Format("%s is %s in the body and %s in the binding%s: rejected with %s", b.key.c_str(), text.c_str(), Show(tb).c_str(), q.reject ? "" : ", rejection is off", r.status.ToString().c_str()));
    // The body's value stays.
    conv::Msg got;
    if (r.messages.empty()) c.fail("no message");
    got.ParsePartialFromString(Payload(c, q, r.messages[0]));
    const Message* m = &got;
    for (size_t i = 0; i + 1 < path.size(); i++) m = &m->GetReflection()->GetMessage(*m, path[i]);
    conv::Msg only;
    if (m->GetReflection()->HasField(*m, leaf)) CopyLeaf(*m, &only, leaf);
    conv::Msg want;
    want.ParsePartialFromString(Det(va));
    if (Det(only) != Det(want)) c.fail(Format("the body sets %s, the message has { %s } (binding %s)", text.c_str(), Text(only).c_str(), Show(tb).c_str()));
  }
  c.label(!q.reject ? "rejection off" : differ == 1 ? "different" : differ == 0 ? "equal" : "close");
  c.nontrivial(KeyHash(q));
}

// The body under a path, without bindings.
PBT(C21, body_at_path, 45000, 400000) {
  Request q;
  GenOptions(c, &q);
  GenBodyPath(c, &q);
  if (q.body_path.empty()) {
    q.body_path.push_back(conv::Msg::descriptor()->FindFieldByName("child"));
    q.body_field_path = "child";
  }
  GenOpts o;
  Style st = GenStyle(c);
  size_t n = q.streaming ? c.size(4) : 1;
  for (size_t i = 0; i < n; i++) GenElement(c, &q, st, o);
  Assemble(c, &q, st);
  NoteRequest(c, q);
  if (n) q.first.CopyFrom(q.elements[0]->msg);
  ExpectValid(c, q, Translate(c, q, q.text));
  const FD* leaf = q.body_path.back();
  c.label(leaf->is_map() ? "map" : leaf->is_repeated() ? "list" : leaf->cpp_type() == FD::CPPTYPE_MESSAGE ? "object" : "scalar");
  if (n) c.nontrivial(KeyHash(q));
}

// Valid requests of every kind.
PBT(C23, valid_request, 45000, 400000) {
  Request q;
  GenOptions(c, &q);
  if (c.coin()) GenBodyPath(c, &q); else q.body_field_path = c.coin() ? "*" : "";
  GenOpts o;
  o.fields = c.chance(1, 6) ? 20 : 6;
  Style st = GenStyle(c);
  size_t n = q.streaming ? c.size(c.chance(1, 10) ? 30 : 4) : 1;
  bool empty_input = false;
  if (!q.streaming && c.chance(1, 12) && (q.body_path.empty() || (PlainMessage(q.body_path.back()) && !q.body_path.back()->is_repeated()))) {
    // No input at all stands for {}.
    empty_input = true;
    q.elements.emplace_back(new Element);
    Message* m = &q.elements[0]->msg;
    for (const FD* f : q.body_path) m = m->GetReflection()->MutableMessage(m, f);
  } else {
    for (size_t i = 0; i < n; i++) GenElement(c, &q, st, o);
  }
  if (c.chance(1, 3)) GenBindings(c, &q, 3, o);
  if (!empty_input) Assemble(c, &q, st);
  NoteRequest(c, q);
  if (!q.elements.empty()) {
    q.first.CopyFrom(q.elements[0]->msg);
    Weave(q, q.elements[0].get(), &q.first);
  }
  ExpectValid(c, q, Translate(c, q, q.text));
  c.label(q.streaming ? "streaming" : empty_input ? "empty input" : "unary");
  c.nontrivial(KeyHash(q));
}

// Requests of other types. The converter itself says what a text stands for;
// the text is its own, and it has to read it back.
PBT(C23, other_types, 12000, 120000) {
  Request q;
  GenOptions(c, &q);
  q.reject = false;
  q.enum_case = false;
  ChosenHelper() = &PoolHelper();
  GenOpts o;
  o.known_enums = true;
  pb::util::JsonPrintOptions p;
  p.add_whitespace = c.chance(1, 4);
  p.always_print_enums_as_ints = c.chance(1, 4);
  p.preserve_proto_field_names = c.chance(1, 3);
  auto first = GenOther(c, 3, o);
  vector<std::unique_ptr<Message>> want;
  string text;
  const size_t n = q.streaming ? c.size(5) : 1;
  for (size_t i = 0; i < n; i++) {
    std::unique_ptr<Message> m(first->New());
    if (i == 0) m->CopyFrom(*first);
    else if (!c.chance(1, 4)) GenSub(c, m.get(), 3, o);
    string json;
    std::unique_ptr<Message> back(m->New());
    // Not all messages have a text.
    if (!m->IsInitialized() || !pb::util::MessageToJsonString(*m, &json, p).ok() || !pb::util::JsonStringToMessage(json, back.get()).ok() || !Same(*m, *back)) {
      c.label("without a text");
      return;
    }
    text += (q.streaming ? i ? "," : "[" : "") + json;
    want.push_back(std::move(back));
  }
  if (q.streaming) text += n ? "]" : "[]";
  pbt::Fresh<gt::RequestInfo> info_at;
  gt::RequestInfo& info = *info_at;
  info.message_type = TypeOf(first->GetDescriptor());
  info.body_field_path = c.coin() ? "*" : "";
  const string type(first->GetDescriptor()->full_name());
  c.note("%s, %s%s: %s", type.c_str(), q.streaming ? "streaming" : "unary", q.delimiters ? ", delimiters" : "", Show(text, 2500).c_str());
  const Outcome r = Translate(c, q, text, &info);
  if (!r.status.ok()) c.fail("error for a valid " + type + ": " + r.status.ToString());
  if (r.messages.size() != n) c.fail(Format("%zu messages for %zu elements", r.messages.size(), n));
  if (!r.finished) c.fail("not Finished() at the end of a valid request");
  for (size_t i = 0; i < n; i++) {
    std::unique_ptr<Message> got(first->New());
    const string body = Payload(c, q, r.messages[i]);
    if (!got->ParsePartialFromString(body) || !Same(*got, *want[i])) c.fail(Format("%s %zu is { %s }, expected { %s }", type.c_str(), i, Text(*got).c_str(), Text(*want[i]).c_str()));
  }
  c.label(type.c_str());
  c.nontrivial(pbt::HashStr(text, pbt::HashStr(type, q.streaming * 2 + q.delimiters)));
}

// Long messages, so that every byte of the length matters.
PBT(C23, long_message, 120, 800) {
  Request q;
  q.delimiters = true;
  q.streaming = c.coin();
  q.body_field_path = "*";
  size_t n = q.streaming ? 2 : 1;
  for (size_t i = 0; i < n; i++) {
    q.elements.emplace_back(new Element);
    Element* e = q.elements.back().get();
    static const vector<uint64_t> sizes = {100, 250, 253, 254, 255, 256, 300, 65000, 65533, 65536, 70000, 131072, 16777216, 17000000};
    size_t len = c.pick(sizes) + c.below(300);
    if (c.chance(1, 2)) len = c.below(200000);
    e->msg.set_name(string(len, static_cast<char>('a' + c.below(26))));
    e->text = "{\"name\":\"" + e->msg.name() + "\"}";
    c.note("a name of %zu bytes", len);
  }
  Style st;
  Assemble(c, &q, st);
  q.first.CopyFrom(q.elements[0]->msg);
  pb::io::ArrayInputStream in(q.text.data(), static_cast<int>(q.text.size()), c.coin() ? 4096 + static_cast<int>(c.below(100000)) : -1);
  pbt::Fresh<gt::JsonRequestTranslator> t_at(Helper().Resolver(), &in, Info(c, q), q.streaming, q.delimiters);
  gt::JsonRequestTranslator& t = *t_at;
  Outcome r;
  string m;
  for (int polls = 0; polls < 20 && !t.Output().Finished(); polls++)
    while (t.Output().NextMessage(&m)) r.messages.push_back(m);
  r.status = t.Output().Status();
  r.finished = t.Output().Finished();
  for (size_t i = 0; i < r.messages.size(); i++) Payload(c, q, r.messages[i]);
  ExpectValid(c, q, r);
  c.nontrivial(pbt::Mix(q.text.size() * 2 + q.streaming));
}

// Very many small elements, which arrive in one piece or in a few.
PBT(C23, many_elements, 400, 4000) {
  Request q;
  q.delimiters = c.coin();
  q.streaming = true;
  q.body_field_path = "*";
  static const vector<uint64_t> counts = {60, 100, 127, 128, 129, 200, 250, 256, 257, 300, 500, 512, 513, 1000, 1024, 1025, 1500, 2047, 2049, 4097};
  size_t n = c.pick(counts) + c.below(4);
  if (n > 1100 && !c.chance(1, 4)) n %= 1000;
  n = std::max<size_t>(n, 1);
  int form = static_cast<int>(c.below(4));
  for (size_t i = 0; i < n; i++) {
    q.elements.emplace_back(new Element);
    Element* e = q.elements.back().get();
    string name = form == 0 ? "" : form == 1 ? "x" : std::to_string(i);
    if (form == 3 && i % 2) name += string(i % 40, 'y');
    if (!name.empty()) e->msg.set_name(name);
    e->text = name.empty() ? "{}" : "{\"name\":\"" + name + "\"}";
  }
  Style st;
  Assemble(c, &q, st);
  q.first.CopyFrom(q.elements[0]->msg);
  static const vector<uint64_t> blocks = {1, 7, 64, 1000, 4096, 10000, 65536};
  int block = c.coin() ? -1 : static_cast<int>(c.pick(blocks));
  c.note("%zu elements of form %d, blocks of %d bytes, %zu bytes", n, form, block, q.text.size());
  pb::io::ArrayInputStream in(q.text.data(), static_cast<int>(q.text.size()), block);
  pbt::Fresh<gt::JsonRequestTranslator> t_at(Helper().Resolver(), &in, Info(c, q), q.streaming, q.delimiters);
  gt::JsonRequestTranslator& t = *t_at;
  Outcome r;
  string m;
  bool lazy = c.coin();  // take one message at a time, or all there are
  for (size_t polls = 0; polls < n + 20 && !t.Output().Finished(); polls++) {
    while (t.Output().NextMessage(&m)) {
      r.messages.push_back(m);
      if (lazy) break;
    }
  }
  r.status = t.Output().Status();
  r.finished = t.Output().Finished();
  for (size_t i = 0; i < r.messages.size(); i++) Payload(c, q, r.messages[i]);
  ExpectValid(c, q, r);
  c.label(n > 1000 ? "over 1000 elements" : n > 128 ? "over 128 elements" : "up to 128 elements");
  c.nontrivial(pbt::HashStr(q.text, static_cast<uint64_t>(block)));
}

// Requests with something wrong in them.
PBT(C23, faulty_request, 45000, 400000) {
  Request q;
  GenOptions(c, &q);
  q.enum_case = false;
  q.body_field_path = "*";
  GenOpts o;
  Style st = GenStyle(c);
  size_t n = q.streaming ? 1 + c.size(3) : 1;
  for (size_t i = 0; i < n; i++) GenElement(c, &q, st, o);
  size_t bad = c.below(n);
  int fault = static_cast<int>(c.weighted({3, 2, 2}));  // 0 truncation, 1 bad value, 2 bad token
  string what;
  Element* e = q.elements[bad].get();
  if (fault == 1) {
    static const vector<std::pair<const char*, const char*>> k = {
        {"i32_field", "\"abc\""}, {"i32_field", "2147483648"}, {"i32_field", "-2147483649"}, {"i32_field", "1.5"}, {"i32_field", "\"2147483648\""}, {"i32_field", "true"},
        {"u32_field", "-1"}, {"u32_field", "4294967296"}, {"u32_field", "\"4294967296\""}, {"i64_field", "9223372036854775808"}, {"i64_field", "\"9223372036854775808\""}, {"i64_field", "1e30"},
        {"u64_field", "18446744073709551616"}, {"u64_field", "\"18446744073709551616\""}, {"u64_field", "-1"}, {"sf32", "2147483648"}, {"f32", "4294967296"}, {"s32_field", "1e10"}, {"f64", "\"x\""},
        {"float_field", "1e39"}, {"float_field", "\"abc\""}, {"double_field", "\"abc\""}, {"double_field", "true"}, {"bool_field", "\"maybe\""}, {"bool_field", "2"},
        {"color", "\"NO_SUCH_COLOR\""}, {"color", "\"red\""}, {"color", "true"}, {"name", "12"}, {"name", "true"},
        {"time", "\"not a time\""}, {"time", "\"2020-13-01T00:00:00Z\""}, {"time_span", "\"5\""}, {"i32_list", "[1,\"x\"]"}, {"color_list", "[\"RED\",\"nope\"]"},
        {"child", "5"}, {"child", "\"x\""}, {"inner", "true"}, {"labels", "[1]"}, {"inner_map", "{\"x\":{}}"}, {"bool_map", "{\"maybe\":1}"}, {"i32_wrap", "\"abc\""}, {"i64_wrap", "1.5"}, {"any_field", "{\"@type\":\"no/such.Type\",\"a\":1}"}};
    const auto& p = c.pick(k);
    // Possibly nested.
    string v = string("{\"") + p.first + "\":" + p.second + "}";
    static const vector<const char*> wrap = {"", "child", "items", "second_child"};
    const string w = c.pick(wrap);
    if (!w.empty()) v = "{\"" + w + "\":" + (w == "items" ? "[{}," + v + "]" : v) + "}";
    e->text = v;
    what = v;
  } else if (fault == 2) {
    static const vector<const char*> k = {"{\"name\":tru}", "{\"name\":nul}", "{\"name\" \"x\"}", "{\"name\":\"x\" \"color\":1}", "{\"name\":\"x\"]", "{\"i32_list\":[1 2]}", "{\"i32_list\":[1}", "{@}", "{\"name\":\"\\u12\"}",
                                          "{\"name\":\"\\uD800\"", "{:1}", "{\"name\":}", "{\"i32_field\":-}", "{\"i32_field\":1e}", "{\"i32_field\":--1}"};
    e->text = c.pick(k);
    what = e->text;
  }
  Assemble(c, &q, st);
  size_t good = q.elements.size();  // elements that can come out
  string text = q.text;
  if (fault == 0) {
    if (text.size() < 2) return;
    // Somewhere before the closing bracket, keeping at least one token.
    size_t cut = 1 + c.below(text.size() - 1);
    text.resize(cut);
    what = Format("cut after %zu of %zu bytes", cut, q.text.size());
    if (q.streaming) {
      good = 0;
      while (good < q.element_end.size() && q.element_end[good] <= static_cast<int64_t>(cut)) good++;
    } else {
      good = 0;
    }
  } else {
    good = q.streaming ? bad : 0;
  }
  q.text = text;
  NoteRequest(c, q);
  c.note("fault: %s", what.c_str());
  q.first.CopyFrom(q.elements[0]->msg);
  Outcome r = Translate(c, q, text);
  for (size_t i = 0; i < r.messages.size(); i++) {
    if (i >= good) c.fail(Format("message %zu comes out although only %zu elements are good: %s (%s)", i, good, Show(r.messages[i], 300).c_str(), what.c_str()));
    ExpectMessage(c, q, i, r.messages[i], q.elements[i]->msg);
  }
  if (r.status.ok()) c.fail("no error status for a faulty request: " + what);
  if (!r.finished) c.fail("not Finished() after an error: " + what);
  c.label(fault == 0 ? "truncated" : fault == 1 ? "bad value" : "bad token");
  c.nontrivial(KeyHash(q));
}

// Requests whose outermost value, or the value of one element, is of the wrong
// kind for its place.
PBT(C23, wrong_kind, 30000, 200000) {
  Request q;
  GenOptions(c, &q);
  q.enum_case = false;
  GenOpts o;
  Style st = GenStyle(c);
  const int kind = static_cast<int>(c.below(q.streaming ? 4 : 2));
  string what;
  size_t good = 0;
  if (kind == 0) {
    // A value that is no object, where a message is expected.
    q.body_field_path = c.coin() ? "*" : "";
    static const vector<const char*> k = {"null", "5", "\"x\"", "true", "[]", "[{}]", "-1.5", "[[]]", "\"\"", " ", "\n\t"};
    what = c.pick(k);
    if (q.streaming && what.find_first_not_of(" \n\t") == string::npos) what = "null";  // nothing at all between the commas
  } else if (kind == 1) {
    // A value that does not suit the field the body goes to.
    static const vector<std::pair<const char*, vector<const char*>>> k = {
        {"child", {"5", "\"x\"", "[]", "[{}]", "true"}}, {"inner", {"7", "\"\"", "[1]"}}, {"child.inner", {"5", "\"x\"", "[]"}}, {"i32_field", {"{}", "[]", "\"x\"", "{\"a\":1}", "true"}}, {"name", {"{}", "[]", "[\"x\"]", "5"}},
        {"color", {"{}", "[]", "\"PURPLE\"", "true"}}, {"child.name", {"{}", "[]", "false"}}, {"bool_field", {"{}", "[]", "2", "\"x\""}}, {"string_list", {"{}", "{\"a\":\"b\"}", "5"}}, {"double_field", {"{}", "[]", "\"x\""}}};
    const auto& p = c.pick(k);
    q.body_field_path = p.first;
    what = c.pick(p.second);
  } else if (kind == 2) {
    // A stream that is no array.
    q.body_field_path = c.coin() ? "*" : "";
    static const vector<const char*> k = {"null", "5", "\"x\"", "{}", "{\"name\":\"x\"}", "true", "{\"name\":[{}]}", "", " ", "\n\t"};
    what = c.pick(k);
  } else {
    // An array whose elements are not separated as they should be.
    q.body_field_path = c.coin() ? "*" : "";
    static const vector<const char*> k = {"[,{}]", "[,]", "[{}{}]", "[{}:{}]", "[{}}", "[{},", "[{} x", "[{},,{}]", "[}", "["};
    what = c.pick(k);
  }
  if (q.streaming && kind < 2) {
    const size_t n = q.body_field_path == "*" || q.body_field_path.empty() ? c.size(3) : 0;
    for (size_t i = 0; i < n; i++) GenElement(c, &q, st, o);
    q.text = "[";
    for (size_t i = 0; i < n; i++) q.text += q.elements[i]->text + ",";
    q.text += what;
    if (c.coin()) q.text += ",{}";
    q.text += "]";
    good = n;
  } else {
    q.text = what;
    if (kind == 3 && q.text.compare(0, 3, "[{}") == 0) {
      good = 1;
      q.elements.emplace_back(new Element);
    }
  }
  NoteRequest(c, q);
  if (!q.elements.empty()) q.first.CopyFrom(q.elements[0]->msg);
  Outcome r = Translate(c, q, q.text);
  for (size_t i = 0; i < r.messages.size(); i++) {
    if (i >= good) c.fail(Format("message %zu comes out although only %zu elements are good: %s (%s)", i, good, Show(r.messages[i], 300).c_str(), what.c_str()));
    ExpectMessage(c, q, i, r.messages[i], q.elements[i]->msg);
  }
  if (r.status.ok()) c.fail("no error status for a request of the wrong kind: " + what);
  if (!r.finished) c.fail("not Finished() after an error: " + what);
  static const vector<const char*> labels = {"not an object", "not for the field", "not an array", "separators"};
  c.label(labels[kind]);
  c.nontrivial(KeyHash(q));
}
