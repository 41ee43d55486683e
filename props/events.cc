// C26: requests given as object-writer events instead of JSON text.
#include "grpc_transcoding/request_stream_translator.h"
#include "req.h"

namespace {

using namespace cv;
typedef pb::util::converter::ObjectWriter Writer;

const char* const kCalls[] = {"bool", "int32", "uint32", "int64", "uint64", "double", "float", "string", "bytes", "null"};

// One event.
struct Event {
  enum Kind { kStartObject, kEndObject, kStartList, kEndList, kBool, kInt32, kUint32, kInt64, kUint64, kDouble, kFloat, kString, kBytes, kNull } kind = kNull;
  string name, s;
  int64_t i = 0;
  uint64_t u = 0;
  double d = 0;
  size_t element = 0;  // the streamed element it belongs to
  bool last = false;   // of its element
};

string ShowEvent(const Event& e) {
  switch (e.kind) {
    case Event::kStartObject: return Show(e.name) + "{";
    case Event::kEndObject: return "}";
    case Event::kStartList: return Show(e.name) + "[";
    case Event::kEndList: return "]";
    case Event::kString:
    case Event::kBytes: return Show(e.name) + "=" + kCalls[e.kind - Event::kBool] + Show(e.s, 60);
    case Event::kDouble:
    case Event::kFloat: return Show(e.name) + Format("=%s %.17g", kCalls[e.kind - Event::kBool], e.d);
    case Event::kUint32:
    case Event::kUint64: return Show(e.name) + Format("=%s %llu", kCalls[e.kind - Event::kBool], (unsigned long long)e.u);
    default: return Show(e.name) + Format("=%s %lld", kCalls[e.kind - Event::kBool], (long long)e.i);
  }
}

// The names and texts live only as long as the call.
void Send(const Event& e, Writer* w) {
  const std::unique_ptr<string> n(new string(e.name)), s(new string(e.s));
  switch (e.kind) {
    case Event::kStartObject: w->StartObject(*n); break;
    case Event::kEndObject: w->EndObject(); break;
    case Event::kStartList: w->StartList(*n); break;
    case Event::kEndList: w->EndList(); break;
    case Event::kBool: w->RenderBool(*n, e.i != 0); break;
    case Event::kInt32: w->RenderInt32(*n, static_cast<int32_t>(e.i)); break;
    case Event::kUint32: w->RenderUint32(*n, static_cast<uint32_t>(e.u)); break;
    case Event::kInt64: w->RenderInt64(*n, e.i); break;
    case Event::kUint64: w->RenderUint64(*n, e.u); break;
    case Event::kDouble: w->RenderDouble(*n, e.d); break;
    case Event::kFloat: w->RenderFloat(*n, static_cast<float>(e.d)); break;
    case Event::kString: w->RenderString(*n, *s); break;
    case Event::kBytes: w->RenderBytes(*n, *s); break;
    case Event::kNull: w->RenderNull(*n); break;
  }
}

class Describe {
 public:
  Describe(Case& c, vector<Event>* out) : c_(c), out_(out) {}

  void Message_(const string& name, const Message& m) {
    Put(Event::kStartObject, name);
    const Reflection* r = m.GetReflection();
    vector<const FD*> fs;
    r->ListFields(m, &fs);
    for (size_t i = fs.size(); i > 1; i--)
      if (c_.chance(1, 3)) std::swap(fs[i - 1], fs[c_.below(i)]);
    for (const FD* f : fs) {
      const string n = c_.coin() ? f->json_name() : f->name();
      Field(n, m, f);
    }
    Put(Event::kEndObject, "");
  }
  void Field(const string& n, const Message& m, const FD* f) {
    const Reflection* r = m.GetReflection();
    if (f->is_map()) {
      Put(Event::kStartObject, n);
      const FD *k = f->message_type()->map_key(), *v = f->message_type()->map_value();
      for (int i = 0; i < r->FieldSize(m, f); i++) {
        const Message& e = r->GetRepeatedMessage(m, f, i);
        Value(KeyText(e, k), e, v, -1);
      }
      Put(Event::kEndObject, "");
    } else if (f->is_repeated()) {
      Put(Event::kStartList, n);
      for (int i = 0; i < r->FieldSize(m, f); i++) Value("", m, f, i);
      Put(Event::kEndList, "");
    } else {
      Value(n, m, f, -1);
    }
  }

 private:
  Event& Put(Event::Kind k, const string& n) {
    out_->emplace_back();
    out_->back().kind = k;
    out_->back().name = n;
    return out_->back();
  }
  string KeyText(const Message& e, const FD* k) {
    const Reflection* r = e.GetReflection();
    switch (k->cpp_type()) {
      case FD::CPPTYPE_INT32: return Format("%d", r->GetInt32(e, k));
      case FD::CPPTYPE_UINT64: return Format("%llu", (unsigned long long)r->GetUInt64(e, k));
      case FD::CPPTYPE_BOOL: return r->GetBool(e, k) ? "true" : "false";
      default: return r->GetString(e, k);
    }
  }
  void Signed(const string& n, int64_t v) {
    vector<Event::Kind> ok = {Event::kInt64};
    if (v == static_cast<int32_t>(v)) ok.push_back(Event::kInt32);
    if (v >= 0) ok.push_back(Event::kUint64);
    if (v >= 0 && v <= 0xffffffffll) ok.push_back(Event::kUint32);
    if (v >= -(1ll << 53) && v <= 1ll << 53) ok.push_back(Event::kDouble);
    if (v >= -(1ll << 24) && v <= 1ll << 24) ok.push_back(Event::kFloat);
    ok.push_back(Event::kString);
    Event& e = Put(c_.pick(ok), n);
    e.i = v;
    e.u = static_cast<uint64_t>(v);
    e.d = static_cast<double>(v);
    e.s = Format("%lld", (long long)v);
  }
  void Unsigned(const string& n, uint64_t v) {
    if (v <= 0x7fffffffffffffffull) {
      Signed(n, static_cast<int64_t>(v));
      return;
    }
    Event& e = Put(c_.coin() ? Event::kUint64 : Event::kString, n);
    e.u = v;
    e.s = Format("%llu", (unsigned long long)v);
  }
  void Real(const string& n, double v, bool single) {
    vector<Event::Kind> ok = {Event::kDouble};
    if (single || v == static_cast<double>(static_cast<float>(v))) ok.push_back(Event::kFloat);
    if (!std::isfinite(v)) ok = {Event::kString, Event::kDouble};
    else ok.push_back(Event::kString);
    if (std::isfinite(v) && v == std::floor(v) && std::fabs(v) < 1e6 && !(v == 0 && std::signbit(v))) ok.push_back(v >= 0 ? Event::kUint32 : Event::kInt32), ok.push_back(Event::kInt64);
    Event& e = Put(c_.pick(ok), n);
    e.d = v;
    e.i = std::isfinite(v) && std::fabs(v) < 1e6 ? static_cast<int64_t>(v) : 0;
    e.u = e.i >= 0 ? static_cast<uint64_t>(e.i) : 0;
    e.s = std::isnan(v) ? "NaN" : std::isinf(v) ? (v > 0 ? "Infinity" : "-Infinity") : Format(single ? "%.9g" : "%.17g", v);
  }
  void Value(const string& n, const Message& m, const FD* f, int i) {
    const Reflection* r = m.GetReflection();
#define GET(T) (i < 0 ? r->Get##T(m, f) : r->GetRepeated##T(m, f, i))
    switch (f->cpp_type()) {
      case FD::CPPTYPE_INT32: Signed(n, GET(Int32)); break;
      case FD::CPPTYPE_INT64: Signed(n, GET(Int64)); break;
      case FD::CPPTYPE_UINT32: Unsigned(n, GET(UInt32)); break;
      case FD::CPPTYPE_UINT64: Unsigned(n, GET(UInt64)); break;
      case FD::CPPTYPE_DOUBLE: Real(n, GET(Double), false); break;
      case FD::CPPTYPE_FLOAT: Real(n, static_cast<double>(GET(Float)), true); break;
      case FD::CPPTYPE_BOOL: {
        const bool v = GET(Bool);
        Event& e = Put(c_.chance(1, 4) ? Event::kString : Event::kBool, n);
        e.i = v;
        e.s = v ? "true" : "false";
        break;
      }
      case FD::CPPTYPE_ENUM: {
        const int v = GET(EnumValue);
        const auto* d = f->enum_type()->FindValueByNumber(v);
        Event& e = Put(d && c_.coin() ? Event::kString : c_.coin() ? Event::kInt32 : Event::kInt64, n);
        e.i = v;
        if (d) e.s = d->name();
        break;
      }
      case FD::CPPTYPE_STRING: {
        const string v = GET(String);
        if (f->type() != FD::TYPE_BYTES) {
          Put(Event::kString, n).s = v;
        } else if (c_.coin()) {
          Put(Event::kBytes, n).s = v;
        } else {
          Put(Event::kString, n).s = Base64Text(c_, v);
        }
        break;
      }
      case FD::CPPTYPE_MESSAGE: {
        const Message& s = i < 0 ? r->GetMessage(m, f) : r->GetRepeatedMessage(m, f, i);
        if (IsWrapper(s.GetDescriptor())) {
          Value(n, s, s.GetDescriptor()->field(0), -1);
        } else if (IsStringWkt(s.GetDescriptor())) {
          const string t = JsonText(s);
          Put(Event::kString, n).s = t.substr(1, t.size() - 2);
        } else {
          Message_(n, s);
        }
        break;
      }
    }
#undef GET
  }
  Case& c_;
  vector<Event>* out_;
};

struct Doc {
  Request q;
  vector<Event> events;
};

void GenDoc(Case& c, Doc* d, bool streaming) {
  Request& q = d->q;
  ChooseHelper(c);
  q.streaming = streaming;
  q.delimiters = c.coin();
  q.reject = c.chance(1, 6);
  GenOpts o;
  o.any = o.structs = false;
  o.fields = c.chance(1, 6) ? 20 : 6;
  if (c.coin()) {
    do {
      GenBodyPath(c, &q);
    } while (!q.body_path.empty() && q.body_path.back()->message_type() && IsWkt(q.body_path.back()->message_type()));
  } else {
    q.body_field_path = c.coin() ? "*" : "";
  }
  const size_t n = streaming ? c.size(c.chance(1, 10) ? 20 : 4) : 1;
  for (size_t i = 0; i < n; i++) {
    q.elements.emplace_back(new Element);
    Element* e = q.elements.back().get();
    vector<Event> ev;
    if (q.body_path.empty()) {
      GenMsg(c, &e->msg, 2, o);
      conv::Msg copy;
      copy.ParsePartialFromString(Det(e->msg));
      e->msg.CopyFrom(copy);
      Describe(c, &ev).Message_("", e->msg);
    } else {
      conv::Msg raw;
      Message* m = &raw;
      for (size_t k = 0; k + 1 < q.body_path.size(); k++) m = m->GetReflection()->MutableMessage(m, q.body_path[k]);
      const FD* leaf = q.body_path.back();
      const size_t count = leaf->is_repeated() ? c.size(4) : 1;
      for (size_t k = 0; k < count; k++) GenFieldValue(c, m, leaf, 2, o);
      e->msg.ParsePartialFromString(Det(raw));
      const Message* p = &e->msg;
      for (size_t k = 0; k + 1 < q.body_path.size(); k++) p = &p->GetReflection()->GetMessage(*p, q.body_path[k]);
      Describe(c, &ev).Field("", *p, leaf);
    }
    for (Event& x : ev) x.element = i;
    ev.back().last = true;
    d->events.insert(d->events.end(), ev.begin(), ev.end());
  }
  if (!q.elements.empty()) {
    // Explicit values in the body win over bindings; keep to bindings of
    // fields the body does not touch by name.
    GenBindings(c, &q, 2, o);
    vector<Binding> keep;
    for (const Binding& b : q.bindings) {
      bool touched = false;
      const string top = b.path[0]->name();
      vector<const FD*> fs;
      q.elements[0]->msg.GetReflection()->ListFields(q.elements[0]->msg, &fs);
      for (const FD* f : fs) touched |= f->name() == top;
      if (!q.body_path.empty()) touched |= q.body_path[0]->name() == top;
      if (!touched) keep.push_back(b);
    }
    q.bindings = keep;
    q.first.CopyFrom(q.elements[0]->msg);
    Weave(q, q.elements[0].get(), &q.first);
  }
  if (c.verbose) {
    string s;
    for (const Event& e : d->events) s += ShowEvent(e) + " ";
    c.note("%s, body path \"%s\"%s, %zu element(s)", streaming ? "streaming" : "unary", q.body_field_path.c_str(), q.delimiters ? ", delimiters" : "", n);
    for (const Binding& b : q.bindings) c.note("binding %s = %s", b.key.c_str(), Show(b.value, 200).c_str());
    c.note("events: %s", Show(s, 2500).c_str());
  }
}

uint64_t Key(const Doc& d) {
  uint64_t h = pbt::HashStr(d.q.body_field_path, d.q.streaming);
  for (const Event& e : d.events) h = pbt::HashStr(e.name + "/" + e.s, h * 16 + static_cast<uint64_t>(e.kind) + e.u);
  return h;
}

}  // namespace

// One message.
PBT(C26, single_message, 30000, 400000) {
  Doc d;
  GenDoc(c, &d, false);
  pbt::Fresh<gt::RequestMessageTranslator> t_at(*Helper().Resolver(), d.q.delimiters, Info(c, d.q));
  gt::RequestMessageTranslator& t = *t_at;
  const size_t every = 1 + c.below(5);
  string m = "stale";
  for (size_t i = 0; i < d.events.size(); i++) {
    if (i % every == 0) {
      if (t.Finished()) c.fail("Finished() before the message is complete");
      if (t.NextMessage(&m)) c.fail(Format("a message after %zu of %zu events: %s", i, d.events.size(), Show(m, 300).c_str()));
      if (m != "stale") c.fail("NextMessage changed its argument but returned false");
    }
    Send(d.events[i], &t.Input());
  }
  if (!t.Status().ok()) c.fail("error for valid events: " + t.Status().ToString());
  if (!t.NextMessage(&m)) c.fail("no message after the last event");
  ExpectMessage(c, d.q, 0, m, d.q.first);
  for (int i = 0; i < 2; i++) {
    if (!t.Finished()) c.fail("not Finished() after the message");
    m = "stale";
    if (t.NextMessage(&m)) c.fail("a second message: " + Show(m, 300));
  }
  c.nontrivial(Key(d));
}

// A stream of messages.
PBT(C26, stream, 30000, 400000) {
  Doc d;
  GenDoc(c, &d, true);
  pbt::Fresh<gt::RequestStreamTranslator> t_at(*Helper().Resolver(), d.q.delimiters, Info(c, d.q));
  gt::RequestStreamTranslator& t = *t_at;
  Writer* w = &t;
  size_t got = 0, complete = 0;
  const bool greedy = c.coin();
  auto poll = [&] {
    string m = "stale";
    const bool r = t.NextMessage(&m);
    if (r != (got < complete)) c.fail(r ? Format("message %zu comes out after %zu complete elements: %s", got, complete, Show(m, 300).c_str()) : Format("element %zu is complete but no message comes out (%s)", got, t.Status().ToString().c_str()));
    if (!r) {
      if (m != "stale") c.fail("NextMessage changed its argument but returned false");
      return false;
    }
    ExpectMessage(c, d.q, got, m, got == 0 ? d.q.first : d.q.elements[got]->msg);
    got++;
    return true;
  };
  w->StartList("");
  for (const Event& e : d.events) {
    Send(e, w);
    if (!t.Status().ok()) c.fail(Format("error for valid events in element %zu: %s", e.element, t.Status().ToString().c_str()));
    if (e.last) complete++;
    if (t.Finished()) c.fail("Finished() before the end of the list");
    if (e.last && greedy)
      while (poll()) {
      }
    else if (c.chance(1, 6))
      poll();
  }
  w->EndList();
  if (!t.Status().ok()) c.fail("error at the end of the list: " + t.Status().ToString());
  while (got < complete) {
    if (t.Finished()) c.fail(Format("Finished() with %zu of %zu messages read", got, complete));
    poll();
  }
  for (int i = 0; i < 2; i++) {
    if (!t.Finished()) c.fail("not Finished() after the last message");
    poll();
  }
  c.nontrivial(Key(d));
}

// Streams that are no list, and elements that do not fit.
PBT(C26, wrong_events, 20000, 200000) {
  Doc d;
  GenDoc(c, &d, true);
  d.q.bindings.clear();
  d.q.body_path.clear();
  gt::RequestInfo info = Info(c, d.q);
  const bool whole = d.q.body_field_path.empty() || d.q.body_field_path == "*";
  pbt::Fresh<gt::RequestStreamTranslator> t_at(*Helper().Resolver(), d.q.delimiters, info);
  gt::RequestStreamTranslator& t = *t_at;
  Writer* w = &t;
  const size_t kind = c.below(whole ? 4 : 3);
  size_t good = 0;
  string what;
  Event scalar;
  scalar.kind = static_cast<Event::Kind>(Event::kBool + c.below(10));
  scalar.s = c.coin() ? "1" : "x";
  auto elements = [&] {
    for (const Event& e : d.events) Send(e, w);
    good = d.q.elements.size();
  };
  switch (kind) {
    case 0:
      what = "an object in place of the list";
      w->StartObject("");
      w->EndObject();
      break;
    case 1:
      what = "a scalar in place of the list";
      Send(scalar, w);
      break;
    case 2:
      what = "an end without a beginning";
      if (c.coin()) {
        w->StartList("");
        elements();
        w->EndObject();
      } else if (c.coin()) {
        w->EndList();
      } else {
        w->EndObject();
      }
      break;
    default: {
      what = "a scalar in place of an element";
      w->StartList("");
      elements();
      Send(scalar, w);
    }
  }
  c.note("%s (%s)", what.c_str(), ShowEvent(scalar).c_str());
  if (t.Status().ok()) c.fail("no error status for " + what);
  if (!t.Finished()) c.fail("not Finished() after " + what);
  const absl::Status first = t.Status();
  // Whatever follows changes nothing.
  size_t more = c.below(6);
  for (size_t i = 0; i < more; i++) {
    switch (c.below(5)) {
      case 0: w->StartList(""); break;
      case 1: w->StartObject(""); break;
      case 2: w->EndList(); break;
      case 3: w->EndObject(); break;
      default: Send(scalar, w); break;
    }
  }
  if (t.Status().code() != first.code() || !t.Finished()) c.fail("the error goes away after more events: " + t.Status().ToString());
  string m;
  for (size_t i = 0; t.NextMessage(&m); i++) {
    if (i >= good) c.fail(Format("message %zu comes out although only %zu elements are good: %s", i, good, Show(m, 300).c_str()));
    if (whole) ExpectMessage(c, d.q, i, m, d.q.elements[i]->msg);
  }
  static const char* const labels[] = {"object", "scalar", "mismatched end", "scalar element"};
  c.label(labels[kind]);
  c.nontrivial(pbt::HashStr(what + ShowEvent(scalar), Key(d)));
}
