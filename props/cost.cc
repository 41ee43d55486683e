// C30: work and memory stay in proportion to the data.
//
// Built without sanitizers: allocations and block moves are counted by
// replacing operator new, memcpy and memmove; the edges executed in the code
// under test by the coverage callbacks.
#include <malloc.h>

#include <new>

#include "google/api/http.pb.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/path_matcher_node.h"
#include "grpc_transcoding/path_matcher_utility.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "req.h"
#include "sut.h"

namespace {
int64_t g_live, g_peak, g_allocated, g_moved;
}

// ------------------------------------------------------------------ counters

#define NOCOV __attribute__((no_sanitize("coverage")))

NOCOV void* operator new(size_t n) {
  size_t* p = static_cast<size_t*>(malloc(n + 16));
  if (!p) abort();
  *p = n;
  g_live += static_cast<int64_t>(n) + 16;
  g_allocated += static_cast<int64_t>(n) + 16;
  if (g_live > g_peak) g_peak = g_live;
  return p + 2;
}
NOCOV void operator delete(void* q) noexcept {
  if (!q) return;
  size_t* p = static_cast<size_t*>(q) - 2;
  g_live -= static_cast<int64_t>(*p) + 16;
  free(p);
}
NOCOV void operator delete(void* q, size_t) noexcept { operator delete(q); }
NOCOV void* operator new[](size_t n) { return operator new(n); }
NOCOV void operator delete[](void* q) noexcept { operator delete(q); }
NOCOV void operator delete[](void* q, size_t) noexcept { operator delete(q); }

extern "C" NOCOV __attribute__((no_builtin)) void* memcpy(void* __restrict to, const void* __restrict from, size_t n) {
  g_moved += static_cast<int64_t>(n);
  void* d = to;
  asm volatile("rep movsb" : "+D"(d), "+S"(from), "+c"(n) : : "memory");
  return to;
}
extern "C" NOCOV __attribute__((no_builtin)) void* memmove(void* to, const void* from, size_t n) {
  g_moved += static_cast<int64_t>(n);
  char* d = static_cast<char*>(to);
  const char* s = static_cast<const char*>(from);
  if (d <= s || d >= s + n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    d += n;
    s += n;
    while (n--) *--d = *--s;
  }
  return to;
}

namespace {

using namespace cv;
using pbt::Case;
using pbt::Format;
using pbt::Show;
using std::string;
using std::vector;
using model::Reg;

// Choices made while something is being measured.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 1) {}
  NOCOV uint64_t next() {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return s;
  }
  NOCOV size_t below(size_t n) { return n <= 1 ? 0 : static_cast<size_t>(next() >> 11) % n; }
  NOCOV bool coin() { return (next() >> 40) & 1; }
};

// What a window of calls cost.
struct Window {
  int64_t live = 0;   // the most that was held between two calls
  int64_t peak = 0;   // the most that was held at all
  double edges = 0, moved = 0, allocated = 0;
  double work() const { return edges + (moved + allocated) / 16; }
};
struct Gauge {
  uint64_t edges0;
  int64_t moved0, allocated0;
  Window w;
  Gauge() {
    edges0 = pbt::Work();
    moved0 = g_moved;
    allocated0 = g_allocated;
    g_peak = g_live;
  }
  void Between() { w.live = std::max(w.live, g_live); }
  Window End() {
    w.edges = static_cast<double>(pbt::Work() - edges0);
    w.moved = static_cast<double>(g_moved - moved0);
    w.allocated = static_cast<double>(g_allocated - allocated0);
    w.peak = g_peak;
    return w;
  }
};

// Two windows of as many calls, the second much later: nothing has grown.
void Steady(Case& c, const char* what, size_t calls, size_t between, const Window& a, const Window& b, int64_t slack) {
  c.note("%s: the first %zu: %lld bytes held, %lld at most, %.0f edges, %.0f moved, %.0f allocated; %zu later: %lld, %lld, %.0f, %.0f, %.0f", what, calls, (long long)a.live, (long long)a.peak, a.edges, a.moved,
         a.allocated, between, (long long)b.live, (long long)b.peak, b.edges, b.moved, b.allocated);
  // What is held between two calls may be anything up to the peak: it depends on
  // where in its chunk the last message stood.
  if (b.peak > a.peak + slack)
    c.fail(Format("%s: %lld bytes (%lld during a call) are held after %zu more, %lld (%lld) were at first", what, (long long)b.live, (long long)b.peak, between, (long long)a.live, (long long)a.peak));
  const double bound = 1.5;
  if (b.edges > bound * a.edges + 20000 || b.moved > bound * a.moved + 200000 || b.allocated > bound * a.allocated + 200000)
    c.fail(Format("%s: %zu of them take %.0f edges, %.0f bytes moved, %.0f allocated after %zu others; at first they took %.0f, %.0f, %.0f", what, calls, b.edges, b.moved, b.allocated, between, a.edges, a.moved,
                  a.allocated));
}

// Four times the data takes four times the work, give or take.
template <class F>
void Linear(Case& c, const char* what, size_t n, const F& run) {
  const size_t k = 4;
  run(n);  // fills caches
  Gauge g1;
  run(n);
  const Window a = g1.End();
  Gauge g2;
  run(k * n);
  const Window b = g2.End();
  c.note("%s: %zu take %.0f edges, %.0f moved, %.0f allocated; %zu take %.0f, %.0f, %.0f", what, n, a.edges, a.moved, a.allocated, k * n, b.edges, b.moved, b.allocated);
  const double bound = 7;
  if (b.edges > bound * a.edges + 50000 || b.moved > bound * a.moved + 200000 || b.allocated > bound * a.allocated + 200000)
    c.fail(Format("%s: %zu take %.0f edges, %.0f bytes moved, %.0f allocated; %zu take only %.0f, %.0f, %.0f", what, k * n, b.edges, b.moved, b.allocated, n, a.edges, a.moved, a.allocated));
}

// An endless text: a beginning and a part that comes again and again, in
// pieces of random sizes, as many bytes as have arrived.
struct Endless : public gt::TranscoderInputStream {
  string head, cycle;
  size_t max_piece = 1;
  Rng rng{1};
  int64_t pos = 0, arrived = 0, end = -1;  // end: where it ends after all
  string tail;                             // what comes last then
  int64_t Size(int64_t upto) const { return upto; }
  char At(int64_t i) const {
    if (i < static_cast<int64_t>(head.size())) return head[static_cast<size_t>(i)];
    return cycle[static_cast<size_t>(i - static_cast<int64_t>(head.size())) % cycle.size()];
  }
  NOCOV bool Next(const void** data, int* size) override {
    *data = nullptr;
    *size = 0;
    if (pos >= arrived) return true;
    const string* s = &head;
    size_t at = static_cast<size_t>(pos);
    if (at >= head.size()) {
      s = &cycle;
      at = (at - head.size()) % cycle.size();
    }
    size_t n = 1 + rng.below(max_piece);
    n = std::min(n, s->size() - at);
    n = std::min(n, static_cast<size_t>(arrived - pos));
    *data = s->data() + at;
    *size = static_cast<int>(n);
    pos += static_cast<int64_t>(n);
    return true;
  }
  NOCOV void BackUp(int n) override { pos -= n; }
  NOCOV bool Skip(int n) override {
    pos += n;
    return true;
  }
  int64_t ByteCount() const override { return pos; }
  int64_t BytesAvailable() const override { return arrived - pos; }
  bool Finished() const override { return false; }
};

// Some text with an end.
struct Finite : public gt::TranscoderInputStream {
  const string* text;
  size_t max_piece = 1 << 30, pos = 0, arrived = 0;
  Rng rng{1};
  explicit Finite(const string* t) : text(t), arrived(t->size()) {}
  bool Next(const void** data, int* size) override {
    *data = nullptr;
    *size = 0;
    if (pos >= arrived) return arrived < text->size();
    size_t n = std::min(arrived - pos, 1 + rng.below(max_piece));
    *data = text->data() + pos;
    *size = static_cast<int>(n);
    pos += n;
    return true;
  }
  void BackUp(int n) override { pos -= static_cast<size_t>(n); }
  bool Skip(int n) override {
    if (static_cast<size_t>(n) > arrived - pos) return false;
    pos += static_cast<size_t>(n);
    return true;
  }
  int64_t ByteCount() const override { return static_cast<int64_t>(pos); }
  int64_t BytesAvailable() const override { return static_cast<int64_t>(arrived - pos); }
  bool Finished() const override { return pos == text->size(); }
};

string Framed(const string& body, char flag = 0) {
  string f(1, flag);
  for (int k = 3; k >= 0; k--) f += static_cast<char>(body.size() >> (8 * k));
  return f + body;
}

constexpr size_t kWarm = 100, kWindow = 200;
size_t Between(const Case& c) { return c.thorough ? 12000 : 2400; }

}  // namespace

// A request of endlessly many messages.
PBT_NOFUZZ(C30, endless_request, 800, 6000) {
  ChooseHelper(c);
  Request q;
  GenOpts o;
  o.fields = 1 + static_cast<int>(c.below(5));
  q.streaming = true;
  const bool as_bytes = c.chance(1, 3);
  q.delimiters = as_bytes || c.coin();
  const Style st = GenStyle(c);
  if (c.chance(1, 3)) GenBodyPath(c, &q);
  const size_t n = 1 + c.below(3);
  for (size_t i = 0; i < n; i++) {
    GenElement(c, &q, st, o);
    const string& t = q.elements.back()->text;
    if (t.empty() || (t.back() != '}' && t.back() != ']')) return;
  }
  if (c.chance(1, 3)) GenBindings(c, &q, 3, o);
  Endless in;
  in.head = "[" + q.elements[0]->text;
  for (auto& e : q.elements) in.cycle += "," + e->text;
  if (in.cycle.size() > 4000) return;
  // At most some twenty messages in one piece.
  const size_t largest = 16 * in.cycle.size() / n;
  in.max_piece = 1 + c.below(std::min(largest, c.coin() ? 64 : 2 * in.cycle.size()));
  in.rng = Rng(c.raw(1 << 20));
  const bool late = c.coin();  // data arrives bit by bit
  Rng r(c.raw(1 << 20));
  NoteRequest(c, q);
  c.note("the elements over and over, in pieces of up to %zu bytes", in.max_piece);
  const gt::RequestInfo info = Info(c, q);
  const size_t between = Between(c);
  const int64_t slack = 8192 + 16 * static_cast<int64_t>(in.max_piece + in.cycle.size());
  Window a, b;
  {
    gt::JsonRequestTranslator t(Helper().Resolver(), &in, info, true, q.delimiters);
    std::unique_ptr<gt::TranscoderInputStream> bytes;
    if (as_bytes) bytes = t.Output().CreateInputStream();
    if (!late) in.arrived = int64_t{1} << 60;
    size_t got = 0;
    auto One = [&] {
      for (int guard = 0; guard < 200000; guard++) {
        if (late && r.below(3)) in.arrived += static_cast<int64_t>(1 + r.below(in.max_piece));
        if (as_bytes) {
          const void* d;
          int k = 0;
          if (!bytes->Next(&d, &k)) break;
          if (k > 0) {
            if (r.coin()) {
              bytes->BackUp(static_cast<int>(r.below(static_cast<size_t>(k) + 1)));
              while (bytes->BytesAvailable() > 0 && r.below(3)) bytes->Next(&d, &k);
            }
            return true;
          }
        } else {
          string m;
          if (t.Output().NextMessage(&m)) return true;
          if (t.Output().Finished()) break;
        }
      }
      return false;
    };
    auto Many = [&](size_t k) {
      Gauge g;
      for (size_t i = 0; i < k; i++) {
        if (!One()) c.fail(Format("after %zu messages: %s", got, t.Output().Status().ToString().c_str()));
        got++;
        g.Between();
      }
      return g.End();
    };
    Many(kWarm);
    a = Many(kWindow);
    Many(between);
    b = Many(kWindow);
  }
  Steady(c, "messages of a request", kWindow, between, a, b, slack);
  c.evaluations(kWarm + 2 * kWindow + between);
  c.nontrivial(pbt::HashStr(in.cycle, in.max_piece * 4 + as_bytes * 2 + late));
}

// A response of endlessly many messages.
PBT_NOFUZZ(C30, endless_response, 800, 6000) {
  ChooseHelper(c);
  vector<string> bodies;
  const size_t n = 1 + c.below(3);
  GenOpts o;
  o.fields = 1 + static_cast<int>(c.below(5));
  Endless in;
  for (size_t i = 0; i < n; i++) {
    conv::Msg m;
    if (!c.chance(1, 6)) GenMsg(c, &m, 2, o);
    in.cycle += Framed(Det(m));
  }
  if (in.cycle.size() > 4000) return;
  gt::JsonResponseTranslateOptions opts;
  opts.stream_newline_delimited = c.coin();
  opts.json_print_options.always_print_primitive_fields = c.chance(1, 6);
  opts.json_print_options.preserve_proto_field_names = c.coin();
  in.max_piece = c.coin() ? 1 + c.below(64) : 1 + c.below(2 * in.cycle.size());
  in.rng = Rng(c.raw(1 << 20));
  const bool late = c.coin();
  const int how = static_cast<int>(c.weighted({3, 2, 1}));  // texts; their bytes; messages only
  Rng r(c.raw(1 << 20));
  c.note("%zu messages over and over (%s), pieces of up to %zu bytes, %s", n, Show(in.cycle, 300).c_str(), in.max_piece, how == 0 ? "texts" : how == 1 ? "texts as bytes" : "de-framed");
  const size_t between = Between(c);
  // The texts are at most so much longer than the bodies.
  const int64_t slack = 16384 + 16 * static_cast<int64_t>(in.max_piece + in.cycle.size());
  Window a, b;
  {
    gt::ResponseToJsonTranslator t(Helper().Resolver(), "type.googleapis.com/conv.Msg", true, &in, opts);
    gt::MessageReader reader(&in);
    std::unique_ptr<gt::TranscoderInputStream> bytes;
    if (how == 1) bytes = t.CreateInputStream();
    if (!late) in.arrived = int64_t{1} << 60;
    size_t got = 0;
    auto One = [&] {
      for (int guard = 0; guard < 200000; guard++) {
        if (late && r.below(3)) in.arrived += static_cast<int64_t>(1 + r.below(in.max_piece));
        const void* d;
        int k = 0;
        if (how == 0) {
          string m;
          if (t.NextMessage(&m)) return true;
          if (t.Finished()) break;
        } else if (how == 1) {
          if (!bytes->Next(&d, &k)) break;
          if (k > 0) return true;
        } else {
          std::unique_ptr<pb::io::ZeroCopyInputStream> m;
          if (r.coin()) {
            m = reader.NextMessage();
          } else {
            m = reader.NextMessageAndGrpcFrame().message;
          }
          if (m) {
            while (m->Next(&d, &k)) {
              if (k > 1 && r.below(4) == 0) m->BackUp(k / 2);
            }
            return true;
          }
          if (reader.Finished()) break;
        }
      }
      return false;
    };
    auto Many = [&](size_t k) {
      Gauge g;
      for (size_t i = 0; i < k; i++) {
        if (!One()) c.fail(Format("after %zu messages: %s %s", got, t.Status().ToString().c_str(), reader.Status().ToString().c_str()));
        got++;
        g.Between();
      }
      return g.End();
    };
    Many(kWarm);
    a = Many(kWindow);
    Many(between);
    b = Many(kWindow);
  }
  Steady(c, "messages of a response", kWindow, between, a, b, slack);
  c.evaluations(kWarm + 2 * kWindow + between);
  c.nontrivial(pbt::HashStr(in.cycle, in.max_piece * 8 + static_cast<uint64_t>(how) * 2 + late));
}

// Lookups and resolutions of ever new names.
PBT_NOFUZZ(C30, endless_lookups, 600, 5000) {
  model::ConfigGen g;
  g.max_regs = 8;
  const vector<Reg> regs = model::GenRegs(c, g);
  const model::Options opts = sut::GenOptions(c);
  vector<const Reg*> order;
  for (const Reg& r : regs) order.push_back(&r);
  struct Ask {
    string method, path, query;
    size_t at_path, at_query;
  };
  vector<Ask> asks;
  const size_t n = 1 + c.below(4);
  for (size_t i = 0; i < n; i++) {
    Ask a;
    a.method = model::GenMethod(c, false);
    a.path = model::GenPath(c, regs, true);
    a.query = model::GenQuery(c, {"key"});
    if (a.path.size() > 200 || a.query.size() > 400) return;
    // Where the running number goes: behind a random byte.
    a.at_path = a.path.empty() ? 0 : 1 + c.below(a.path.size());
    a.at_query = c.below(a.query.size() + 1);
    c.note("Lookup %s %s ? %s, numbered at %zu and %zu", a.method.c_str(), Show(a.path).c_str(), Show(a.query).c_str(), a.at_path, a.at_query);
    asks.push_back(a);
  }
  const bool types = c.chance(1, 3);
  std::unique_ptr<sut::Matcher> m;
  {
    sut::Builder b;
    sut::PutOptions(&b, opts);
    for (const Reg* r : order) sut::RegisterOne(&b, *r);
    m = b.Build();
  }
  vector<string> names;
  gt::TypeHelper& helper = Helper();
  if (types)
    for (size_t i = 0; i < 4; i++) names.push_back(c.pickc({"child.child.name", "inner_map.key", "labels", "child.inner.back.otherName", "value_field.struct_value.fields", "child.inner%5ftwo.text", "x", "name.x", "child."}));
  const pb::Type* type = TypeOf(conv::Msg::descriptor());
  size_t number = 0;
  auto Many = [&](size_t k) {
    Gauge gauge;
    for (size_t i = 0; i < k; i++) {
      {
        const Ask& a = asks[i % asks.size()];
        char digits[32];
        snprintf(digits, sizeof(digits), "%08zu", number++);
        string path = a.path, query = a.query;
        path.insert(a.at_path, digits);
        query.insert(a.at_query, digits);
        vector<gt::VariableBinding> v;
        string body;
        if (i % 3) {
          m->Lookup(a.method, path, query, &v, &body);
        } else {
          m->Lookup(a.method, path);
        }
        if (types) {
          string name = names[i % names.size()];
          if (i % 2) name += digits;
          std::vector<const pb::Field*> out;
          (void)helper.ResolveFieldPath(*type, name, &out);
        }
      }
      gauge.Between();
    }
    return gauge.End();
  };
  const size_t between = 4 * Between(c);
  Many(2000);
  const Window a = Many(kWindow);
  Many(between);
  const Window b = Many(kWindow);
  Steady(c, types ? "lookups and resolutions" : "lookups", kWindow, between, a, b, 16384);
  c.evaluations(2 * kWindow + between + 2000);
  c.nontrivial(pbt::HashStr(asks[0].path, asks.size() * 2 + types));
}

// A message, a string, a path of n parts.
PBT_NOFUZZ(C30, linear, 4000, 40000) {
  ChooseHelper(c);
  const size_t n = static_cast<size_t>(c.range(c.thorough ? 300 : 150, c.thorough ? 3000 : 500));
  const int kind = static_cast<int>(c.below(16));
  const bool delimiters = c.coin();
  const string piece = c.pickc({"", "a", "text", "a longer piece of text than fits in place"});
  string item;
  for (size_t i = 1 + c.below(3); i > 0; i--) item += c.pickc({"a", "%41", "%2F", "+", "%zz", "a=b", "%e2%82%ac", "*", "b.c"});
  gt::RequestInfo info;
  info.message_type = TypeOf(conv::Msg::descriptor());
  info.reject_binding_body_field_collisions = c.coin();
  if (c.coin())
    for (const char* p : {"renamed", "child.name", "string_list"}) {
      gt::RequestWeaver::BindingInfo bi;
      (void)Helper().ResolveFieldPath(*info.message_type, p, &bi.field_path);
      bi.value = "v";
      info.variable_bindings.push_back(bi);
    }
  auto Run = [&](const gt::RequestInfo& i, const string& text, bool streaming, size_t want) {
    pb::io::ArrayInputStream in(text.data(), static_cast<int>(text.size()));
    gt::JsonRequestTranslator t(Helper().Resolver(), &in, i, streaming, delimiters);
    string m;
    size_t got = 0;
    while (t.Output().NextMessage(&m)) got++;
    if (got != want) c.fail(Format("%zu messages instead of %zu: %s", got, want, t.Output().Status().ToString().c_str()));
  };
  auto Respond = [&](const string& frames, size_t piece_size, size_t want) {
    Finite in(&frames);
    in.max_piece = piece_size;
    gt::ResponseToJsonTranslator t(Helper().Resolver(), "type.googleapis.com/conv.Msg", true, &in);
    string m;
    size_t got = 0;
    while (t.NextMessage(&m)) got++;
    if (got != want) c.fail(Format("%zu texts instead of %zu: %s", got, want, t.Status().ToString().c_str()));
  };
  const size_t block = 1 + c.below(64);
  switch (kind) {
    case 0:
      Linear(c, "bytes of a string in a request", 64 * n, [&](size_t k) { Run(info, "{\"name\":\"" + string(k, 'x') + "\"}", false, 1); });
      break;
    case 1: {
      const string e = c.pickc({"\"i32List\":[", "\"doubleList\":[", "\"stringList\":["});
      Linear(c, "elements of a list in a request", n, [&](size_t k) {
        string s = "{" + e + "\"1\"";
        for (size_t i = 1; i < k; i++) s += ",\"1\"";
        Run(info, s + "]}", false, 1);
      });
      break;
    }
    case 2: {
      const string e = c.pickc({"{\"name\":\"a\"}", "{}", "{\"child\":{\"i32Field\":1}}", "{\"otherName\":\"v\"}"});
      Linear(c, "sub-messages of a request", n, [&](size_t k) {
        string s = "{\"items\":[" + e;
        for (size_t i = 1; i < k; i++) s += "," + e;
        Run(info, s + "]}", false, 1);
      });
      break;
    }
    case 3: {
      gt::RequestInfo one = info;
      one.variable_bindings.clear();
      one.body_field_path = c.pickc({"", "*", "child", "child.second_child", "items"});
      const string e = one.body_field_path == "items" ? "[{\"name\":\"a\"}]" : c.pickc({"{\"name\":\"a\"}", "{}"});
      Linear(c, "messages of a request in one chunk", n, [&](size_t k) {
        string s = "[" + e;
        for (size_t i = 1; i < k; i++) s += "," + e;
        Run(one, s + "]", true, k);
      });
      break;
    }
    case 4:
      Linear(c, "map entries in a request", n, [&](size_t k) {
        string s = "{\"labels\":{\"k\":\"v\"";
        for (size_t i = 1; i < k; i++) s += ",\"k" + std::to_string(i) + "\":\"v\"";
        Run(info, s + "}}", false, 1);
      });
      break;
    case 5:
      Linear(c, "bindings of one repeated field", n, [&](size_t k) {
        gt::RequestInfo many = info;
        gt::RequestWeaver::BindingInfo bi;
        (void)Helper().ResolveFieldPath(*info.message_type, "child.stringList", &bi.field_path);
        bi.value = "v";
        many.reject_binding_body_field_collisions = false;
        for (size_t i = 0; i < k; i++) many.variable_bindings.push_back(bi);
        Run(many, "{\"child\":{\"name\":\"x\"}}", false, 1);
      });
      break;
    case 6:
      Linear(c, "fields of a response", n, [&](size_t k) {
        conv::Msg m;
        for (size_t i = 0; i < k; i++) {
          m.add_i32_list(static_cast<int>(i));
          m.add_string_list(piece);
          m.add_items()->set_name(piece);
        }
        Respond(Framed(m.SerializeAsString()), 1 << 20, 2);
      });
      break;
    case 7:
      Linear(c, "messages of a response", n, [&](size_t k) {
        conv::Msg m;
        m.set_name(piece);
        const string f = Framed(m.SerializeAsString());
        string s;
        for (size_t i = 0; i < k; i++) s += f;
        Respond(s, block, k + 1);
      });
      break;
    case 8:
      Linear(c, "bytes of a message in pieces", 16 * n, [&](size_t k) {
        const string f = Framed(string(k, 'x'));
        Finite in(&f);
        in.max_piece = block;
        gt::MessageReader r(&in);
        auto m = r.NextMessage();
        const void* d;
        int size;
        int64_t sum = 0;
        while (m && m->Next(&d, &size)) sum += size;
        if (sum != static_cast<int64_t>(k)) c.fail(Format("%lld of %zu bytes", (long long)sum, k));
      });
      break;
    case 9: {
      const auto spec = sut::ToSpec(static_cast<model::Spec>(c.below(3)));
      const bool plus = c.coin();
      Linear(c, "escapes of a string", 8 * n, [&](size_t k) {
        string s;
        for (size_t i = 0; i < k; i++) s += item;
        (void)gt::UrlUnescapeString(s, spec, plus);
        (void)gt::IsUrlEscapedString(s);
      });
      break;
    }
    case 10:
    case 11: {
      sut::Builder b;
      const Reg reg;
      b.Register("GET", "/a/**", "", &reg);
      b.Register("GET", "/v/{x=**}/end", "", std::unordered_set<string>{"key"}, &reg);
      auto m = b.Build();
      const string base = c.coin() ? "/a" : "/v";
      Linear(c, kind == 10 ? "segments of a path" : "parameters of a query", n, [&](size_t k) {
        string path = base + "/m", query;
        for (size_t i = 0; i < k; i++) {
          if (kind == 10) {
            path += "/" + item;
          } else {
            query += "&n" + item + "=" + item;
          }
        }
        path += "/end";
        vector<gt::VariableBinding> v;
        string body;
        if (m->Lookup("GET", path, query, &v, &body) != &reg) c.fail("not found");
      });
      break;
    }
    case 12: {
      const int form = static_cast<int>(c.below(4));
      Linear(c, "segments of a template", std::min<size_t>(n, 240), [&](size_t k) {
        string s;
        for (size_t i = 0; i < k; i++) s += form == 0 ? "/a" : form == 1 ? "/{x}" : form == 2 ? "/{a.b=c/*}" : "/*";
        auto t = gt::HttpTemplate::Parse(s);
        if (!t) c.fail("not parsed");
      });
      break;
    }
    case 13:
      Linear(c, "registrations", n, [&](size_t k) {
        sut::Builder b;
        const Reg reg;
        for (size_t i = 0; i < k; i++) b.Register("GET", "/a/" + (delimiters ? std::to_string(i) : string("{x}")) + "/c:v", "", &reg);
        auto m = b.Build();
        m->Lookup("GET", "/a/1/c:v");
      });
      break;
    case 14:
      Linear(c, "additional bindings of a rule", n, [&](size_t k) {
        google::api::HttpRule rule;
        rule.set_get("/x");
        for (size_t i = 0; i < k; i++) rule.add_additional_bindings()->set_get("/y/" + std::to_string(i));
        sut::Builder b;
        const Reg reg;
        const Reg* method = &reg;
        if (!gt::PathMatcherUtility::RegisterByHttpRule<const Reg*>(b, rule, method)) c.fail("not registered");
      });
      break;
    default: {
      // Steps of a body field path (PrefixWriter opens and closes each).
      gt::RequestInfo deep = info;
      deep.variable_bindings.clear();
      Linear(c, "messages wrapped in a path", n / 2, [&](size_t k) {
        deep.body_field_path = "child.child.child.child.child.child.items";
        string s = "[[{}]";
        for (size_t i = 1; i < k; i++) s += ",[{}]";
        Run(deep, s + "]", true, k);
      });
      break;
    }
  }
  c.evaluations(5 * n);
  c.label(Format("kind %d", kind));
  c.nontrivial(pbt::HashStr(item + piece, static_cast<uint64_t>(kind) * 100000 + n * 4 + delimiters));
}

// Whatever is created, used and thrown away gives back all it took.
PBT_NOFUZZ(C30, gives_back, 8000, 80000) {
  ChooseHelper(c);
  const int kind = static_cast<int>(c.below(6));
  const uint64_t seed = c.raw(1 << 20);
  Request q;
  string text;
  gt::RequestInfo info;
  vector<Reg> regs;
  vector<string> texts;
  model::Options options;
  size_t piece = 1 + c.below(80);
  const size_t steps = 1 + c.size(60);
  if (kind == 0) {
    GenOpts o;
    o.fields = 1 + static_cast<int>(c.below(5));
    q.streaming = c.coin();
    q.delimiters = c.coin();
    q.reject = c.coin();
    const Style st = GenStyle(c);
    if (c.chance(1, 3)) GenBodyPath(c, &q);
    const size_t n = q.streaming ? c.size(4) : 1;
    for (size_t i = 0; i < n; i++) GenElement(c, &q, st, o);
    if (c.chance(1, 2)) GenBindings(c, &q, 3, o);
    Assemble(c, &q, st);
    if (c.coin() && !q.text.empty()) {
      const size_t at = c.below(q.text.size());
      if (c.coin()) {
        q.text.resize(at);
      } else {
        q.text[at] = *c.pickc({"}", "]", "\"", "x", "{", "1", ","});
      }
    }
    NoteRequest(c, q);
    info = Info(c, q);
    text = q.text;
  } else if (kind == 1 || kind == 2) {
    const size_t n = 1 + c.below(4);
    for (size_t i = 0; i < n; i++) {
      conv::Plain m;
      GenOpts o;
      o.fields = 3;
      GenMsg(c, &m, 2, o);
      string b = Det(m);
      if (c.chance(1, 4) && !b.empty()) b[c.below(b.size())] ^= static_cast<char>(1 << c.below(8));
      text += Framed(b, c.chance(1, 8) ? 1 : 0);
    }
    if (c.chance(1, 3)) text.resize(c.below(text.size() + 1));
    c.note("frames %s", Show(text, 600).c_str());
  } else {
    model::ConfigGen g;
    g.max_regs = 8;
    regs = model::GenRegs(c, g);
    options = sut::GenOptions(c);
    for (size_t i = 0; i < 4; i++) texts.push_back(model::GenPath(c, regs, true));
  }
  const bool b1 = c.coin(), b2 = c.coin();
  auto Scenario = [&] {
    Rng r(seed);
    switch (kind) {
      case 0: {
        Finite in(&text);
        in.max_piece = piece;
        in.arrived = 0;
        gt::JsonRequestTranslator t(Helper().Resolver(), &in, info, q.streaming, q.delimiters);
        std::unique_ptr<gt::TranscoderInputStream> bytes;
        if (b1) bytes = t.Output().CreateInputStream();
        for (size_t i = 0; i < steps; i++) {
          in.arrived = std::min(text.size(), in.arrived + r.below(2 * piece));
          if (b1) {
            const void* d;
            int k = 0;
            if (bytes->Next(&d, &k) && k > 0 && r.coin()) bytes->BackUp(1);
          } else {
            string m;
            t.Output().NextMessage(&m);
          }
        }
        break;
      }
      case 1: {
        Finite in(&text);
        in.max_piece = piece;
        in.arrived = 0;
        gt::ResponseToJsonTranslator t(Helper().Resolver(), "type.googleapis.com/conv.Plain", b1, &in);
        std::unique_ptr<gt::TranscoderInputStream> bytes;
        if (b2) bytes = t.CreateInputStream();
        for (size_t i = 0; i < steps; i++) {
          in.arrived = std::min(text.size(), in.arrived + r.below(2 * piece));
          const void* d;
          int k = 0;
          string m;
          if (b2) {
            bytes->Next(&d, &k);
          } else {
            t.NextMessage(&m);
          }
        }
        break;
      }
      case 2: {
        Finite in(&text);
        in.max_piece = piece;
        in.arrived = 0;
        gt::MessageReader t(&in);
        for (size_t i = 0; i < steps; i++) {
          in.arrived = std::min(text.size(), in.arrived + r.below(2 * piece));
          auto m = r.coin() ? t.NextMessage() : std::move(t.NextMessageAndGrpcFrame().message);
          const void* d;
          int k = 0;
          if (m && r.coin()) m->Next(&d, &k);
        }
        break;
      }
      case 3: {
        sut::Builder b;
        sut::PutOptions(&b, options);
        if (b1) b.SetFailRegistrationOnDuplicate(true);
        for (size_t i = 0; i < steps; i++) {
          if (r.below(4) == 0) {
            b.Register("GET", texts[r.below(4)] + "/{x", "", nullptr);
          } else if (!regs.empty()) {
            sut::RegisterOne(&b, regs[r.below(regs.size())]);
          }
        }
        if (b2) {
          auto m = b.Build();
          for (size_t i = 0; i < 4; i++) {
            vector<gt::VariableBinding> v;
            string body;
            m->Lookup("GET", texts[i], "a=b&c", &v, &body);
          }
        }
        break;
      }
      case 4: {
        vector<std::unique_ptr<gt::PathMatcherNode>> trees;
        trees.emplace_back(new gt::PathMatcherNode);
        int data;
        for (size_t i = 0; i < steps; i++) {
          const size_t k = r.below(trees.size());
          switch (r.below(4)) {
            case 0: trees.push_back(trees[k]->Clone()); break;
            case 1:
              if (trees.size() > 1) trees.erase(trees.begin() + static_cast<long>(k));
              break;
            default: {
              gt::PathMatcherNode::PathInfo::Builder p;
              for (size_t j = r.below(4); j > 0; j--) p.AppendLiteralNode(r.coin() ? "a" : "**");
              trees[k]->InsertPath(p.Build(), "GET:", &data, r.coin());
            }
          }
          if (trees.size() > 5) trees.pop_back();
        }
        break;
      }
      default: {
        pb::Type t = *TypeOf(conv::Inner::descriptor());
        vector<pb::Type> types = {t, *TypeOf(conv::Msg::descriptor())};
        vector<pb::Enum> enums(1);
        gt::TypeHelper helper(types, enums);
        for (size_t i = 0; i < steps; i++) {
          std::vector<const pb::Field*> out;
          (void)helper.ResolveFieldPath(types[1], r.coin() ? "child.inner.text" : r.coin() ? "inner%5Ftwo.back.nope" : "time.seconds", &out);
          if (!regs.empty()) gt::HttpTemplate::Parse(model::Print(regs[r.below(regs.size())].tmpl));
        }
      }
    }
  };
  Scenario();
  Scenario();
  const int64_t before = g_live;
  Scenario();
  const int64_t once = g_live;
  for (int i = 0; i < 5; i++) Scenario();
  const int64_t after = g_live;
  if (after > once && once > before)
    c.fail(Format("%lld bytes stay allocated after all objects of a run are gone, %lld after six runs", (long long)(once - before), (long long)(after - before)));
  c.evaluations(8);
  c.label(Format("kind %d", kind));
  c.nontrivial(pbt::HashStr(text, seed * 8 + static_cast<uint64_t>(kind)));
}
