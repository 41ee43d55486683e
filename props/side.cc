// C25: translations going on at the same time, in one thread or in several.
#include <atomic>
#include <thread>

#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "req.h"

namespace {

using namespace cv;
using framing::Frame;
using framing::Script;
using framing::ScriptedStream;

enum Kind { kRequest, kRequestBytes, kResponse, kReader };
const char* const kKind[] = {"request", "request as bytes", "response", "reader"};

// Everything a translation depends on, decided beforehand.
struct Plan {
  Kind kind = kRequest;
  gt::TypeHelper* helper = nullptr;
  Script script;
  vector<int64_t> arrivals;  // what has arrived before each poll
  std::set<int64_t> cuts;
  int64_t every = 0;
  int zero_every = 0;
  bool finish_late = false;
  size_t per_step = 1000;  // how much is read at each poll
  // Requests.
  pbt::Fresh<gt::RequestInfo> info_at;
  gt::RequestInfo& info = *info_at;
  vector<string> binding_paths;
  bool streaming = false, delimiters = false;
  // Responses.
  string url;
  pbt::Fresh<gt::JsonResponseTranslateOptions> opts_at;
  gt::JsonResponseTranslateOptions& opts = *opts_at;
  uint64_t seed = 0;
};

// One translation; each Step() lets some bytes arrive and asks once.
class Session {
 public:
  explicit Session(const Plan& p) : p_(p), in_(&p.script.content) {
    in_.cuts_ = p.cuts;
    in_.every_ = p.every;
    in_.zero_every_ = p.zero_every;
    switch (p.kind) {
      case kRequest:
      case kRequestBytes:
        for (size_t i = 0; i < p.binding_paths.size(); i++) {
          gt::RequestWeaver::BindingInfo b;
          auto st = p.helper->ResolveFieldPath(*p.info.message_type, p.binding_paths[i], &b.field_path);
          if (!st.ok()) Log(st, false);
          else if (b.field_path != p.info.variable_bindings[i].field_path) Log("other fields for", p.binding_paths[i]);
        }
        req_.reset(new gt::JsonRequestTranslator(p.helper->Resolver(), &in_, p.info, p.streaming, p.delimiters));
        if (p.kind == kRequestBytes) bytes_ = req_->Output().CreateInputStream();
        break;
      case kResponse: resp_.reset(new gt::ResponseToJsonTranslator(p.helper->Resolver(), p.url, p.streaming, &in_, p.opts)); break;
      case kReader: reader_.reset(new gt::MessageReader(&in_)); break;
    }
  }
  bool done() const { return step_ >= p_.arrivals.size() + 12 + (p_.per_step < 1000 ? 20 : 0); }
  void Step() {
    if (done()) return;
    if (step_ < p_.arrivals.size()) in_.arrived_ = p_.arrivals[step_];
    else in_.arrived_ = p_.script.total;
    if (in_.arrived_ == p_.script.total && (!p_.finish_late || step_ >= p_.arrivals.size())) in_.finished_ = true;
    step_++;
    switch (p_.kind) {
      case kRequest: {
        string m;
        for (size_t k = 0; k < p_.per_step && req_->Output().NextMessage(&m); k++) Log("message", m);
        Log(req_->Output().Status(), req_->Output().Finished());
        break;
      }
      case kRequestBytes: {
        // What was read is there until the next call.
        if (held_ != string(held_at_, held_.size())) Log("lost", held_);
        const void* d = nullptr;
        int n = 0;
        for (size_t k = 0; k < p_.per_step && bytes_->Next(&d, &n) && n > 0; k++) {
          const int keep = (k * 7 + step_ + p_.seed) % 5 == 0 && n > 1 ? n / 2 : n;  // some of it is given back now and then
          held_.assign(static_cast<const char*>(d), static_cast<size_t>(keep));
          held_at_ = static_cast<const char*>(d);
          Log("bytes", held_);
          if (keep < n) {
            bytes_->BackUp(n - keep);
            held_.clear();
          }
        }
        if (n == 0) held_.clear();
        if (!held_.empty() && p_.seed % 2) break;
        held_.clear();
        Log(req_->Output().Status(), bytes_->Finished());
        break;
      }
      case kResponse: {
        string m;
        if (resp_->NextMessage(&m)) Log("text", m);
        if (resp_->NextMessage(&m)) Log("text", m);
        Log(resp_->Status(), resp_->Finished());
        break;
      }
      case kReader: {
        for (size_t k = 0; k < p_.per_step; k++) {
          if (!message_) {
            auto m = reader_->NextMessageAndGrpcFrame();
            if (!m.message) break;
            Log("frame", string(reinterpret_cast<const char*>(m.grpc_frame), 5));
            message_ = std::move(m.message);
            continue;
          }
          const void* d = nullptr;
          int n = 0;
          if (message_->Next(&d, &n)) Log("body", string(static_cast<const char*>(d), static_cast<size_t>(n)));
          else message_.reset();
        }
        Log(reader_->Status(), reader_->Finished());
        break;
      }
    }
  }
  const string& Run() {
    while (!done()) Step();
    return End();
  }
  const string& End() {
    if (!in_.misuse_.empty()) log_ += "misuse: " + in_.misuse_ + "\n";
    return log_;
  }

 private:
  void Log(const char* what, const string& s) {
    log_ += Format("%zu %s %zu ", step_, what, s.size());
    log_ += s;
    log_ += '\n';
  }
  void Log(const absl::Status& s, bool finished) {
    log_ += Format("%zu %d%s%s\n", step_, static_cast<int>(s.code()), finished ? " finished " : " ", string(s.message()).c_str());
  }
  const Plan& p_;
  ScriptedStream in_;
  std::unique_ptr<gt::JsonRequestTranslator> req_;
  std::unique_ptr<gt::TranscoderInputStream> bytes_;
  std::unique_ptr<gt::ResponseToJsonTranslator> resp_;
  std::unique_ptr<gt::MessageReader> reader_;
  std::unique_ptr<pb::io::ZeroCopyInputStream> message_;
  string held_;  // read from bytes_ last
  const char* held_at_ = nullptr;
  size_t step_ = 0;
  string log_;
};

void AppendFrame(Script* s, const string& body, unsigned char flag) {
  Frame f;
  f.start = s->content.size();
  f.size = static_cast<uint32_t>(body.size());
  f.header[0] = flag;
  for (int k = 0; k < 4; k++) f.header[1 + k] = static_cast<unsigned char>(f.size >> (8 * (3 - k)));
  f.body = body;
  s->content.Append(string(reinterpret_cast<char*>(f.header), 5));
  s->content.Append(body);
  s->frames.push_back(f);
}

bool GenPlan(Case& c, Plan* p) {
  ChooseHelper(c);
  p->helper = &Helper();
  p->kind = static_cast<Kind>(c.weighted({4, 2, 4, 1}));
  p->seed = c.below(1000);
  p->per_step = c.coin() ? 1 + c.below(3) : 1000;
  GenOpts o;
  o.fields = c.chance(1, 6) ? 12 : 4;
  if (p->kind == kRequest || p->kind == kRequestBytes) {
    Request q;
    q.streaming = c.coin();
    q.delimiters = p->kind == kRequestBytes || !c.chance(1, 4);
    q.enum_case = c.chance(1, 4);
    q.reject = c.chance(1, 6);
    if (c.chance(1, 3)) GenBodyPath(c, &q);
    else q.body_field_path = c.coin() ? "*" : "";
    Style st = GenStyle(c);
    const size_t n = q.streaming ? c.size(5) : 1;
    for (size_t i = 0; i < n; i++) GenElement(c, &q, st, o);
    if (c.coin()) GenBindings(c, &q, 4, o);
    Assemble(c, &q, st);
    if (c.chance(1, 5) && !q.text.empty()) {
      // Something wrong with it.
      if (c.coin()) q.text.resize(c.below(q.text.size()));
      else q.text[c.below(q.text.size())] = "}]\"{x,"[c.below(6)];
    }
    p->info = Info(c, q);
    for (const Binding& b : q.bindings) p->binding_paths.push_back(b.key);
    p->streaming = q.streaming;
    p->delimiters = q.delimiters;
    p->script.content.Append(q.text);
    c.note("%s", kKind[p->kind]);
    NoteRequest(c, q);
  } else {
    const bool plain = c.coin();
    p->url = kUrl + string(plain ? "conv.Plain" : "conv.Msg");
    p->streaming = c.coin();
    p->opts.stream_newline_delimited = c.chance(1, 3);
    p->opts.json_print_options.add_whitespace = c.chance(1, 6);
    p->opts.json_print_options.always_print_primitive_fields = c.chance(1, 6);
    p->opts.json_print_options.always_print_enums_as_ints = c.chance(1, 3);
    p->opts.json_print_options.preserve_proto_field_names = c.chance(1, 3);
    const size_t n = p->streaming ? c.size(5) : 1;
    const size_t bad = c.chance(1, 5) ? c.below(n + 1) : n;
    for (size_t i = 0; i < n; i++) {
      string b;
      if (plain) {
        conv::Plain m;
        GenMsg(c, &m, 2, o);
        b = Det(m);
      } else {
        conv::Msg m;
        GenMsg(c, &m, 2, o);
        b = Det(m);
      }
      const bool wrong = i == bad;
      if (wrong && c.coin()) b += string("\x0a\x05" "ab", 4);
      AppendFrame(&p->script, b, wrong && c.coin() ? 1 : 0);
    }
    c.note("%s: %s, %s, %zu message(s)%s", kKind[p->kind], p->url.c_str(), p->streaming ? "streaming" : "unary", n, bad < n ? ", one of them wrong" : "");
  }
  p->script.content.Merge();
  p->script.total = p->script.content.size();
  if (p->script.total == 0) return false;
  ScriptedStream in(&p->script.content);
  JsonCuts(c, p->script.total, &in);
  p->cuts = in.cuts_;
  p->every = in.every_;
  p->zero_every = in.zero_every_;
  p->finish_late = c.coin();
  int64_t now = 0;
  while (now < p->script.total && p->arrivals.size() < 60) {
    if (!c.chance(1, 5)) now = framing::GenArrival(c, p->script, now);
    p->arrivals.push_back(now);
  }
  return true;
}

string Diff(const string& want, const string& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
  const size_t from = want.rfind('\n', i == 0 ? 0 : i - 1);
  const size_t a = from == string::npos ? 0 : from + 1;
  return "alone: ..." + Show(want.substr(a, 300)) + ", together: ..." + Show(got.substr(a, 300));
}

}  // namespace

// Their steps mixed in one thread.
PBT(C25, interleaved, 20000, 300000) {
  const size_t n = 2 + c.below(3);
  vector<std::unique_ptr<Plan>> plans;
  vector<string> alone;
  uint64_t h = n;
  for (size_t i = 0; i < n; i++) {
    plans.emplace_back(new Plan);
    if (!GenPlan(c, plans.back().get())) {
      plans.pop_back();
      continue;
    }
    alone.push_back(Session(*plans.back()).Run());
    h = pbt::HashStr(alone.back(), h);
  }
  if (plans.size() < 2) return;
  // The same plan may be under way twice.
  vector<size_t> which;
  for (size_t i = 0; i < plans.size(); i++) which.push_back(i);
  while (which.size() < 5 && c.chance(1, 4)) which.push_back(c.below(plans.size()));
  vector<std::unique_ptr<Session>> live(which.size());
  vector<bool> over(which.size());
  size_t left = which.size(), last = 0;
  for (int step = 0; left > 0; step++) {
    if (step > 5000) c.fail("no end");
    const bool hurry = step > 1500;
    size_t k = hurry ? static_cast<size_t>(step) % which.size() : c.coin() ? c.below(which.size()) : (last + 1) % which.size();
    last = k;
    if (over[k]) continue;
    if (!live[k]) live[k].reset(new Session(*plans[which[k]]));
    const size_t burst = c.chance(1, 10) ? 20 : 1;
    for (size_t b = 0; b < burst && !live[k]->done(); b++) live[k]->Step();
    if (live[k]->done()) {
      const string got = live[k]->End();
      if (got != alone[which[k]]) c.fail(Format("translation %zu (%s) goes differently among others; %s", which[k], kKind[plans[which[k]]->kind], Diff(alone[which[k]], got).c_str()));
      if (c.coin()) live[k].reset();  // destroyed at once or at the end
      over[k] = true;
      left--;
    } else if (c.chance(1, 60)) {
      live[k].reset();  // given up on, begun again
    }
  }
  // And once more alone.
  const size_t again = c.below(plans.size());
  const string later = Session(*plans[again]).Run();
  if (later != alone[again]) c.fail(Format("translation %zu (%s) goes differently after others; %s", again, kKind[plans[again]->kind], Diff(alone[again], later).c_str()));
  c.evaluations(which.size() + 1);
  c.nontrivial(h);
}

// In several threads at once.
PBT_NOFUZZ(C25, in_threads, 1500, 30000) {
  const size_t n = 4;
  vector<std::unique_ptr<Plan>> plans;
  vector<string> alone;
  uint64_t h = n;
  const bool same = c.chance(1, 3);
  for (size_t i = 0; i < n; i++) {
    plans.emplace_back(new Plan);
    if (!GenPlan(c, plans.back().get())) {
      plans.pop_back();
      continue;
    }
    alone.push_back(Session(*plans.back()).Run());
    h = pbt::HashStr(alone.back(), h);
  }
  if (plans.size() < 2) return;
  const int kThreads = 4, kRounds = 6;
  std::atomic<int> ready(0);
  vector<string> errors(kThreads);
  vector<std::thread> threads;
  for (int t = 0; t < kThreads; t++) {
    threads.emplace_back([&, t] {
      ready++;
      while (ready.load() < kThreads) sched_yield();
      for (int round = 0; round < kRounds; round++) {
        const size_t k = static_cast<size_t>(same ? round : t + round) % plans.size();
        const string got = Session(*plans[k]).Run();
        if (got != alone[k] && errors[t].empty()) errors[t] = Format("translation %zu (%s) goes differently in threads; %s", k, kKind[plans[k]->kind], Diff(alone[k], got).c_str());
      }
    });
  }
  for (auto& t : threads) t.join();
  for (auto& e : errors)
    if (!e.empty()) c.fail(e);
  c.evaluations(kThreads * kRounds);
  c.nontrivial(h);
}
