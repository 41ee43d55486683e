// C11: concurrent lookups (built with ThreadSanitizer).
#include <atomic>
#include <thread>

#include "sut.h"

using namespace model;
using namespace sut;

PBT_NOFUZZ(C11, concurrent_lookup, 6000, 120000) {
  ConfigGen g;
  g.max_regs = 16;
  g.sys_params = true;
  g.allow_duplicates = c.chance(1, 4);
  if (c.coin()) MakeDense(&g);
  vector<Reg> regs = GenRegs(c, g);
  Options opt = GenOptions(c);
  if (c.verbose) {
    c.note("options: %s", ShowOptions(opt).c_str());
    c.note_str(ShowRegs(regs));
  }
  auto m = sut::Build(c, regs, opt);
  struct Req {
    string method, path, query;
    Answer a;
    vector<Binding> want;
  };
  vector<Req> reqs;
  size_t n = 3 + c.below(6);
  uint64_t h = HashRegs(regs);
  bool hit = false;
  for (size_t i = 0; i < n; i++) {
    Req q;
    q.method = regs[c.below(regs.size())].method;
    q.path = GenPath(c, regs, true, g.tg.dense);
    if (c.coin()) q.query = GenQuery(c, {"key", "x"});
    q.a = RefLookup(regs, opt, q.method, q.path);
    if (q.a.reg) {
      q.want = RefBindings(q.a, opt, q.query);
      hit = true;
    }
    c.note("request %s %s %s -> %s", pbt::Show(q.method).c_str(), pbt::Show(q.path).c_str(), pbt::Show(q.query).c_str(), Name(q.a.reg).c_str());
    reqs.push_back(q);
    h = pbt::HashStr(q.path, pbt::HashStr(q.query, h));
  }
  const int kThreads = 4;
  std::atomic<int> ready(0);
  vector<string> errors(kThreads);
  vector<std::thread> threads;
  for (int t = 0; t < kThreads; t++) {
    threads.emplace_back([&, t] {
      ready++;
      while (ready.load() < kThreads) {
      }
      vector<gt::VariableBinding> vb;
      string body;
      for (int round = 0; round < 3; round++) {
        for (size_t k = 0; k < reqs.size(); k++) {
          // Half of the threads walk in step, the others in other orders.
          const Req& q = reqs[(t < 2 ? k : k * 5 + t) % reqs.size()];
          Method got = (k + t) % 3 == 0 ? m->Lookup(q.method, q.path) : m->Lookup(q.method, q.path, q.query, &vb, &body);
          if (got != q.a.reg) errors[t] = "concurrent Lookup(" + q.method + ", " + q.path + ") gave " + Name(got) + ", alone it gives " + Name(q.a.reg);
          if (got && (k + t) % 3 != 0 && (!(FromSut(vb) == q.want) || body != got->body)) errors[t] = "concurrent Lookup(" + q.method + ", " + q.path + ") gave other bindings: " + ShowBindings(FromSut(vb));
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  for (auto& e : errors)
    if (!e.empty()) c.fail(e);
  c.evaluations(kThreads * 3 * reqs.size());
  c.label(hit ? "case:hits" : "case:misses-only");
  if (hit) c.nontrivial(h);
}
