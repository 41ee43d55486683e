// Driver of the property-based testing engine; see pbt.h.
#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <fstream>
#include <sstream>
#include <typeinfo>
#include <unordered_set>

#define NOCOV __attribute__((no_sanitize("coverage")))

namespace pbt {

std::vector<Sub>& Registry() {
  static std::vector<Sub>* r = new std::vector<Sub>();
  return *r;
}

namespace {

constexpr size_t kTapeCap = 1 << 20;
enum Outcome : uint64_t { kPass = 0, kFail = 1, kCrash = 2, kWork = 3, kCpu = 4 };

// Lives in shared memory so that it survives the death of the process.
struct State {
  uint64_t magic;
  uint64_t outcome;
  uint64_t index;
  uint64_t ntape;
  char sub[64];
  char msg[1 << 16];
  uint64_t tape[kTapeCap];
};
State* g_state = nullptr;

State* MapState(const char* file) {
  void* p;
  if (file) {
    int fd = open(file, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(State)) != 0) {
      perror(file);
      exit(3);
    }
    p = mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else {
    p = mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  State* s = static_cast<State*>(p);
  s->magic = 0x7062743153544154ull;
  return s;
}

uint64_t g_work = 0;
uint64_t g_work_limit = ~0ull;

void SetMessage(const std::string& m) {
  size_t n = std::min(m.size(), sizeof(g_state->msg) - 1);
  memcpy(g_state->msg, m.data(), n);
  g_state->msg[n] = 0;
}

void OnCpu(int) {
  g_state->outcome = kCpu;
  static const char m[] = "no result after 60 s of CPU time for one small case (does not terminate)";
  memcpy(g_state->msg, m, sizeof(m));
  _exit(78);
}

void ArmCpu(int seconds) {
  struct itimerval tv;
  memset(&tv, 0, sizeof(tv));
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

constexpr int kCaseCpuSeconds = 60;
// Executed edges of the code under test allowed for one case. Ordinary cases
// need 1e3..1e6.
#ifdef PBT_COST
constexpr uint64_t kCaseWorkLimit = ~0ull;  // endless streams
#else
constexpr uint64_t kCaseWorkLimit = 400000000ull;
#endif

}  // namespace

NOCOV uint64_t Work() { return g_work; }
NOCOV void WorkReset() { g_work = 0; }
bool WorkAvailable() {
#ifdef PBT_WORK
  return true;
#else
  return false;
#endif
}

std::string Show(const std::string& s, size_t limit) {
  std::string o = "\"";
  size_t n = 0;
  for (unsigned char ch : s) {
    if (n++ >= limit) {
      o += Format("\"...(%zu bytes)", s.size());
      return o;
    }
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof(b), "\\x%02x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o + "\"";
}

std::string Format(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char* p = nullptr;
  int n = vasprintf(&p, fmt, ap);
  va_end(ap);
  std::string s(p, n);
  free(p);
  return s;
}

void Case::note(const char* fmt, ...) {
  if (!verbose) return;
  va_list ap;
  va_start(ap, fmt);
  char* p = nullptr;
  int n = vasprintf(&p, fmt, ap);
  va_end(ap);
  note_str(std::string(p, n));
  free(p);
}

void Case::note_str(const std::string& s) {
  if (!verbose) return;
  if (stream) {
    printf("%s\n", s.c_str());
    fflush(stdout);
  } else if (log.size() < (1 << 20)) {
    log += s;
    log += "\n";
  }
}

uint64_t Case::raw(uint64_t max) {
  uint64_t v = 0;
  if (enum_first) {
    enum_first = false;
    v = index;
    if (v > max) v = max;
  } else {
    switch (source) {
      case kRandom: {
        // xoroshiro128+
        uint64_t s0 = rng[0], s1 = rng[1];
        uint64_t r = s0 + s1;
        s1 ^= s0;
        rng[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
        rng[1] = (s1 << 37) | (s1 >> 27);
        if (max == ~0ull) {
          v = r;
        } else {
          v = static_cast<uint64_t>((static_cast<unsigned __int128>(r) * (max + 1)) >> 64);
        }
        break;
      }
      case kTape:
        if (in_pos < in_len) {
          v = in_tape[in_pos++];
          if (v > max) v = max == ~0ull ? v : v % (max + 1);
        }
        break;
      case kBytes: {
        int n = max == 0 ? 0 : max < 256 ? 1 : max < 65536 ? 2 : max < (1ull << 32) ? 4 : 8;
        for (int i = 0; i < n && bytes_pos < bytes_len; i++) v = (v << 8) | bytes[bytes_pos++];
        if (max != ~0ull) v %= max + 1;
        break;
      }
    }
  }
  if (g_state->ntape < kTapeCap) g_state->tape[g_state->ntape++] = v;
  return v;
}

size_t Case::weighted(std::initializer_list<unsigned> w) {
  uint64_t total = 0;
  for (unsigned x : w) total += x;
  uint64_t r = raw(total - 1);
  size_t i = 0;
  for (unsigned x : w) {
    if (r < x) return i;
    r -= x;
    i++;
  }
  return 0;
}

size_t Case::size(size_t max) {
  // Mostly small, with a thin tail.
  uint64_t k = raw(15);
  size_t lim = k < 8 ? 3 : k < 13 ? 8 : k < 15 ? 24 : max;
  if (lim > max) lim = max;
  return raw(lim);
}

namespace {

Outcome RunOne(const Sub& s, Case& c) {
  g_state->ntape = 0;
  g_state->outcome = kCrash;  // until proven otherwise
  g_work = 0;
  g_work_limit = kCaseWorkLimit;
  Outcome o;
  try {
    s.fn(c);
    o = kPass;
  } catch (Failure& f) {
    SetMessage(f.message);
    o = kFail;
  } catch (std::exception& e) {
    SetMessage(Format("unexpected exception %s: %s", typeid(e).name(), e.what()));
    o = kFail;
  }
  g_work_limit = ~0ull;
  g_state->outcome = o;
  return o;
}

void SeedCase(Case& c, uint64_t seed, const Sub& s, uint64_t index) {
  uint64_t h = Mix(seed ^ 0x5eed) ^ HashStr(std::string(s.property) + "/" + s.name);
  c.rng[0] = Mix(h ^ Mix(index * 2 + 1));
  c.rng[1] = Mix(c.rng[0] ^ 0xabcdef) | 1;
  c.source = Case::kRandom;
  c.index = index;
}

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o + "\"";
}

const Sub* FindSub(const std::string& prop, const std::string& name) {
  for (const Sub& s : Registry())
    if (prop == s.property && name == s.name) return &s;
  return nullptr;
}

struct Args {
  std::map<std::string, std::string> kv;
  std::vector<std::string> rest;
  std::string get(const std::string& k, const std::string& d = "") const {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  uint64_t num(const std::string& k, uint64_t d) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : strtoull(it->second.c_str(), nullptr, 10);
  }
};

double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

int CmdRun(const Args& a) {
  const std::string prop = a.get("property");
  const uint64_t seed = a.num("seed", 1);
  const uint64_t worker = a.num("worker", 0), workers = a.num("workers", 1);
  const bool thorough = a.get("tier", "quick") == "thorough";
  const double scale = atof(a.get("scale", "1").c_str());
  const double deadline = Now() + atof(a.get("deadline", "100000").c_str());
  const std::string only = a.get("sub");
  g_state = MapState(a.get("state").empty() ? nullptr : a.get("state").c_str());
  std::ofstream out(a.get("out").c_str());
  std::unordered_set<uint64_t> distinct;
  constexpr size_t kMaxDistinct = 3000000;
  uint64_t distinct_dropped = 0;
  std::string subs_json;
  bool failed = false;
  std::vector<std::pair<const Sub*, uint64_t>> plan;
  for (const Sub& s : Registry()) {
    if (prop != s.property) continue;
    if (!only.empty() && only != s.name) continue;
    uint64_t planned = thorough ? s.thorough : s.quick;
    if (!s.enumerated) planned = static_cast<uint64_t>(planned * scale);
    if (planned) plan.push_back(std::make_pair(&s, planned));
  }
  for (size_t si = 0; si < plan.size(); si++) {
    const Sub& s = *plan[si].first;
    const uint64_t planned = plan[si].second;
    // What is left of the time is shared by the sub-checks that are left.
    const double sub_deadline = Now() + (deadline - Now()) / static_cast<double>(plan.size() - si);
    snprintf(g_state->sub, sizeof(g_state->sub), "%s", s.name);
    std::map<std::string, uint64_t> labels;
    uint64_t cases = 0, evals = 0, nontriv = 0, bulk = 0, maxtape = 0;
    std::vector<uint64_t> sample_idx;
    bool complete = true;
    double t0 = Now();
    for (uint64_t i = worker; i < planned; i += workers) {
      if ((cases & 31) == 0) {
        if (Now() > sub_deadline) {
          complete = false;
          break;
        }
        ArmCpu(kCaseCpuSeconds);
      }
      Case c;
      c.labels_ = &labels;
      c.thorough = thorough;
      c.total = planned;
      SeedCase(c, seed, s, i);
      c.enum_first = s.enumerated;
      g_state->index = i;
      Outcome o = RunOne(s, c);
      cases++;
      evals += c.evals;
      maxtape = std::max(maxtape, g_state->ntape);
      if (o != kPass) {
        failed = true;
        break;
      }
      bulk += c.bulk_nt;
      if (c.is_nontrivial) {
        nontriv++;
        uint64_t key = Mix(c.nt_key ^ HashStr(s.name));
        if (distinct.size() < kMaxDistinct)
          distinct.insert(key);
        else
          distinct_dropped++;
        if (sample_idx.size() < 2 && cases > 20) sample_idx.push_back(i);
      }
    }
    ArmCpu(0);
    if (failed) break;
    double t1 = Now();
    std::string samples;
    if (worker == 0) {
      for (uint64_t i : sample_idx) {
        Case c;
        std::map<std::string, uint64_t> l2;
        c.labels_ = &l2;
        c.thorough = thorough;
        c.total = planned;
        SeedCase(c, seed, s, i);
        c.enum_first = s.enumerated;
        c.verbose = true;
        RunOne(s, c);
        if (c.log.size() > 3000) c.log = c.log.substr(0, 3000) + "...";
        samples += (samples.empty() ? "" : ",") + JsonStr(Format("[%s/%s case %llu] ", s.property, s.name, (unsigned long long)i) + c.log);
      }
    }
    if (!subs_json.empty()) subs_json += ",";
    subs_json += Format("{\"name\":%s,\"planned\":%llu,\"cases\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,"
                        "\"bulk_nontrivial\":%llu,\"complete\":%s,\"enumerated\":%s,\"max_tape\":%llu,\"seconds\":%.3f,\"labels\":{",
                        JsonStr(s.name).c_str(), (unsigned long long)planned, (unsigned long long)cases,
                        (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)bulk,
                        complete ? "true" : "false", s.enumerated ? "true" : "false", (unsigned long long)maxtape, t1 - t0);
    bool first = true;
    for (auto& kv : labels) {
      subs_json += (first ? "" : ",") + JsonStr(kv.first) + Format(":%llu", (unsigned long long)kv.second);
      first = false;
    }
    subs_json += "},\"samples\":[" + samples + "]}";
  }
  out << "{\"failed\":" << (failed ? "true" : "false") << ",\"distinct_dropped\":" << distinct_dropped
      << ",\"subs\":[" << subs_json << "]}\n";
  out.close();
  if (!a.get("hashes").empty()) {
    std::vector<uint64_t> v(distinct.begin(), distinct.end());
    FILE* f = fopen(a.get("hashes").c_str(), "wb");
    if (f) {
      fwrite(v.data(), 8, v.size(), f);
      fclose(f);
    }
  }
  if (failed) {
    fprintf(stderr, "FAIL %s/%s: %s\n", prop.c_str(), g_state->sub, g_state->msg);
    return 10;
  }
  return 0;
}

int CmdCountDistinct(const Args& a) {
  std::vector<uint64_t> all;
  for (auto& f : a.rest) {
    FILE* h = fopen(f.c_str(), "rb");
    if (!h) continue;
    uint64_t buf[4096];
    size_t n;
    while ((n = fread(buf, 8, 4096, h)) > 0) all.insert(all.end(), buf, buf + n);
    fclose(h);
  }
  std::sort(all.begin(), all.end());
  printf("%zu\n", (size_t)(std::unique(all.begin(), all.end()) - all.begin()));
  return 0;
}

std::vector<uint64_t> ReadTape(const std::string& file) {
  std::ifstream in(file.c_str());
  std::vector<uint64_t> t;
  uint64_t v;
  while (in >> v) t.push_back(v);
  return t;
}

void WriteTape(const std::string& file, const std::vector<uint64_t>& t) {
  std::ofstream o(file.c_str());
  for (uint64_t v : t) o << v << "\n";
}

// Runs one tape in a forked child.
struct Attempt {
  Outcome outcome;
  std::vector<uint64_t> tape;
  std::string msg;
};

Attempt RunForked(const Sub& s, const std::vector<uint64_t>& tape, bool thorough) {
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int devnull = open("/dev/null", O_RDWR);
    dup2(devnull, 1);
    dup2(devnull, 2);
    ArmCpu(kCaseCpuSeconds);
    std::map<std::string, uint64_t> labels;
    Case c;
    c.labels_ = &labels;
    c.thorough = thorough;
    c.source = Case::kTape;
    c.in_tape = tape.data();
    c.in_len = tape.size();
    c.total = thorough ? s.thorough : s.quick;
    Outcome o = RunOne(s, c);
    _exit(o == kPass ? 0 : 10);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Attempt at;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    at.outcome = kPass;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
    at.outcome = kFail;
    at.msg = g_state->msg;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
    at.outcome = kWork;
    at.msg = g_state->msg;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) {
    at.outcome = kCpu;
    at.msg = g_state->msg;
  } else {
    at.outcome = kCrash;
    at.msg = WIFSIGNALED(st) ? Format("the process was killed by signal %d", WTERMSIG(st))
                             : Format("the process aborted with exit status %d (sanitizer report or assertion)", WEXITSTATUS(st));
  }
  at.tape.assign(g_state->tape, g_state->tape + std::min<uint64_t>(g_state->ntape, kTapeCap));
  return at;
}

bool Smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

int CmdShrink(const Args& a) {
  const Sub* s = FindSub(a.get("property"), a.get("sub"));
  if (!s) return 3;
  g_state = MapState(nullptr);
  const bool thorough = a.get("tier") == "thorough";
  std::vector<uint64_t> best = ReadTape(a.get("tape"));
  Attempt first = RunForked(*s, best, thorough);
  if (first.outcome == kPass) {
    fprintf(stderr, "the tape does not fail\n");
    return 4;
  }
  const Outcome want = first.outcome;
  if (first.tape.size() <= best.size()) best = first.tape;
  uint64_t budget = a.num("attempts", 3000);
  if (want == kCpu) budget = 2;
  if (want == kWork) budget = std::min<uint64_t>(budget, 60);
  const double deadline = Now() + atof(a.get("deadline", "90").c_str());
  uint64_t used = 0;
  auto over = [&] { return used >= budget || Now() > deadline; };
  auto attempt = [&](const std::vector<uint64_t>& t) {
    if (over()) return false;
    used++;
    Attempt r = RunForked(*s, t, thorough);
    if (r.outcome != want) return false;
    // Drop unread rest, normalise clamped values.
    std::vector<uint64_t> n = Smaller(r.tape, t) ? r.tape : t;
    if (!Smaller(n, best)) return false;
    best = n;
    return true;
  };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.size() && !over();) {
        std::vector<uint64_t> t(best);
        t.erase(t.begin() + i, t.begin() + i + chunk);
        // Removing an element often needs its count lowered too.
        bool ok = attempt(t);
        if (!ok && i > 0 && best[i - 1] > 0 && chunk <= 8) {
          t[i - 1]--;
          ok = attempt(t);
        }
        if (ok)
          progress = true;
        else
          i += std::max<size_t>(1, chunk / 2);
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < best.size() && !over(); i++) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> t(best);
      t[i] = 0;
      if (attempt(t)) {
        progress = true;
        continue;
      }
      if (i >= best.size()) break;
      // binary descent
      uint64_t lo = 0, hi = best[i];
      while (hi - lo > 1 && !over() && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> u(best);
        u[i] = mid;
        if (attempt(u)) {
          progress = true;
          hi = i < best.size() ? best[i] : 0;
          if (hi <= lo) break;
        } else {
          lo = mid;
        }
      }
    }
  }
  WriteTape(a.get("out"), best);
  fprintf(stderr, "shrunk to %zu choices in %llu attempts\n", best.size(), (unsigned long long)used);
  return 0;
}

int CmdReplay(const Args& a) {
  const Sub* s = FindSub(a.get("property"), a.get("sub"));
  if (!s) {
    fprintf(stderr, "no such sub-check\n");
    return 3;
  }
  g_state = MapState(a.get("state").empty() ? nullptr : a.get("state").c_str());
  std::vector<uint64_t> t;
  std::string bytes;
  Case c;
  std::map<std::string, uint64_t> labels;
  c.labels_ = &labels;
  c.thorough = a.get("tier") == "thorough";
  c.total = c.thorough ? s->thorough : s->quick;
  c.verbose = true;
  if (!a.get("bytes").empty()) {
    std::ifstream in(a.get("bytes").c_str(), std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    bytes = ss.str();
    c.source = Case::kBytes;
    c.bytes = reinterpret_cast<const uint8_t*>(bytes.data());
    c.bytes_len = bytes.size();
  } else {
    t = ReadTape(a.get("tape"));
    c.source = Case::kTape;
    c.in_tape = t.data();
    c.in_len = t.size();
  }
  snprintf(g_state->sub, sizeof(g_state->sub), "%s", s->name);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    ArmCpu(kCaseCpuSeconds);
    c.stream = true;  // notes are printed at once: the case may crash
    Outcome o = RunOne(*s, c);
    if (o == kFail) printf("FAILED: %s\n", g_state->msg);
    fflush(stdout);
    _exit(o == kPass ? 0 : 10);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(st)) {
    int rc = WEXITSTATUS(st);
    if (rc == 77 || rc == 78) printf("FAILED: %s\n", g_state->msg);
    else if (rc != 0 && rc != 10) printf("FAILED: the process aborted with exit status %d (sanitizer report or assertion above)\n", rc);
    return rc == 0 ? 0 : 10;
  }
  printf("FAILED: the process was killed by signal %d\n", WTERMSIG(st));
  return 10;
}

// Extracts the tape of a state file left by a dead worker.
int CmdDump(const Args& a) {
  int fd = open(a.get("state").c_str(), O_RDONLY);
  if (fd < 0) return 3;
  void* p = mmap(nullptr, sizeof(State), PROT_READ, MAP_SHARED, fd, 0);
  if (p == MAP_FAILED) return 3;
  const State* s = static_cast<const State*>(p);
  std::vector<uint64_t> t(s->tape, s->tape + std::min<uint64_t>(s->ntape, kTapeCap));
  WriteTape(a.get("out"), t);
  printf("%s\n%llu\n%llu\n%s\n", s->sub, (unsigned long long)s->outcome, (unsigned long long)s->index, s->msg);
  return 0;
}

}  // namespace

}  // namespace pbt

#ifdef PBT_WORK
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  for (uint32_t* p = start; p < stop; p++) *p = 1;
}
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t*) {
  if (++pbt::g_work > pbt::g_work_limit) {
    pbt::g_work_limit = ~0ull;
    pbt::g_state->outcome = pbt::kWork;
    static const char m[] = "the code under test executed more than 4e8 edges in one small case (exponential cost or endless loop)";
    memcpy(pbt::g_state->msg, m, sizeof(m));
    _exit(77);
  }
}
#endif

#ifdef PBT_FUZZ
// Coverage-guided mode: libFuzzer supplies the tape. PBT_FUZZ_SUB=prop/name.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static const pbt::Sub* sub = nullptr;
  static std::map<std::string, uint64_t> labels;
  static FILE* stats = nullptr;
  static uint64_t n = 0, nt = 0;
  if (!sub) {
    std::string v = getenv("PBT_FUZZ_SUB") ? getenv("PBT_FUZZ_SUB") : "";
    size_t p = v.find('/');
    if (p != std::string::npos) sub = pbt::FindSub(v.substr(0, p), v.substr(p + 1));
    if (!sub) {
      fprintf(stderr, "PBT_FUZZ_SUB must name prop/sub\n");
      exit(3);
    }
    pbt::g_state = pbt::MapState(getenv("PBT_FUZZ_STATE"));
    snprintf(pbt::g_state->sub, sizeof(pbt::g_state->sub), "%s", sub->name);
  }
  pbt::Case c;
  c.labels_ = &labels;
  c.thorough = true;
  c.total = sub->thorough;
  c.source = pbt::Case::kBytes;
  c.bytes = data;
  c.bytes_len = size;
  pbt::Outcome o = pbt::RunOne(*sub, c);
  n++;
  if (c.is_nontrivial) nt++;
  if ((n & 1023) == 0 && getenv("PBT_FUZZ_STATS")) {
    stats = fopen(getenv("PBT_FUZZ_STATS"), "w");
    if (stats) {
      fprintf(stats, "%llu %llu\n", (unsigned long long)n, (unsigned long long)nt);
      fclose(stats);
    }
  }
  if (o != pbt::kPass) {
    fprintf(stderr, "FAILED: %s\n", pbt::g_state->msg);
    abort();
  }
  return 0;
}
#else
int main(int argc, char** argv) {
  pbt::Args a;
  std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i < argc; i++) {
    std::string s = argv[i];
    if (s.compare(0, 2, "--") == 0) {
      size_t e = s.find('=');
      a.kv[s.substr(2, e == std::string::npos ? std::string::npos : e - 2)] = e == std::string::npos ? "1" : s.substr(e + 1);
    } else {
      a.rest.push_back(s);
    }
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = pbt::OnCpu;
  sigaction(SIGPROF, &sa, nullptr);
  if (cmd == "list") {
    for (auto& s : pbt::Registry()) printf("%s %s %d\n", s.property, s.name, s.fuzzable ? 1 : 0);
    return 0;
  }
  if (cmd == "run") return pbt::CmdRun(a);
  if (cmd == "shrink") return pbt::CmdShrink(a);
  if (cmd == "replay") return pbt::CmdReplay(a);
  if (cmd == "dump") return pbt::CmdDump(a);
  if (cmd == "distinct") return pbt::CmdCountDistinct(a);
  fprintf(stderr, "usage: %s run|shrink|replay|dump|distinct|list --key=value...\n", argv[0]);
  return 3;
}
#endif
