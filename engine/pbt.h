// A small property-based testing engine built around one "choice tape".
//
// Every random decision of a case is one integer drawn with Case::raw(max). The
// tape of these integers fully determines the case, so that
//   * a random case is a pure function of (seed, sub-check, worker, index),
//   * a failing case is replayed from its tape,
//   * shrinking edits the tape (0 is always the simplest choice),
//   * libFuzzer bytes can stand in for the tape (coverage-guided search).
#ifndef PBT_H_
#define PBT_H_

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <map>
#include <new>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure {
  std::string message;
};

inline uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline uint64_t HashBytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* b = static_cast<const unsigned char*>(p);
  h ^= 0x2545f4914f6cdd1dull + n;
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, b, 8);
    h = Mix(h ^ w);
    b += 8;
    n -= 8;
  }
  uint64_t w = 0;
  memcpy(&w, b, n);
  return Mix(h ^ w);
}
inline uint64_t HashStr(const std::string& s, uint64_t h = 0) {
  return HashBytes(s.data(), s.size(), h);
}

// Printable form of an arbitrary byte string.
std::string Show(const std::string& s, size_t limit = 400);
std::string Format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// A buffer of n bytes. With the address sanitizer it is exactly that large, so
// that reading past it shows. Elsewhere something follows it: the installed
// JSON parser appends the (empty) rest of its input to a buffer of its own and
// has a debug check there that fails when the two happen to be neighbours.
inline char* Bytes(size_t n) {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
  return new char[n];
#endif
#endif
  return new char[n + 1];
}

// A T made in memory that held something else before, so that a member the
// constructor leaves alone is not zero by luck.
template <class T>
class Fresh {
 public:
  Fresh() { Dirty(), new (at_) T; }
  template <class... A>
  explicit Fresh(A&&... a) {
    Dirty(), new (at_) T(std::forward<A>(a)...);
  }
  Fresh(const Fresh&) = delete;
  Fresh& operator=(const Fresh&) = delete;
  ~Fresh() { (**this).~T(); }
  T& operator*() { return *std::launder(reinterpret_cast<T*>(at_)); }

 private:
  void Dirty() {
    memset(at_, 0xbe, sizeof(at_));
    asm volatile("" : : "r"(at_) : "memory");  // not a dead store
  }
  alignas(T) unsigned char at_[sizeof(T)];
};

class Case {
 public:
  // A choice in [0, max].
  uint64_t raw(uint64_t max);
  uint64_t below(uint64_t n) { return n <= 1 ? (raw(0), 0) : raw(n - 1); }
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(raw(static_cast<uint64_t>(hi - lo)));
  }
  // True with probability num/den; shrinks towards false.
  bool chance(unsigned num, unsigned den) { return raw(den - 1) >= den - num; }
  bool coin() { return raw(1) == 1; }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  const char* pickc(std::initializer_list<const char*> v) {
    return *(v.begin() + below(v.size()));
  }
  // Index drawn with the given weights; index 0 is the simplest.
  size_t weighted(std::initializer_list<unsigned> w);
  // A size that is usually small, sometimes up to `max`.
  size_t size(size_t max);

  // -- observation
  bool verbose = false;
  bool stream = false;  // print notes instead of collecting them
  std::string log;
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void note_str(const std::string& s);
  void label(const char* name) { (*labels_)[name]++; }
  void label(const std::string& name) { (*labels_)[name]++; }
  // Marks the case as non-trivial; `key` identifies it for distinctness.
  void nontrivial(uint64_t key) {
    is_nontrivial = true;
    nt_key = key;
  }
  // Evaluations this case stands for (an enumerating case may check many).
  void evaluations(uint64_t n) { evals = n; }
  // Extra distinct non-trivial inputs checked inside one enumerating case.
  void bulk_nontrivial(uint64_t n) { bulk_nt += n; }

  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
  void check(bool ok, const std::string& m) {
    if (!ok) fail(m);
  }

  // -- used by the driver
  enum Source { kRandom, kTape, kBytes };
  Source source = kRandom;
  uint64_t rng[2] = {1, 2};
  const uint64_t* in_tape = nullptr;
  size_t in_len = 0, in_pos = 0;
  const uint8_t* bytes = nullptr;
  size_t bytes_len = 0, bytes_pos = 0;
  bool enum_first = false;  // the next raw() returns `index`
  uint64_t index = 0;   // index of the case inside its sub-check (all workers)
  uint64_t total = 0;   // number of cases planned for this sub-check
  bool is_nontrivial = false;
  uint64_t nt_key = 0;
  uint64_t evals = 1;
  uint64_t bulk_nt = 0;
  std::map<std::string, uint64_t>* labels_ = nullptr;
  bool thorough = false;
};

typedef void (*PropFn)(Case&);

struct Sub {
  const char* property;
  const char* name;
  PropFn fn;
  uint64_t quick;      // cases in the quick tier
  uint64_t thorough;   // cases in the thorough tier
  bool enumerated;     // case i is the i-th element of a finite space (one raw choice = index)
  bool fuzzable;
};

std::vector<Sub>& Registry();
struct Registrar {
  Registrar(const Sub& s) { Registry().push_back(s); }
};

// PBT(C01, random, 100000, 4000000) { ... uses `c` ... }
#define PBT_IMPL(prop, nm, quick, thorough, en, fz)                                              \
  static void prop##_##nm(::pbt::Case& c);                                                       \
  static ::pbt::Registrar prop##_##nm##_reg(                                                     \
      ::pbt::Sub{#prop, #nm, prop##_##nm, (uint64_t)(quick), (uint64_t)(thorough), en, fz});      \
  static void prop##_##nm(::pbt::Case& c)
#if defined(__has_feature) && __has_feature(thread_sanitizer)
// Under ThreadSanitizer only the sub-checks that start threads are of interest.
#define PBT(prop, nm, quick, thorough) [[maybe_unused]] static void prop##_##nm(::pbt::Case& c)
#else
#define PBT(prop, nm, quick, thorough) PBT_IMPL(prop, nm, quick, thorough, false, true)
#endif
// Not useful for coverage-guided fuzzing (threads, forks, ...).
#define PBT_NOFUZZ(prop, nm, quick, thorough) PBT_IMPL(prop, nm, quick, thorough, false, false)
// Case number i (drawn with c.raw) enumerates a finite space completely.
#define PBT_ENUM(prop, nm, quick, thorough) PBT_IMPL(prop, nm, quick, thorough, true, false)

// Work done by the code under test, in executed basic-block edges (only in
// builds where /repo's code is instrumented; 0 otherwise).
uint64_t Work();
void WorkReset();
bool WorkAvailable();

}  // namespace pbt

#endif  // PBT_H_
