// The installed Abseil is not built for ThreadSanitizer, which therefore does
// not see its mutexes. These take the place of absl::Mutex's own functions in
// the program and tell it about them. Empty in other builds.
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#include <dlfcn.h>
#include <stdlib.h>

#include "absl/synchronization/mutex.h"

extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);

// The mangled name depends on the library's inline namespace, so it is looked up
// by the function's address (the program exports its symbols).
template <typename F, typename M>
F Real(M method) {
  union {
    M m;
    void* p;
  } u;
  u.m = method;
  Dl_info info;
  if (!dladdr(u.p, &info) || !info.dli_sname) abort();
  void* f = dlsym(RTLD_NEXT, info.dli_sname);
  if (!f) abort();
  return reinterpret_cast<F>(f);
}

typedef void (*VoidFn)(absl::Mutex*);
typedef bool (*BoolFn)(absl::Mutex*);

namespace absl {
ABSL_NAMESPACE_BEGIN
void Mutex::Lock() {
  static VoidFn real = Real<VoidFn>(&Mutex::Lock);
  real(this);
  __tsan_acquire(this);
}
void Mutex::Unlock() {
  static VoidFn real = Real<VoidFn>(&Mutex::Unlock);
  __tsan_release(this);
  real(this);
}
void Mutex::ReaderLock() {
  static VoidFn real = Real<VoidFn>(&Mutex::ReaderLock);
  real(this);
  __tsan_acquire(this);
}
void Mutex::ReaderUnlock() {
  static VoidFn real = Real<VoidFn>(&Mutex::ReaderUnlock);
  __tsan_release(this);
  real(this);
}
bool Mutex::TryLock() {
  static BoolFn real = Real<BoolFn>(&Mutex::TryLock);
  const bool r = real(this);
  if (r) __tsan_acquire(this);
  return r;
}
bool Mutex::ReaderTryLock() {
  static BoolFn real = Real<BoolFn>(&Mutex::ReaderTryLock);
  const bool r = real(this);
  if (r) __tsan_acquire(this);
  return r;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
#endif
