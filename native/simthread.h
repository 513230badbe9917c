// Deterministic stand-in for std::thread in the code under test.  Bodies run one at a time, as whole pieces; a seeded
// generator decides when: at creation, when any thread is created or joined, or only when the thread itself is joined
// (the latest moment the language allows).  A detached body may run at any later point, also after the caller has returned.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace sim_rt {
struct Task { std::function<void()> fn; bool done = false; };
inline std::vector<std::shared_ptr<Task>>& pending() { static std::vector<std::shared_ptr<Task>> v; return v; }
inline uint64_t& state() { static uint64_t s = 0; return s; }
inline uint64_t& ran() { static uint64_t s = 0; return s; }
inline uint64_t rnd(uint64_t n) {
  uint64_t& s = state();
  s += 0x9E3779B97F4A7C15ull;
  uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return (z ^ (z >> 31)) % n;
}
inline void run(std::shared_ptr<Task> t) {
  auto& p = pending();
  for (size_t i = 0; i < p.size(); i++) if (p[i] == t) { p.erase(p.begin() + i); break; }
  if (!t->done) { t->done = true; ran() = ran() * 31 + 7; t->fn(); }
}
// seed 0: every body runs as late as possible
inline void point() { while (state() && !pending().empty() && rnd(3) == 0) run(pending()[rnd(pending().size())]); }
}
extern "C" {
__attribute__((visibility("default"), used, weak)) void sim_thread_seed(uint64_t s) { sim_rt::state() = s; }
__attribute__((visibility("default"), used, weak)) int sim_thread_left() { return (int)sim_rt::pending().size(); }
__attribute__((visibility("default"), used, weak)) void sim_thread_flush() { while (!sim_rt::pending().empty()) sim_rt::run(sim_rt::pending()[0]); }
}
namespace std {
class sim_thread_cls {
  std::shared_ptr<sim_rt::Task> fn_;
 public:
  typedef int id;
  sim_thread_cls() noexcept {}
  template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, sim_thread_cls>::value>::type>
  explicit sim_thread_cls(F&& f, A&&... a) : fn_(std::make_shared<sim_rt::Task>()) {
    fn_->fn = std::bind(
        [](typename std::decay<F>::type& g, typename std::decay<A>::type&... x) { (void)std::invoke(g, x...); },
        std::forward<F>(f), std::forward<A>(a)...);
    sim_rt::pending().push_back(fn_);
    sim_rt::point();
  }
  sim_thread_cls(sim_thread_cls&& o) noexcept : fn_(std::move(o.fn_)) { o.fn_.reset(); }
  sim_thread_cls& operator=(sim_thread_cls&& o) {
    if (fn_) std::terminate();
    fn_ = std::move(o.fn_);
    o.fn_.reset();
    return *this;
  }
  sim_thread_cls(const sim_thread_cls&) = delete;
  ~sim_thread_cls() { if (fn_) std::terminate(); }
  bool joinable() const noexcept { return !!fn_; }
  void join() { auto f = fn_; fn_.reset(); sim_rt::point(); sim_rt::run(f); sim_rt::point(); }
  void detach() { fn_.reset(); sim_rt::point(); }
  static unsigned hardware_concurrency() noexcept { return 4; }
};
}
// Copies can be recorded instead of made, for buffers far larger than memory: (destination, source, length) of each.
namespace sim_rt {
struct Copy { uint64_t dst, src, n; };
inline std::vector<Copy>& copies() { static std::vector<Copy> v; return v; }
struct Areas { uint64_t s, d, n; };
inline Areas& areas() { static Areas a = {0, 0, 0}; return a; }
inline bool recording(const void* d, const void* s) {
  const uint64_t x = (uint64_t)(uintptr_t)d, y = (uint64_t)(uintptr_t)s;
  const Areas& a = areas();
  return a.n && ((x >= a.d && x - a.d < a.n) || (y >= a.s && y - a.s < a.n));
}
}
extern "C" {
__attribute__((visibility("default"), used, weak)) void sim_copy_record(uint64_t s, uint64_t d, uint64_t n) { sim_rt::areas() = {s, d, n}; sim_rt::copies().clear(); }
__attribute__((visibility("default"), used, weak)) int sim_copy_count() { return (int)sim_rt::copies().size(); }
__attribute__((visibility("default"), used, weak)) uint64_t sim_copy_at(int i, int k) {
  auto& c = sim_rt::copies()[i];
  return k == 0 ? c.dst : k == 1 ? c.src : c.n;
}
}
inline void* sim_memcpy(void* d, const void* s, size_t n) {
  if (!sim_rt::recording(d, s)) return __builtin_memcpy(d, s, n);
  if (n) sim_rt::copies().push_back({(uint64_t)(uintptr_t)d, (uint64_t)(uintptr_t)s, (uint64_t)n});
  return d;
}
inline void* sim_memmove(void* d, const void* s, size_t n) {
  if (!sim_rt::recording(d, s)) return __builtin_memmove(d, s, n);
  return sim_memcpy(d, s, n);
}
namespace std { using ::sim_memcpy; using ::sim_memmove; }
#define memcpy sim_memcpy
#define memmove sim_memmove
#define thread sim_thread_cls
