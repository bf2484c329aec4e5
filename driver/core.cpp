// Instantiates the public API of the library (and nothing of its own that is of interest).
#include "std.inc"

namespace probe {

// ---- opaque user code: everything below may throw --------------------------------------------
int u_int(int);
void u_void();
void u_ctx(lf::worker_context *);
bool u_bool();
struct hairy {           // a value type whose every operation may throw
  hairy();
  hairy(int);
  hairy(hairy const &);
  hairy(hairy &&);
  auto operator=(hairy const &) -> hairy &;
  auto operator=(hairy &&) -> hairy &;
  ~hairy();
  int v;
};
hairy u_hairy(hairy const &);

// ---- tasks ----------------------------------------------------------------------------------
inline constexpr auto leaf_int = [](auto, int n) -> lf::task<int> { co_return u_int(n); };
inline constexpr auto leaf_void = [](auto) -> lf::task<void> { u_void(); co_return; };
inline constexpr auto leaf_ref = [](auto, int &n) -> lf::task<int &> { co_return n; };
inline constexpr auto leaf_hairy = [](auto, hairy h) -> lf::task<hairy> { co_return u_hairy(h); };

inline constexpr auto fib = [](auto fib, int n) -> lf::task<int> {
  if (n < 2) co_return n;
  int a, b;
  co_await lf::fork(&a, fib)(n - 1);
  co_await lf::call(&b, fib)(n - 2);
  co_await lf::join;
  co_return a + b;
};

// one task per dispatch kind so that every awaitable is visible in isolation
inline constexpr auto t_join = [](auto) -> lf::task<int> {
  int a = 0;
  co_await lf::fork(&a, leaf_int)(1);
  co_await lf::join;
  co_return a;
};
inline constexpr auto t_call = [](auto) -> lf::task<int> {
  int a = 0;
  co_await lf::call(&a, leaf_int)(1);
  co_return a;
};
inline constexpr auto t_just = [](auto) -> lf::task<int> { co_return co_await lf::just(leaf_int)(1); };
inline constexpr auto t_just_void = [](auto) -> lf::task<void> { co_await lf::just(leaf_void)(); };
inline constexpr auto t_just_ref = [](auto, int &x) -> lf::task<int> { co_return co_await lf::just(leaf_ref)(x); };
inline constexpr auto t_just_hairy = [](auto, hairy h) -> lf::task<hairy> { co_return co_await lf::just(leaf_hairy)(h); };
inline constexpr auto t_just_fun = [](auto) -> lf::task<int> { co_return co_await lf::just(u_int)(1); };

using lf::tag;
namespace mod = lf::modifier;
inline constexpr auto t_mods = [](auto) -> lf::task<int> {
  int a = 0;
  co_await lf::dispatch<tag::call, mod::eager_throw>(&a, leaf_int)(1);
  co_await lf::dispatch<tag::call, mod::eager_throw_outside>(&a, leaf_int)(1);
  lf::try_eventually<int> e, g;
  co_await lf::dispatch<tag::call, mod::eager_throw>(&e, leaf_int)(1);
  co_await lf::dispatch<tag::call, mod::eager_throw_outside>(&g, leaf_int)(1);
  bool x = co_await lf::dispatch<tag::fork, mod::sync_outside>(&a, leaf_int)(1);
  bool y = co_await lf::dispatch<tag::fork, mod::sync>(&a, leaf_int)(1);
  lf::try_eventually<int> h, k;
  bool z = co_await lf::dispatch<tag::fork, mod::sync_outside>(&h, leaf_int)(1);
  bool w = co_await lf::dispatch<tag::fork, mod::sync>(&k, leaf_int)(1);
  co_await lf::join;
  co_return a + x + y + z + w;
};
inline constexpr auto t_results = [](auto, hairy hh) -> lf::task<int> {
  int x = 0;
  lf::eventually<int> e1;
  lf::try_eventually<int> e2;
  lf::eventually<int &> e3;
  lf::try_eventually<int &> e4;
  lf::try_eventually<void> e5;
  lf::eventually<hairy> e6;
  lf::try_eventually<hairy> e7;
  hairy h8;
  co_await lf::fork(&e1, leaf_int)(1);
  co_await lf::fork(&e2, leaf_int)(1);
  co_await lf::fork(&e3, leaf_ref)(x);
  co_await lf::fork(&e4, leaf_ref)(x);
  co_await lf::fork(&e5, leaf_void)();
  co_await lf::fork(&e6, leaf_hairy)(hh);
  co_await lf::fork(&e7, leaf_hairy)(hh);
  co_await lf::fork(&h8, leaf_hairy)(hh);
  co_await lf::fork(leaf_void)();
  co_await lf::fork(leaf_int)(3);
  co_await lf::call(leaf_int)(3);
  co_await lf::join;
  int s = *e1;
  if (e2.has_exception() || e4.has_exception() || e5.has_exception() || e7.has_exception()) s++;
  if (e1.has_value() || e2.has_value() || e3.has_value() || e4.has_value() || e6.has_value() || e7.has_value()) s++;
  if (e1.empty() || e2.empty() || e3.empty() || e4.empty() || e5.empty() || e6.empty() || e7.empty()) s++;
  co_return s + *e2 + *e3 + *e4;
};
inline constexpr auto t_stash = [](auto self) -> lf::task<void> {
  try {
    u_void();
  } catch (...) {
    self.stash_exception();
  }
  co_await lf::join;
};

struct user_switch {     // a context switch that may throw anywhere
  bool await_ready();
  void await_suspend(lf::submit_handle);
  int await_resume();
};
inline constexpr auto t_switch = [](auto) -> lf::task<int> { co_return co_await user_switch{}; };
inline constexpr auto t_resume_on = [](auto self) -> lf::task<void> { u_ctx(self.context()); co_await lf::join; u_ctx(self.context()); };
inline constexpr auto t_resume_on_pool = [](auto, lf::worker_context *w) -> lf::task<void> { co_await lf::resume_on(w); };

inline constexpr auto t_alloc = [](auto) -> lf::task<int> {
  auto [buf] = co_await lf::co_new<hairy>(10);
  auto [b2] = co_await lf::co_new<int>(10);
  co_return u_int(static_cast<int>(buf.size())) + b2[0];
};

// ---- a scheduler that may throw ---------------------------------------------------------------
struct user_sched {
  void schedule(lf::submit_handle);
};

inline int roots() {
  user_sched s;
  lf::lazy_pool lp{2};
  lf::busy_pool bp_{2};
  lf::unit_pool up;
  int r = lf::sync_wait(s, fib, 3) + lf::sync_wait(lp, fib, 3) + lf::sync_wait(bp_, fib, 3) + lf::sync_wait(up, fib, 3);
  lf::detach(s, leaf_void);
  auto f = lf::schedule(s, leaf_int, 1);
  auto f2 = std::move(f);
  f = std::move(f2);
  if (f.valid()) f.wait();
  r += f.get();
  auto fv = lf::schedule(s, leaf_void);
  fv.get();
  int x = 0;
  auto fr = lf::schedule(s, leaf_ref, x);
  r += fr.get();
  auto fh = lf::schedule(s, leaf_hairy, hairy{});
  r += fh.get().v;
  lf::sync_wait(s, t_join); lf::sync_wait(s, t_call); lf::sync_wait(s, t_just); lf::sync_wait(s, t_just_void);
  lf::sync_wait(s, t_just_ref, x); lf::sync_wait(s, t_just_hairy, hairy{}); lf::sync_wait(s, t_just_fun);
  lf::sync_wait(s, t_mods); lf::sync_wait(s, t_results, hairy{}); lf::sync_wait(s, t_stash); lf::sync_wait(s, t_switch);
  lf::sync_wait(s, t_resume_on); lf::sync_wait(s, t_resume_on_pool, nullptr); lf::sync_wait(s, t_alloc);
  r += lf::sync_wait(s, lf::lift, u_int, 3);
  lf::lazy_pool lp2 = std::move(lp);
  lf::busy_pool bp2 = std::move(bp_);
  lp = std::move(lp2);
  bp_ = std::move(bp2);
  return r;
}

// ---- the pieces an extender uses ----------------------------------------------------------------
inline void ext(std::optional<int> &sink, lf::deque<int *> &dq, lf::intrusive_list<int *> &il, lf::intrusive_list<int *>::node *nd) {
  dq.push(nullptr);
  sink = dq.pop() ? 1 : 0;
  auto st = dq.steal();
  sink = static_cast<int>(st.code);
  sink = dq.empty() + static_cast<int>(dq.size()) + static_cast<int>(dq.ssize()) + static_cast<int>(dq.capacity());
  auto pz = dq.pop([]() -> std::optional<int *> { return {}; });
  sink = pz.has_value();
  il.push(nd);
  auto *p = il.try_pop_all();
  for_each_elem(p, [](int *) { u_void(); });
  lf::event_count ec;
  auto k = ec.prepare_wait();
  ec.cancel_wait();
  ec.wait(k);
  ec.notify_one();
  ec.notify_all();
  ec.await([] { return u_bool(); });
  lf::worker_context *w = lf::worker_init(lf::nullary_function_t{[] { }});
  if (auto *sub = w->try_pop_all()) lf::resume(sub);
  auto stl = w->try_steal();
  if (stl) lf::resume(*stl);
  lf::finalize(w);
}
inline void mk() {
  lf::deque<int *> d{8};
  lf::intrusive_list<int *> l;
  std::optional<int> s;
  lf::intrusive_list<int *>::node n{nullptr};
  ext(s, d, l, &n);
  lf::numa_topology topo;
  (void)topo.split(4);
  (void)topo.distribute(std::vector{std::make_shared<int>(1)});
}
}  // namespace probe

int lfa_entry() {
  probe::mk();
  return probe::roots();
}
