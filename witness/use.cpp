// Instantiates the whole public vocabulary without throwing or catching anything itself, so that it can be
// compiled in every configuration, with exceptions disabled too.
#include <libfork.hpp>
#include <optional>
#include <utility>
#include <vector>

namespace use {
using lf::tag;
namespace mod = lf::modifier;

inline constexpr auto leaf = [](auto, int n) -> lf::task<int> { co_return n; };
inline constexpr auto leaf_void = [](auto) -> lf::task<void> { co_return; };
inline constexpr auto leaf_ref = [](auto, int &n) -> lf::task<int &> { co_return n; };
inline constexpr auto fib = [](auto fib, int n) -> lf::task<int> {
  if (n < 2) {
    co_return n;
  }
  int a, b;
  co_await lf::fork(&a, fib)(n - 1);
  co_await lf::call(&b, fib)(n - 2);
  co_await lf::join;
  co_return a + b;
};
inline constexpr auto mods = [](auto self, lf::worker_context *w, lf::lazy_pool *p) -> lf::task<int> {
  int a = 0, x = 0;
  lf::eventually<int> e;
  lf::try_eventually<int> t;
  lf::eventually<int &> r;
  lf::try_eventually<void> v;
  co_await lf::dispatch<tag::call, mod::eager_throw>(&a, leaf)(1);
  co_await lf::dispatch<tag::call, mod::eager_throw_outside>(&a, leaf)(1);
  (void)co_await lf::dispatch<tag::fork, mod::sync_outside>(&a, leaf)(1);
  co_await lf::join;
  (void)co_await lf::dispatch<tag::fork, mod::sync>(&a, leaf)(1);
  co_await lf::fork(&e, leaf)(1);
  co_await lf::fork(&t, leaf)(1);
  co_await lf::fork(&r, leaf_ref)(x);
  co_await lf::fork(&v, leaf_void)();
  co_await lf::fork(leaf)(2);
  co_await lf::call(leaf_void)();
  co_await lf::join;
  a += co_await lf::just(leaf)(1);
  a += co_await lf::just([](int y) { return y; })(1);
  co_await lf::just(leaf_void)();
  co_await lf::resume_on(w);
  co_await lf::resume_on(p);
  {
    auto [buf] = co_await lf::co_new<int>(8);
    a += static_cast<int>(buf.size());
  }
  a += self.context() == w;
  co_return a + *e + *t + *r + t.has_value() + v.has_exception() + e.empty();
};
inline constexpr auto algos = [](auto, std::vector<int> &in, std::vector<int> &out) -> lf::task<int> {
  auto inc = [](int &x) { ++x; };
  auto neg = [](int x) { return -x; };
  auto add = [](int x, int y) { return x + y; };
  co_await lf::just(lf::for_each)(in, inc);
  co_await lf::just(lf::for_each)(in, 4, inc);
  co_await lf::just(lf::for_each)(in.begin(), in.end(), 4, inc);
  co_await lf::just(lf::map)(in, out.begin(), neg);
  co_await lf::just(lf::map)(in, out.begin(), 4, neg);
  co_await lf::just(lf::scan)(in, add);
  co_await lf::just(lf::scan)(in, out.begin(), 4, add);
  auto r = co_await lf::just(lf::fold)(in, 4, add);
  auto s = co_await lf::just(lf::fold)(in.begin(), in.end(), add, neg);
  co_return r.value_or(0) + s.value_or(0);
};

template <class P>
int pools(P &p) {
  std::vector<int> a, b;
  int x = 0;
  lf::detach(p, leaf_void);
  auto f = lf::schedule(p, leaf, 1);
  auto g = std::move(f);
  f = std::move(g);
  if (f.valid()) {
    f.wait();
  }
  auto h = lf::schedule(p, leaf_ref, x);
  lf::schedule(p, leaf_void).get();
  return f.get() + h.get() + lf::sync_wait(p, fib, 3) + lf::sync_wait(p, mods, nullptr, nullptr) + lf::sync_wait(p, algos, a, b) + lf::sync_wait(p, lf::lift, [](int y) { return y; }, 3);
}
inline int all() {
  lf::lazy_pool lp{2};
  lf::busy_pool bp{2};
  lf::unit_pool up;
  lf::lazy_pool lp2 = std::move(lp);
  lf::busy_pool bp2 = std::move(bp);
  lp = std::move(lp2);
  bp = std::move(bp2);
  return pools(lp) + pools(bp) + pools(up) + static_cast<int>(lp.contexts().size() + bp.contexts().size());
}
inline int ext(lf::worker_context *w) {
  lf::deque<int *> d{8};
  lf::intrusive_list<int *> l;
  lf::intrusive_list<int *>::node n{nullptr};
  lf::event_count ec;
  d.push(nullptr);
  int r = d.pop().has_value() + static_cast<int>(d.steal().code) + d.empty() + static_cast<int>(d.size() + d.capacity());
  l.push(&n);
  for_each_elem(l.try_pop_all(), [](int *) {});
  auto k = ec.prepare_wait();
  ec.cancel_wait();
  ec.wait(k);
  ec.notify_one();
  ec.notify_all();
  ec.await([] { return true; });
  if (auto *job = w->try_pop_all()) {
    lf::resume(job);
  }
  if (auto s = w->try_steal()) {
    lf::resume(*s);
  }
  LF_DEFER { ++r; };
  lf::xoshiro rng{lf::seed, std::random_device{}};
  lf::numa_topology topo;
  (void)topo.split(4);
  (void)topo.distribute(std::vector{std::make_shared<int>(1)});
  lf::worker_context *v = lf::worker_init(lf::nullary_function_t{[] {}});
  lf::finalize(v);
  return r + static_cast<int>(rng());
}
int (*const uses[])(lf::worker_context *) = {ext};
int (*const more[])() = {all};
} // namespace use

LF_EXTERN_FWD_DECL(int, use_fib, int n);
LF_IMPLEMENT(int, use_fib, int n) { co_return n; }
