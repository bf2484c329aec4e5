// Instantiates every overload of every parallel algorithm; iterators and elements have distinct
// sizes and every functor carries a value, so that mixing any two of them up is visible.
#include "std.inc"

namespace probe {
long u_long(long);
struct user_sched {
  void schedule(lf::submit_handle);
};

struct pj { int k; long operator()(int) const; };           // projection
struct fn { int k; void operator()(long) const; };          // unary function of for_each
struct mp { int k; short operator()(long) const; };         // unary function of map
struct bp { int k; long operator()(long, long) const; };    // binary operator
struct apj { int k; auto operator()(auto, int x) const -> lf::task<long> { co_return u_long(x + k); } };
struct afn { int k; auto operator()(auto, long x) const -> lf::task<void> { u_long(x + k); co_return; } };
struct amp { int k; auto operator()(auto, long x) const -> lf::task<short> { co_return static_cast<short>(u_long(x + k)); } };
struct abp { int k; auto operator()(auto, long x, long y) const -> lf::task<long> { co_return u_long(x + k) - y; } };
struct sp { int k; int operator()(int) const; };            // projection and operator of in-place scans
struct sb { int k; int operator()(int, int) const; };

struct rng {                                                // a range over plain pointers
  int *b, *e;
  int *begin() const { return b; }
  int *end() const { return e; }
};

inline constexpr auto algo = [](auto, int *b, int *e, short *o, long *l, long n, rng v) -> lf::task<void> {
  fn f{1}; pj p{2}; mp m{3}; bp q{4}; afn af{5}; amp am{6}; abp aq{7}; sp s{8}; sb t{9}; apj ap{10};
  co_await lf::just(lf::for_each)(b, e, n, f, p);
  co_await lf::just(lf::for_each)(b, e, f, p);
  co_await lf::just(lf::for_each)(v, n, f, p);
  co_await lf::just(lf::for_each)(v, f, p);
  co_await lf::just(lf::for_each)(b, e, n, af, ap);
  co_await lf::just(lf::for_each)(b, e, af, ap);
  co_await lf::just(lf::map)(b, e, o, n, m, p);
  co_await lf::just(lf::map)(b, e, o, m, p);
  co_await lf::just(lf::map)(v, o, n, m, p);
  co_await lf::just(lf::map)(v, o, m, p);
  co_await lf::just(lf::map)(b, e, o, n, am, ap);
  co_await lf::just(lf::map)(b, e, o, am, ap);
  co_await lf::just(lf::fold)(b, e, n, q, p);
  co_await lf::just(lf::fold)(b, e, q, p);
  co_await lf::just(lf::fold)(v, n, q, p);
  co_await lf::just(lf::fold)(v, q, p);
  co_await lf::just(lf::fold)(b, e, n, aq, ap);
  co_await lf::just(lf::fold)(b, e, aq, ap);
  co_await lf::just(lf::scan)(b, e, l, n, q, p);
  co_await lf::just(lf::scan)(b, e, l, q, p);
  co_await lf::just(lf::scan)(b, e, n, t, s);
  co_await lf::just(lf::scan)(b, e, t, s);
  co_await lf::just(lf::scan)(v, l, n, q, p);
  co_await lf::just(lf::scan)(v, l, q, p);
  co_await lf::just(lf::scan)(v, n, t, s);
  co_await lf::just(lf::scan)(v, t, s);
  co_await lf::just(lf::scan)(b, e, l, n, aq, p);
  co_await lf::just(lf::scan)(b, e, l, aq, p);
};

}  // namespace probe

void lfa_entry(probe::user_sched &s, int *b, int *e, short *o, long *l, probe::rng v) {
  lf::sync_wait(s, probe::algo, b, e, o, l, 3l, v);
}
