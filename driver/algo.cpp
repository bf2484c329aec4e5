// Instantiates every overload of every parallel algorithm.
#include "std.inc"

namespace probe {
int u_int(int);
struct user_sched {
  void schedule(lf::submit_handle);
};

// ---- algorithms -----------------------------------------------------------------------------
struct pj { int operator()(int) const; };
struct fn { void operator()(int) const; };
struct mp { int operator()(int) const; };
struct bp { int operator()(int, int) const; };
inline constexpr auto afn = [](auto, int x) -> lf::task<void> { u_int(x); co_return; };
inline constexpr auto amp = [](auto, int x) -> lf::task<int> { co_return u_int(x); };
inline constexpr auto abp = [](auto, int x, int y) -> lf::task<int> { co_return u_int(x) - y; };

inline constexpr auto algo = [](auto, int *b, int *e, int *o, long n, std::vector<int> &v) -> lf::task<void> {
  co_await lf::just(lf::for_each)(b, e, n, fn{}, pj{});
  co_await lf::just(lf::for_each)(b, e, fn{}, pj{});
  co_await lf::just(lf::for_each)(v, n, fn{}, pj{});
  co_await lf::just(lf::for_each)(v, fn{}, pj{});
  co_await lf::just(lf::for_each)(b, e, n, afn);
  co_await lf::just(lf::for_each)(b, e, afn);
  co_await lf::just(lf::map)(b, e, o, n, mp{}, pj{});
  co_await lf::just(lf::map)(b, e, o, mp{}, pj{});
  co_await lf::just(lf::map)(v, o, n, mp{}, pj{});
  co_await lf::just(lf::map)(v, o, mp{}, pj{});
  co_await lf::just(lf::map)(b, e, o, n, amp);
  co_await lf::just(lf::map)(b, e, o, amp);
  co_await lf::just(lf::fold)(b, e, n, bp{}, pj{});
  co_await lf::just(lf::fold)(b, e, bp{}, pj{});
  co_await lf::just(lf::fold)(v, n, bp{}, pj{});
  co_await lf::just(lf::fold)(v, bp{}, pj{});
  co_await lf::just(lf::fold)(b, e, n, abp);
  co_await lf::just(lf::fold)(b, e, abp);
  co_await lf::just(lf::scan)(b, e, o, n, bp{}, pj{});
  co_await lf::just(lf::scan)(b, e, o, bp{}, pj{});
  co_await lf::just(lf::scan)(b, e, n, bp{}, pj{});
  co_await lf::just(lf::scan)(b, e, bp{}, pj{});
  co_await lf::just(lf::scan)(v, o, n, bp{}, pj{});
  co_await lf::just(lf::scan)(v, o, bp{}, pj{});
  co_await lf::just(lf::scan)(v, n, bp{}, pj{});
  co_await lf::just(lf::scan)(v, bp{}, pj{});
  co_await lf::just(lf::scan)(b, e, o, n, abp);
  co_await lf::just(lf::scan)(b, e, o, abp);
  co_await lf::just(lf::scan)(b, e, o, n, bp{});
};

}  // namespace probe

void lfa_entry(probe::user_sched &s, int *b, int *e, int *o, std::vector<int> &v) {
  lf::sync_wait(s, probe::algo, b, e, o, 3l, v);
}
