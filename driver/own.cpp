// The life of a task that is created and then dropped, and what it receives when it is created.
#include "std.inc"

namespace probe {
struct hairy {
  hairy(int);
  hairy(hairy const &);
  hairy(hairy &&);
  auto operator=(hairy const &) -> hairy &;
  auto operator=(hairy &&) -> hairy &;
  ~hairy();
  int v;
};
struct fn {              // a function object with a state of its own
  fn();
  fn(fn const &);
  fn(fn &&);
  auto operator=(fn const &) -> fn &;
  ~fn();
  int state[4];
  auto operator()(auto, int n, hairy h) const -> lf::task<int> { co_return n + h.v; }
};
struct vfn {
  vfn();
  vfn(vfn const &);
  vfn(vfn &&);
  auto operator=(vfn const &) -> vfn &;
  ~vfn();
  int state[4];
  auto operator()(auto, int) const -> lf::task<void> { co_return; }
};
using lf::tag;
namespace mod = lf::modifier;

void own_fork(int *p, fn const &f, hairy const &h) { auto q = lf::fork(p, f)(1, h); }
void own_call(int *p, fn const &f, hairy const &h) { auto q = lf::call(p, f)(1, h); }
void own_fork_rv(int *p, fn f, hairy const &h) { auto q = lf::fork(p, std::move(f))(1, h); }
void own_call_rv(int *p, fn f, hairy const &h) { auto q = lf::call(p, std::move(f))(1, h); }
void own_fork_ev(lf::try_eventually<int> *p, fn const &f, hairy const &h) { auto q = lf::fork(p, f)(1, h); }
void own_call_ev(lf::eventually<int> *p, fn const &f, hairy const &h) { auto q = lf::call(p, f)(1, h); }
void own_call_vev(lf::try_eventually<void> *p, vfn const &f) { auto q = lf::call(p, f)(1); }
void own_fork_discard(fn const &f, hairy const &h) { auto q = lf::fork(f)(1, h); }
void own_call_void(vfn const &f) { auto q = lf::call(f)(1); }
void own_eager(int *p, fn const &f, hairy const &h) { auto q = lf::dispatch<tag::call, mod::eager_throw>(p, f)(1, h); }
void own_sync(int *p, fn const &f, hairy const &h) { auto q = lf::dispatch<tag::fork, mod::sync>(p, f)(1, h); }
void own_just(fn const &f, hairy const &h) { auto q = lf::just[f](1, h); }
void own_just_void(vfn const &f) { auto q = lf::just[f](1); }
}  // namespace probe
