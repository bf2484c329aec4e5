// Instantiates the public API with user types that may throw wherever they are allowed to - and with
// types where only one of several overloads may throw, so that a wrong conditional noexcept shows.
#include "std.inc"

namespace probe {
int u_int(int);
void u_void();

struct hairy {           // every operation may throw
  hairy();
  hairy(int);
  hairy(hairy const &);
  hairy(hairy &&);
  auto operator=(hairy const &) -> hairy &;
  auto operator=(hairy &&) -> hairy &;
  ~hairy();
  int v;
};
struct mixed {           // constructible from many things, only some of which may throw
  mixed() noexcept;
  mixed(mixed const &) noexcept;
  mixed(mixed &&) noexcept;
  auto operator=(mixed const &) -> mixed &;
  auto operator=(mixed &&) noexcept -> mixed &;
  mixed(int &) noexcept;
  mixed(int const &) noexcept;
  mixed(int &&);          // only an rvalue int may throw
  mixed(long const &);
  mixed(long &&) noexcept;
};
struct asg {             // construction never throws, assignment may
  asg() noexcept;
  asg(int) noexcept;
  asg(asg const &) noexcept;
  asg(asg &&) noexcept;
  auto operator=(asg const &) -> asg &;
  auto operator=(asg &&) -> asg &;
  auto operator=(int) -> asg &;
};

// one overload per value category; exactly one of them may throw
struct cat_l {
  int operator()(int) &;
  int operator()(int) const & noexcept;
  int operator()(int) && noexcept;
  int operator()(int) const && noexcept;
};
struct cat_cl {
  int operator()(int) & noexcept;
  int operator()(int) const &;
  int operator()(int) && noexcept;
  int operator()(int) const && noexcept;
};
struct cat_r {
  int operator()(int) & noexcept;
  int operator()(int) const & noexcept;
  int operator()(int) &&;
  int operator()(int) const && noexcept;
};
struct cat_cr {
  int operator()(int) & noexcept;
  int operator()(int) const & noexcept;
  int operator()(int) && noexcept;
  int operator()(int) const &&;
};
struct cat_a {           // throws for an lvalue argument only
  int operator()(int &) const;
  int operator()(int &&) const noexcept;
};
template <class F>
int cats() {
  using fa = lf::impl::first_arg_t<lf::impl::discard_t, lf::tag::root, F>;
  fa a{F{}};
  fa const c{F{}};
  return a(1) + c(1) + std::move(a)(1) + std::move(c)(1);
}
int cats_all() {
  int x = 0;
  lf::impl::first_arg_t<lf::impl::discard_t, lf::tag::root, cat_a> a{cat_a{}};
  return cats<cat_l>() + cats<cat_cl>() + cats<cat_r>() + cats<cat_cr>() + a(x) + a(1);
}

// ---- data structures -----------------------------------------------------------------------------
struct ev_l { void operator()(int *) &; void operator()(int *) && noexcept; void operator()(int *) const & noexcept; };
struct ev_r { void operator()(int *) & noexcept; void operator()(int *) &&; };
struct conv { conv() noexcept; conv(int *); };
struct conv_f { auto operator()() const noexcept -> conv; };
struct we_l { auto operator()() & -> std::optional<int *>; auto operator()() && noexcept -> std::optional<int *>; };
struct we_r { auto operator()() & noexcept -> std::optional<int *>; auto operator()() && -> std::optional<int *>; };
struct at_end { at_end(); at_end(at_end &&); ~at_end(); void operator()() noexcept; };
struct pred { bool operator()() noexcept; bool operator()() const; };
struct boolish { operator bool() const; };
struct pred2 { auto operator()() const noexcept -> boolish; };
void structs(lf::intrusive_list<int *>::node *n, lf::deque<int *> &d, lf::event_count &ec, hairy const &h, std::optional<int> &sink) {
  ev_l l;
  for_each_elem(n, l);
  for_each_elem(n, ev_l{});
  for_each_elem(n, std::as_const(l));
  ev_r r;
  for_each_elem(n, r);
  for_each_elem(n, ev_r{});
  typename lf::intrusive_list<hairy>::node hn{h};
  for_each_elem(&hn, [](hairy &x) { u_int(x.v); });
  conv_f cf;
  (void)d.pop(cf);
  we_l wl;
  we_r wr;
  sink = d.pop(wl).has_value() + d.pop(we_l{}).has_value() + d.pop(wr).has_value() + d.pop(we_r{}).has_value();
  ec.await(pred{});
  ec.await(pred2{});
  at_end fn;
  lf::defer<at_end> df{std::move(fn)};
}

// ---- results ---------------------------------------------------------------------------------------
template <class E>
void results_of(int &i, int const &ci, long &l) {
  { E e; e = i; }
  { E e; e = ci; }
  { E e; e = 3; }
  { E e; e = l; }
  { E e; e = 3l; }
  { E e; e = mixed{}; }
}
void results(int &i, int const &ci, long &l, hairy &h) {
  results_of<lf::eventually<mixed>>(i, ci, l);
  results_of<lf::try_eventually<mixed>>(i, ci, l);
  results_of<lf::impl::manual_lifetime<mixed>>(i, ci, l);
  lf::impl::manual_lifetime<hairy> m;
  m.construct(h);
  m.construct(std::move(h));
  m.construct(3);
  m.construct();
  lf::eventually<hairy> e;
  e = h;
  lf::try_eventually<hairy> f;
  f = std::move(h);
}

// ---- tasks -----------------------------------------------------------------------------------------
struct hfn {             // an async function object whose copies and moves may throw
  hfn();
  hfn(hfn const &);
  hfn(hfn &&);
  ~hfn();
  auto operator()(auto, hairy h) const -> lf::task<hairy> { co_return u_int(h.v); }
};
struct slot {            // a result handle whose dereference and assignment may throw
  struct ref {
    auto operator=(hairy const &) const -> ref const &;
    auto operator=(hairy &&) const -> ref const &;
    auto operator=(int) const -> ref const &;
  };
  auto operator*() const -> ref;
};
struct sfn {             // ordinary functions for just()
  int operator()(int) & noexcept;
  int operator()(int) const &;
  int operator()(int) &&;
};
hairy u_make(int);
struct sw_ready { bool await_ready(); void await_suspend(lf::submit_handle) noexcept; void await_resume() noexcept; };
struct sw_suspend { bool await_ready() noexcept; void await_suspend(lf::submit_handle); void await_resume() noexcept; };
struct sw_resume { bool await_ready() noexcept; void await_suspend(lf::submit_handle) noexcept; hairy await_resume(); };
struct sw_copy {
  sw_copy();
  sw_copy(sw_copy const &);
  sw_copy(sw_copy &&);
  bool await_ready() noexcept;
  void await_suspend(lf::submit_handle) noexcept;
  void await_resume() noexcept;
};
struct sw_free {
  bool await_ready();
  void await_suspend(lf::submit_handle);
  int await_resume();
};
inline constexpr auto leaf = [](auto, int n) -> lf::task<int> { co_return u_int(n); };
inline constexpr auto leaf_void = [](auto) -> lf::task<void> { u_void(); co_return; };
inline constexpr auto leaf_mixed = [](auto, int n) -> lf::task<mixed> { co_return n; };
inline constexpr auto leaf_asg = [](auto, int n) -> lf::task<asg> { if (n > 3) co_return n; if (n > 2) co_return asg{n}; co_return {n}; };
inline constexpr auto leaf_slot = [](auto, hairy h) -> lf::task<hairy> { if (h.v) co_return h; co_return {3}; };
namespace mod = lf::modifier;
using lf::tag;

inline constexpr auto tasks = [](auto self, hfn f, hairy h, int n) -> lf::task<hairy> {
  hairy a;
  lf::eventually<hairy> e;
  lf::try_eventually<hairy> t;
  lf::eventually<mixed> em;
  mixed m;
  int x = 0;
  co_await lf::fork(&a, f)(h);
  co_await lf::fork(&e, f)(std::move(h));
  co_await lf::call(&t, hfn{})(h);
  co_await lf::call(f)(h);
  co_await lf::fork(leaf_void)();
  co_await lf::fork(&em, leaf_mixed)(n);
  co_await lf::fork(&m, leaf_mixed)(n);
  asg as;
  co_await lf::fork(&as, leaf_asg)(n);
  co_await lf::call(slot{}, leaf_slot)(h);
  co_await lf::dispatch<tag::call, mod::eager_throw>(&x, leaf)(1);
  co_await lf::dispatch<tag::call, mod::eager_throw_outside>(&x, leaf)(1);
  (void)co_await lf::dispatch<tag::fork, mod::sync>(&x, leaf)(1);
  (void)co_await lf::dispatch<tag::fork, mod::sync_outside>(&x, leaf)(1);
  co_await lf::join;
  hairy b = co_await lf::just[f](h);
  co_await lf::just[leaf_void]();
  x += co_await lf::just[sfn{}](1);
  hairy c = co_await lf::just[u_make](1);
  co_await lf::just[u_void]();
  co_await sw_ready{};
  co_await sw_suspend{};
  hairy d = co_await sw_resume{};
  sw_copy s;
  co_await s;
  co_await sw_copy{};
  x += co_await sw_free{};
  sw_free fr;
  x += co_await fr;
  auto [buf] = co_await lf::co_new<hairy>(3);
  try {
    u_void();
  } catch (...) {
    self.stash_exception();
  }
  co_await lf::join;
  co_return u_int(x + b.v + c.v + d.v + buf[0].v);
};

// ---- algorithms ------------------------------------------------------------------------------------
struct it {              // a random access iterator, every operation of which may throw
  using value_type = int;
  using difference_type = std::ptrdiff_t;
  using iterator_category = std::random_access_iterator_tag;
  it();
  it(it const &);
  it(it &&);
  auto operator=(it const &) -> it &;
  auto operator=(it &&) -> it &;
  ~it();
  auto operator*() const -> int &;
  auto operator[](difference_type) const -> int &;
  auto operator++() -> it &;
  auto operator++(int) -> it;
  auto operator--() -> it &;
  auto operator--(int) -> it;
  auto operator+=(difference_type) -> it &;
  auto operator-=(difference_type) -> it &;
  friend auto operator+(it const &, difference_type) -> it;
  friend auto operator+(difference_type, it const &) -> it;
  friend auto operator-(it const &, difference_type) -> it;
  friend auto operator-(it const &, it const &) -> difference_type;
  friend auto operator==(it const &, it const &) -> bool;
  friend auto operator<=>(it const &, it const &) -> std::strong_ordering;
};
template <int N>
struct op {              // functions, operators and projections whose copies may throw too
  op();
  op(op const &);
  op(op &&);
  auto operator=(op const &) -> op &;
  auto operator=(op &&) -> op &;
  ~op();
  auto operator()(int) const -> int;
  auto operator()(int, int) const -> int;
};
struct aop {
  aop();
  aop(aop const &);
  aop(aop &&);
  auto operator=(aop const &) -> aop &;
  auto operator=(aop &&) -> aop &;
  ~aop();
  auto operator()(auto, int x) const -> lf::task<int> { co_return u_int(x); }
};
struct abp {
  abp();
  abp(abp const &);
  abp(abp &&);
  auto operator=(abp const &) -> abp &;
  auto operator=(abp &&) -> abp &;
  ~abp();
  auto operator()(auto, int x, int y) const -> lf::task<int> { co_return u_int(x + y); }
};
struct vop {
  vop();
  vop(vop const &);
  vop(vop &&);
  ~vop();
  auto operator()(auto, int x) const -> lf::task<void> { u_int(x); co_return; }
};
inline constexpr auto algo = [](auto, it b, it e, it o, long n) -> lf::task<void> {
  co_await lf::just[lf::for_each](b, e, n, op<0>{}, op<1>{});
  co_await lf::just[lf::for_each](b, e, n, vop{}, op<1>{});
  co_await lf::just[lf::for_each](b, e, vop{});
  co_await lf::just[lf::map](b, e, o, n, op<0>{}, op<1>{});
  co_await lf::just[lf::map](b, e, o, n, aop{}, op<1>{});
  co_await lf::just[lf::map](b, e, o, aop{});
  co_await lf::just[lf::fold](b, e, n, op<0>{}, op<1>{});
  co_await lf::just[lf::fold](b, e, n, abp{}, op<1>{});
  co_await lf::just[lf::fold](b, e, abp{});
  co_await lf::just[lf::scan](b, e, o, n, op<0>{}, op<1>{});
  co_await lf::just[lf::scan](b, e, o, n, abp{}, op<1>{});
  co_await lf::just[lf::scan](b, e, o, abp{});
};

// ---- submission ------------------------------------------------------------------------------------
struct user_sched {
  void schedule(lf::submit_handle);
};
struct notify {          // what a worker calls when it is given work
  notify();
  notify(notify const &);
  notify(notify &&);
  ~notify();
  void operator()();
};
int roots(user_sched &s, lf::worker_context *w, it b, it e, it o, hairy h) {
  lf::worker_context *n = lf::worker_init(lf::nullary_function_t{notify{}});
  w->schedule(nullptr);
  lf::finalize(n);
  lf::detach(s, leaf_void);
  auto f = lf::schedule(s, leaf, 1);
  auto g = lf::schedule(s, hfn{}, h);
  int r = f.get() + g.get().v;
  r += lf::sync_wait(s, tasks, hfn{}, h, 3).v;
  lf::sync_wait(s, algo, b, e, o, 3l);
  r += lf::sync_wait(s, lf::lift, u_int, 3);
  return r;
}
}  // namespace probe
