FE = 'algorithm/for_each.hpp'
MP = 'algorithm/map.hpp'
FO = 'algorithm/fold.hpp'
SCN = 'algorithm/scan.hpp'
AI = ['C20', 'C21', 'C22', 'C23']
M6 = [
    # C20
    ('al-fe-notry', FE, ('''    LF_TRY {
      co_await lf::call(for_each)(mid, tail, n, fun, proj);
    } LF_CATCH_ALL { 
      for_each.stash_exception(); 
    }
''', '''    co_await lf::call(for_each)(mid, tail, n, fun, proj);
'''), ['C20']),
    ('al-fe-nostash', FE, ('''      for_each.stash_exception(); 
''', ''), ['C20']),
    ('al-fe-nojoin', FE, ('''    // clang-format on

    co_await lf::join;
''', ''), ['C20']),
    ('al-mp-join-in-try', MP, ('''      co_await lf::call(map)(mid, tail, out + dif, n, fun, proj);
    } LF_CATCH_ALL { 
      map.stash_exception(); 
    }

    // clang-format on

    co_await lf::join;
''', '''      co_await lf::call(map)(mid, tail, out + dif, n, fun, proj);
      co_await lf::join;
    } LF_CATCH_ALL { 
      map.stash_exception(); 
    }
'''), ['C20']),
    ('al-fo-catch-return', FO, ('''          fold.stash_exception();
        }
''', '''          fold.stash_exception();
          LF_RETHROW;
        }
'''), ['C20']),
    ('al-fo-mid-throw', FO, ('''    LF_TRY {
      co_await lf::call(&rhs, fold)(mid, tail, n, bop, proj);
    }''', '''    auto rfun = bop;
    LF_TRY {
      co_await lf::call(&rhs, fold)(mid, tail, n, std::move(rfun), proj);
    }'''), ['C20']),
    ('al-sc-ready-only', SCN, ('if (ready && left_out == beg + mid) {', 'if (left_out == beg + mid) {'), ['C20', 'C21']),
    ('al-sc-nojoin-fall', SCN, ('''          self.stash_exception();
        }
        // clang-format on
        co_await lf::join;
        co_return;''', '''          self.stash_exception();
        }
        // clang-format on
        co_return;'''), ['C20']),
    ('al-sc-early', SCN, ('''    // clang-format off
    LF_TRY {
      co_await lf::call(up_rhs<op::fold>{})(''', '''    if constexpr (Op == op::scan && Ival == interval::all) {
      if (size - mid <= n) {
        co_return beg + mid;
      }
    }
    // clang-format off
    LF_TRY {
      co_await lf::call(up_rhs<op::fold>{})('''), ['C20']),
    # C21
    ('al-fo-read-before', FO, ('''    // clang-format on

    co_await lf::join;

    co_return co_await just(std::move(bop))( //
        *std::move(lhs),                     //
        *std::move(rhs)                      //
    );                                       //
  }
''', '''    // clang-format on
    acc_t left = *std::move(lhs);

    co_await lf::join;

    co_return co_await just(std::move(bop))( //
        std::move(left),                     //
        *std::move(rhs)                      //
    );                                       //
  }
'''), ['C21']),
    ('al-sc-prop-before', None, [(SCN, '''    // clang-format on
    co_await lf::join;

    // Restore invariant: propagate the reduction (scan), to the right sibling (if we have one).
''', '''    // clang-format on

    // Restore invariant: propagate the reduction (scan), to the right sibling (if we have one).
'''), (SCN, '''    // If we are a scan then we return the end of the scanned range which was in the left child.
''', '''    co_await lf::join;
''')], ['C21']),
    ('al-sc-or', SCN, ('if (ready && left_out == beg + mid) {', 'if (ready || left_out == beg + mid) {'), ['C21']),
    # C22
    ('al-fe-mid1', FE, ('co_await lf::call(for_each)(mid, tail, n, fun, proj);', 'co_await lf::call(for_each)(mid + 1, tail, n, fun, proj);'), ['C22']),
    ('al-fe-n', FE, ('co_await lf::fork(for_each)(head, mid, n, fun, proj);', 'co_await lf::fork(for_each)(head, mid, n + 1, fun, proj);'), ['C22']),
    ('al-fe-lt', FE, ('if (len <= n) {', 'if (len < n) {'), ['C22']),
    ('al-mp-dif', MP, ('co_await lf::call(map)(mid, tail, out + dif, n, fun, proj);', 'co_await lf::call(map)(mid, tail, out + (len - dif), n, fun, proj);'), ['C22']),
    ('al-mp-out', MP, ('for (; head != tail; ++head, ++out) {', 'for (; head != tail; ++head) {'), ['C22']),
    ('al-fo-skip', FO, ('for (++head; head != tail; ++head) {', 'for (++head; head < tail - 1; ++head) {'), ['C22']),
    ('al-sc-rhsout', SCN, ('co_await lf::call(up_rhs<op::fold>{})(beg + mid, end, n, bop, proj, out + mid);', 'co_await lf::call(up_rhs<op::fold>{})(beg + mid, end, n, bop, proj, out + size - mid);'), ['C22']),
    ('al-sc-falln', SCN, ('co_await lf::just(fall)(beg, end, n, bop, proj, out, scan_end);', 'co_await lf::just(fall)(scan_end, end, n, bop, proj, out, scan_end);'), ['C22']),
    ('al-sc-fall-out', SCN, ('''          beg = beg + mid;
          out = out + mid;
          continue;''', '''          beg = beg + mid;
          continue;'''), ['C22']),
    ('al-sc-range-n', SCN, ('std::ranges::begin(range), std::ranges::end(range), out, n, bop, proj //', 'std::ranges::begin(range), std::ranges::end(range), out, n + 1, bop, proj //'), ['C22']),
    ('al-sc-last', SCN, ('I last = (Ival == interval::rhs) ? end : beg + size - 1;', 'I last = end;'), ['C22', 'C23']),
    # C23
    ('al-fo-swap', FO, ('''    co_return co_await just(std::move(bop))( //
        *std::move(lhs),                     //
        *std::move(rhs)                      //
    );                                       //
  }
''', '''    co_return co_await just(std::move(bop))( //
        *std::move(rhs),                     //
        *std::move(lhs)                      //
    );                                       //
  }
'''), ['C23']),
    ('al-fo-serial-swap', FO, ('lhs = std::invoke(bop, std::move(lhs), co_await just(proj)(*head));', 'lhs = std::invoke(bop, co_await just(proj)(*head), std::move(lhs));'), ['C23']),
    ('al-fo-async-swap', FO, ('co_await lf::dispatch<tag::call, mod>(&lhs, bop)(std::move(lhs), co_await just(proj)(*head));', 'co_await lf::dispatch<tag::call, mod>(&lhs, bop)(co_await just(proj)(*head), std::move(lhs));'), ['C23']),
    ('al-fo-slots', None, [(FO, 'co_await lf::fork(&lhs, fold)(head, mid, n, bop, proj);', 'co_await lf::fork(&rhs, fold)(head, mid, n, bop, proj);'), (FO, 'co_await lf::call(&rhs, fold)(mid, tail, n, bop, proj);', 'co_await lf::call(&lhs, fold)(mid, tail, n, bop, proj);')], ['C23']),
    ('al-sc-swap-rise', SCN, ('*r_child = std::invoke(bop, *l_child, std::ranges::iter_move(r_child));', '*r_child = std::invoke(bop, std::ranges::iter_move(r_child), *l_child);'), ['C23']),
    ('al-sc-swap-fall', SCN, ('*(out + mid - 1) = std::invoke(bop, *(out - 1), std::ranges::iter_move(out + mid - 1));', '*(out + mid - 1) = std::invoke(bop, std::ranges::iter_move(out + mid - 1), *(out - 1));'), ['C23']),
    ('al-sc-noprop-mid', SCN, ('if constexpr (Ival == interval::lhs || Ival == interval::mid) {', 'if constexpr (Ival == interval::lhs) {'), ['C23']),
    ('al-sc-initial', SCN, ('acc_t acc = acc_t(*(out - 1));', 'acc_t acc = acc_t(*out);'), ['C23']),
    ('al-sc-leftout', SCN, ('      co_return left_out;\n', '      co_return end;\n'), ['C23']),
    # equivalents
    ('eq-al-helper', None, [(FE, 'auto mid = head + (len / 2);', 'auto mid = midpoint(head, len);'), (FE, 'struct for_each_overload {', 'struct for_each_overload {\n  template <class I, class D>\n  static constexpr auto midpoint(I head, D len) -> I { return head + (len / 2); }\n')], []),
    ('eq-al-while', FE, ('''      for (; head != tail; ++head) {
        co_await lf::just(fun)(co_await just(proj)(*head));
      }
''', '''      while (head != tail) {
        co_await lf::just(fun)(co_await just(proj)(*head));
        ++head;
      }
'''), []),
    ('eq-al-tailrange', FE, ('co_await lf::call(for_each)(mid, tail, n, fun, proj);', 'co_await lf::call(for_each)(head + (len / 2), tail, n, fun, proj);'), []),
    ('eq-al-third', MP, ('auto dif = (len / 2);', 'auto dif = (len >> 1);'), []),
    ('eq-al-ready', SCN, ('if (ready && left_out == beg + mid) {', 'if (!ready || left_out != beg + mid) {\n      } else {'), []),
    ('eq-al-split', SCN, ('''      if (ready && left_out == beg + mid) {''', '''      I const split = beg + mid;
      if (ready && left_out == split) {'''), []),
    ('eq-al-just-inside', FE, ('''      co_await lf::call(for_each)(mid, tail, n, fun, proj);
    } LF''', '''      co_await lf::just(for_each)(mid, tail, n, fun, proj);
    } LF'''), []),
    ('eq-al-fold-locals', FO, ('''    co_return co_await just(std::move(bop))( //
        *std::move(lhs),                     //
        *std::move(rhs)                      //
    );                                       //
  }
''', '''    acc_t left = *std::move(lhs);
    acc_t right = *std::move(rhs);
    co_return co_await just(std::move(bop))(std::move(left), std::move(right));
  }
'''), []),
    ('eq-al-if', FO, ('''    switch (len) {
      case 0:
        LF_ASSERT(false && "Unreachable");
      case 1:
        co_return co_await lf::just(std::move(proj))(*head);
      default:
        auto mid''', '''    if (len == 1) {
      co_return co_await lf::just(std::move(proj))(*head);
    }
    {
        auto mid'''), []),
    ('eq-al-fallsize', SCN, ('''      int_t size = end - beg;
      int_t mid = size / 2;

      I split = beg + mid;
''', '''      int_t mid = (end - beg) / 2;

      I split = beg + mid;
'''), []),
    ('eq-al-for-copy', FE, ("""      for (; head != tail; ++head) {
        co_await lf::just(fun)(co_await just(proj)(*head));
      }
""", """      for (I pos = head; pos != tail; ++pos) {
        co_await lf::just(fun)(co_await just(proj)(*pos));
      }
"""), []),
    ('eq-al-count', MP, ("""      for (; head != tail; ++head, ++out) {
        *out = co_await lf::just(fun)(co_await just(proj)(*head));
      }
""", """      for (std::iter_difference_t<I> i = 0; i < len; ++i) {
        *(out + i) = co_await lf::just(fun)(co_await just(proj)(*(head + i)));
      }
"""), []),
    ('eq-al-fold-temp', FO, ("""lhs = std::invoke(bop, std::move(lhs), co_await just(proj)(*head));""", """auto &&next = co_await just(proj)(*head);
          lhs = std::invoke(bop, std::move(lhs), std::forward<decltype(next)>(next));"""), []),
    ('eq-al-fold-early', FO, ("""    if (n == 1) {
      co_return co_await lf::just(detail::fold_overload_impl<I, S, Proj, Bop>{})(
          std::move(head), std::move(tail), std::move(bop), std::move(proj) //
      );
    }

    co_return co_await lf::just(detail::fold_overload_impl<I, S, Proj, Bop>{})(
        std::move(head), std::move(tail), n, std::move(bop), std::move(proj) //
    );
""", """    if (n != 1) {
      co_return co_await lf::just(detail::fold_overload_impl<I, S, Proj, Bop>{})(
          std::move(head), std::move(tail), n, std::move(bop), std::move(proj) //
      );
    } else {
      co_return co_await lf::just(detail::fold_overload_impl<I, S, Proj, Bop>{})(
          std::move(head), std::move(tail), std::move(bop), std::move(proj) //
      );
    }
"""), []),
    ('eq-al-fall-order', SCN, ("""      } else {
          unreachable();""".replace('          u', '        u'), """      } else {"""), []),
    ('eq-al-fall-rec', SCN, ("""          beg = beg + mid;
          out = out + mid;
          continue;""", """          co_return co_await lf::just(recur_rhs{})(beg + mid, end, n, bop, proj, out + mid, scan_end);"""), []),
    ('eq-al-impl-flip', SCN, ("""    if (scan_end != end) {
      // If some un-scanned input remains, fall-sweep it.
      co_await lf::just(fall)(beg, end, n, bop, proj, out, scan_end);
    }
""", """    if (scan_end == end) {
      co_return;
    }
    co_await lf::just(fall)(beg, end, n, bop, proj, out, scan_end);
"""), []),
    ('eq-al-sc-step', SCN, ("""        acc_t acc = acc_t(*(out - 1));

        LF_PRAGMA_UNROLL(8)
        for (; beg != end; ++beg, ++out) {
          if constexpr (async_bop) {
            co_await eager_call_outside(&acc, bop)(std::move(acc), co_await lf::just(proj)(*beg));
          } else {
            acc = std::invoke(bop, std::move(acc), co_await lf::just(proj)(*beg));
          }
          *out = acc;
        }
""", """        acc_t acc(*(out - 1));

        for (; beg != end;) {
          if constexpr (async_bop) {
            co_await eager_call_outside(&acc, bop)(std::move(acc), co_await lf::just(proj)(*beg));
          } else {
            acc = std::invoke(bop, std::move(acc), co_await lf::just(proj)(*beg));
          }
          *out = acc;
          ++out;
          ++beg;
        }
"""), []),
    ('eq-al-sc-rchild', SCN, ("""      O l_child = out + mid - 1;
      O r_child = out + size - 1;

      if constexpr (async_bop) {
        co_await eager_call_outside(r_child, bop)(*l_child, std::ranges::iter_move(r_child));
      } else {
        *r_child = std::invoke(bop, *l_child, std::ranges::iter_move(r_child));
      }
""", """      O const l_child = out + (mid - 1);
      O const r_child = l_child + (size - mid);

      if constexpr (async_bop) {
        co_await eager_call_outside(r_child, bop)(*l_child, std::ranges::iter_move(r_child));
      } else {
        acc_t sum = std::invoke(bop, *l_child, std::ranges::iter_move(r_child));
        *r_child = std::move(sum);
      }
"""), []),
    ('eq-al-sc-last', SCN, ("""      I last = (Ival == interval::rhs) ? end : beg + size - 1;
""", """      I last = beg + size;
      if constexpr (Ival != interval::rhs) {
        --last;
      }
"""), []),
]
