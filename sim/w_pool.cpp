// C11: expression storage is conserved and never shared, over random histories
// of building, sharing, evaluating, differentiating, solving (finished, cut
// short, aborted by exceptions) and destroying, with mixed scalar types.
#include <sys/resource.h>

#include <stdexcept>
#include <variant>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/util/pool.hpp>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C11",
    "each run is a history of up to 60 operations on double, float and long double expressions (create, combine, copy, move, overwrite, accumulate chains of up to 200000 nodes, "
    "matrices, derivative objects, problems and their solves cut short or aborted, exceptions half way through building), with everything destroyed in random order at the end and "
    "sometimes in between; or a history of allocations on a pool of its own against a list model; non-trivial: at least 20 expressions lived; distinct = distinct event-log hashes",
    "PoolResource, intrusive pointers, expressions, variables, matrices, gradients, Jacobians, Hessians, Problem, solvers",
    "clocks, stdout",
    "(blocks in use, live objects, history step)",
    35000, 2000000};

namespace {
struct Boom : std::runtime_error {
  Boom() : std::runtime_error("boom") {}
};
size_t in_use() { return slp::global_pool_resource().blocks_in_use(); }

/// Expressions of one scalar type with a mirror of their values.
template <typename S>
struct Store {
  using Var = slp::Variable<S>;
  struct M {
    int op, a, b;
    S v;
  };
  struct Slot {
    Var v;
    int m;
  };
  std::vector<M> mirror;
  std::vector<Slot> slots;
  std::vector<slp::VariableMatrix<S>> mats;
  std::vector<std::variant<slp::Gradient<S>, slp::Jacobian<S>, slp::Hessian<S>>> derivs;
  bool stale = false;

  static S val(int op, S a, S b) {
    switch (op) {
      case 1: return a + b;
      case 2: return a - b;
      case 3: return a * b;
      case 4: return -a;
      case 5: return std::sin(a);
      case 6: return std::cos(a);
      case 7: return std::atan(a);
      case 8: return std::abs(a);
    }
    return 0;
  }
  void refresh() {
    if (!stale) return;
    for (auto& m : mirror)
      if (m.op > 0 && m.op < 9) m.v = val(m.op, mirror[m.a].v, m.b >= 0 ? mirror[m.b].v : S(0));
    stale = false;
  }
  int add(int op, int a, int b) {
    refresh();
    mirror.push_back({op, a, b, val(op, mirror[a].v, b >= 0 ? mirror[b].v : S(0))});
    return mirror.size() - 1;
  }
  void leaf() {
    S v = S(range(-4, 4)) / S(2);
    mirror.push_back({0, -1, -1, v});
    Var x;
    x.set_value(v);
    slots.push_back({x, static_cast<int>(mirror.size()) - 1});
  }
  Var make(int op, const Var& a, const Var& b) {
    switch (op) {
      case 1: return a + b;
      case 2: return a - b;
      case 3: return a * b;
      case 4: return -a;
      case 5: return slp::sin(a);
      case 6: return slp::cos(a);
      case 7: return slp::atan(a);
      default: return slp::abs(a);
    }
  }
  void combine() {
    if (slots.empty()) return leaf();
    int op = range(1, 8);
    Slot& a = slots[choose(slots.size())];
    Slot& b = slots[choose(slots.size())];
    Slot r{make(op, a.v, b.v), add(op, a.m, op <= 3 ? b.m : -1)};
    slots.push_back(std::move(r));
  }
  void chain() {
    if (slots.empty()) leaf();
    int n = pick({3, 30, 300, 3000});
    bool deep = chance(1, 16);
    if (deep) n = 200000;
    Slot acc = slots[choose(slots.size())];
    Slot x = slots[choose(slots.size())];
    int op = pick({1, 2, 5, 3});
    for (int i = 0; i < n; ++i) {
      int o = op == 3 && i % 2 ? 1 : op;
      acc.m = add(o, acc.m, o <= 3 ? x.m : -1);
      acc.v = make(o, acc.v, x.v);
    }
    if (deep) count("deep graphs");
    note("chain of %d", n);
    if (chance(3, 4)) slots.push_back(std::move(acc));
  }
  void check(Slot& s, const char* when) {
    refresh();
    S got = s.v.value(), want = mirror[s.m].v;
    if (!(got == want || (std::isnan(got) && std::isnan(want))))
      fail("value disturbed", "%s: an expression is %.17Lg instead of %.17Lg", when, static_cast<long double>(got), static_cast<long double>(want));
  }
  void check_some(int k, const char* when) {
    for (; k > 0 && !slots.empty(); --k) check(slots[choose(slots.size())], when);
  }
  void set() {
    std::vector<int> leaves;
    for (size_t i = 0; i < slots.size(); ++i)
      if (mirror[slots[i].m].op == 0) leaves.push_back(i);
    if (leaves.empty()) return leaf();
    Slot& s = slots[leaves[choose(leaves.size())]];
    S v = S(range(-6, 6)) / S(4);
    s.v.set_value(v);
    mirror[s.m].v = v;
    stale = true;
  }
  void matrix() {
    if (slots.empty()) leaf();
    switch (choose(6)) {
      case 0: mats.emplace_back(range(1, 4), range(1, 4)); break;
      case 1: {
        slp::VariableMatrix<S> m(2, 2);
        for (int i = 0; i < 4; ++i) m[i / 2, i % 2] = slots[choose(slots.size())].v;
        mats.push_back(std::move(m));
        break;
      }
      case 2:
        if (!mats.empty()) {
          auto& m = mats[choose(mats.size())];
          slp::VariableMatrix<S> t = m.T();
          mats.push_back(std::move(t));
        }
        break;
      case 3:
        if (!mats.empty()) {
          auto& m = mats[choose(mats.size())];
          if (m.rows() == m.cols()) {
            slp::VariableMatrix<S> t = m * m;
            mats.push_back(std::move(t));
          }
        }
        break;
      case 4:
        if (!mats.empty()) {
          size_t i = choose(mats.size());
          slp::VariableMatrix<S> part = mats[i].block(0, 0, 1, mats[i].cols());
          mats.push_back(part);
          auto& m = mats[i];
          if (m.rows() >= 2 && m.cols() >= 2 && m.rows() <= 3) {
            m[0, 0] = m[1, 1] * m[0, 1];
            m.row(1) = m.row(0);
          }
        }
        break;
      case 5:
        if (mats.size() >= 2) {
          auto& m = mats[choose(mats.size())];
          m = mats[choose(mats.size())];
          if (chance(1, 2)) mats.erase(mats.begin() + choose(mats.size()));
        }
        break;
    }
    // values of matrices
    if (!mats.empty()) mats[choose(mats.size())].value();
  }
  void derivative() {
    if (slots.empty()) leaf();
    // small graphs only
    int si = choose(slots.size());
    Slot& s = slots[si];
    std::vector<int> leaves;
    for (size_t i = 0; i < slots.size(); ++i)
      if (mirror[slots[i].m].op == 0) leaves.push_back(i);
    if (leaves.empty()) return leaf();
    // depth and tree size of the expression
    std::vector<char> seen(mirror.size());
    std::vector<int> todo{s.m};
    size_t nodes = 0;
    while (!todo.empty()) {
      int m = todo.back();
      todo.pop_back();
      if (m < 0 || seen[m]) continue;
      seen[m] = 1;
      ++nodes;
      if (mirror[m].op > 0 && mirror[m].op < 9) {
        todo.push_back(mirror[m].a);
        todo.push_back(mirror[m].b);
      }
    }
    slp::VariableMatrix<S> wrt(std::min<int>(2, leaves.size()), 1);
    for (int i = 0; i < wrt.rows(); ++i) wrt[i] = slots[leaves[(i + choose(leaves.size())) % leaves.size()]].v;
    int kind = choose(3);
    if (nodes > 400 && kind == 2) kind = 0;
    if (kind == 0) derivs.emplace_back(slp::Gradient<S>(s.v, wrt));
    if (kind == 1) derivs.emplace_back(slp::Jacobian<S>(slp::VariableMatrix<S>(s.v), wrt));
    if (kind == 2) derivs.emplace_back(slp::Hessian<S>(s.v, wrt));
    if (chance(1, 2)) evaluate(derivs.size() - 1);
    if (nodes <= 60 && chance(1, 3)) {
      // keep symbolic derivatives
      std::visit([&](auto& d) { mats.push_back(d.get()); }, derivs.back());
      mats.back().value();
    }
    check(slots[si], "after differentiating");
  }
  void evaluate(int i) {
    std::visit([](auto& d) { d.value(); }, derivs[i]);
  }
  void shuffle_slots() {
    if (slots.empty()) return;
    size_t i = choose(slots.size()), j = choose(slots.size());
    if (chance(1, 3)) check(slots[i], "before it is replaced");
    switch (choose(7)) {
      case 4: {  // by a scalar
        S v = S(range(-4, 4)) / S(2);
        slots[i].v = v;
        mirror.push_back({9, -1, -1, v});
        slots[i].m = mirror.size() - 1;
        check(slots[i], "after assigning a scalar");
        break;
      }
      case 5: {  // by a function of itself
        int op = range(1, 8);
        slots[i].m = add(op, slots[i].m, op <= 3 ? slots[j].m : -1);
        if (op == 1) slots[i].v += slots[j].v;
        else if (op == 2) slots[i].v -= slots[j].v;
        else if (op == 3) slots[i].v *= slots[j].v;
        else slots[i].v = make(op, slots[i].v, slots[j].v);
        check(slots[i], "after replacing it by a function of itself");
        break;
      }
      case 6: {  // by itself
        auto& self = slots[i].v;
        slots[i].v = self;
        check(slots[i], "after assigning it to itself");
        break;
      }
      case 0: slots[i] = slots[j]; break;
      case 1: slots.push_back(slots[j]); break;
      case 2: std::swap(slots[i], slots[j]); break;
      case 3: {
        Slot s = std::move(slots[i]);
        slots.erase(slots.begin() + i);
        s.m = add(1, s.m, s.m);
        s.v += s.v;
        slots.push_back(std::move(s));
        break;
      }
    }
  }
  void drop() {
    switch (choose(3)) {
      case 0:
        if (!slots.empty()) slots.erase(slots.begin() + choose(slots.size()));
        break;
      case 1:
        if (!mats.empty()) mats.erase(mats.begin() + choose(mats.size()));
        break;
      case 2:
        if (!derivs.empty()) derivs.erase(derivs.begin() + choose(derivs.size()));
        break;
    }
  }
  void half_built() {
    // an exception while an expression is being built
    try {
      Var acc = slots.empty() ? Var{} : slots[choose(slots.size())].v;
      slp::VariableMatrix<S> m(2, 2);
      for (int i = 0;; ++i) {
        acc = slp::sin(acc * S(2)) + m[i % 2, 0];
        m[1, i % 2] = acc;
        if (i == 7) throw Boom();
      }
    } catch (const Boom&) {
      count("fault: exception half way through building");
    }
  }
  size_t objects() const { return slots.size() + mats.size() + derivs.size(); }
  /// Destroys everything, in random order.
  void clear() {
    while (objects()) {
      int k = choose(3);
      if (k == 0) {
        if (slots.size() > 40) slots.resize(slots.size() - 20, Slot{Var{nullptr}, -1});
        if (!slots.empty()) slots.erase(slots.begin() + choose(slots.size()));
      }
      if (k == 1) mats.clear();
      if (k == 2) derivs.clear();
      if (k == 0 && !slots.empty() && objects() < 30) check_some(1, "while others are destroyed");
    }
    slots.shrink_to_fit();
  }
};

/// A problem with what is kept of it.
struct Solved {
  std::unique_ptr<Spec> spec;
  std::unique_ptr<Built> b;
};

void direct_pool() {
  size_t per_chunk = pick({1, 2, 7, 64});
  slp::PoolResource pool(per_chunk);
  struct Block {
    unsigned char* p;
    size_t n;
    unsigned char fill;
  };
  std::vector<Block> live;
  std::vector<size_t> sizes;
  for (int i = range(1, 5); i > 0; --i) sizes.push_back(pick({16, 32, 48, 96, 112, 128, 200}));
  int ops = range(10, 300);
  for (int k = 0; k < ops; ++k) {
    bool grow = choose(5) < 3;
    if (grow) {
      size_t n = pick_from(sizes);
      auto* p = static_cast<unsigned char*>(pool.allocate(n));
      if (reinterpret_cast<uintptr_t>(p) % std::min(alignof(std::max_align_t), n & -n)) fail("pool", "a block of %zu bytes is misaligned", n);
      for (auto& l : live)
        if (p < l.p + l.n && l.p < p + n) fail("pool", "a new block of %zu bytes overlaps one of %zu bytes in use", n, l.n);
      unsigned char f = 1 + k % 250;
      memset(p, f, n);
      live.push_back({p, n, f});
    } else if (!live.empty()) {
      size_t i = choose(live.size());
      for (size_t j = 0; j < live[i].n; ++j)
        if (live[i].p[j] != live[i].fill) fail("pool", "the contents of a block changed");
      pool.deallocate(live[i].p, live[i].n);
      live.erase(live.begin() + i);
    }
    if (pool.blocks_in_use() != live.size()) fail("pool", "%zu blocks in use reported, %zu are", pool.blocks_in_use(), live.size());
    log(live.size());
  }
  for (auto& l : live) {
    for (size_t j = 0; j < l.n; ++j)
      if (l.p[j] != l.fill) fail("pool", "the contents of a block changed");
    pool.deallocate(l.p, l.n);
  }
  if (pool.blocks_in_use() != 0) fail("pool", "%zu blocks in use after all were given back", pool.blocks_in_use());
  sig(mix64(ops, mix64(per_chunk, sizes.size())));
  if (ops > 20) nontrivial();
  count("histories of a pool of its own");
}
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  if (chance(1, 6)) return direct_pool();
  const size_t base = in_use();
  Store<double> d;
  Store<float> f;
  Store<long double> l;
  std::vector<Solved> problems;
  std::vector<V> kept;  // expressions of problems that are gone
  bool mixed = chance(1, 2);
  int ops = range(5, 60);
  size_t peak = 0;
  note("%d operations, %s", ops, mixed ? "mixed scalar types" : "double only");

  auto on_store = [&](auto& s, int op) {
    switch (op) {
      case 0: s.leaf(); break;
      case 1: case 2: case 3: s.combine(); break;
      case 4: s.set(); break;
      case 5: s.shuffle_slots(); break;
      case 6: s.matrix(); break;
      case 7: s.derivative(); break;
      case 8: s.drop(); break;
      case 9: s.chain(); break;
      case 10: s.half_built(); break;
      case 11:
        if (!s.derivs.empty()) s.evaluate(choose(s.derivs.size()));
        break;
    }
    s.check_some(2, "afterwards");
  };
  auto problem_op = [&] {
    int what = problems.empty() ? 0 : choose(4);
    if (what == 0 && problems.size() < 2) {
      Solved p;
      GenOptions go;
      go.max_n = 3;
      p.spec = std::make_unique<Spec>(gen_problem(go));
      p.b = std::make_unique<Built>(build(*p.spec, choose(2)));
      note("problem %s", p.spec->str().c_str());
      problems.push_back(std::move(p));
      return;
    }
    if (problems.empty()) return;
    size_t i = choose(problems.size());
    if (what <= 2) {
      int end = choose(5), at = pick({0, 1, 2, 5, 9});
      slp::Options o;
      o.max_iterations = end == 2 ? at + 1 : 60;
      if (end == 3) o.timeout = std::chrono::duration<double>(at + 0.5);
      clk.mono_ns = 1'000'000'000;
      problems[i].b->set(problems[i].spec->x0);
      const size_t before = in_use();
      Trace t = traced_solve(*problems[i].b, o, [&](int k, const Info&) -> bool {
        advance_ns(1'000'000'000);
        // expressions built and dropped from inside a callback
        if (k % 4 == 1) on_store(d, choose(4));
        if (end == 1 && k == at) throw Boom();
        return end == 4 && k == at;
      });
      (void)before;
      count(t.threw ? "fault: exception from a callback" : (std::string("ended ") + status_name(t.status)).c_str());
      note("solve, end %d at %d -> %zu callbacks, %s", end, at, t.calls.size(), t.threw ? t.what.c_str() : status_name(t.status));
      log(t.calls.size());
    } else {
      if (chance(1, 2) && kept.size() < 6) kept.push_back(problems[i].b->node[choose(problems[i].b->node.size())]);
      problems.erase(problems.begin() + i);
      for (auto& k : kept) k.value();
      note("problem destroyed");
    }
  };
  auto clear_all = [&](const char* when) {
    while (d.objects() + f.objects() + l.objects() + problems.size() + kept.size()) switch (choose(5)) {
        case 0: d.clear(); break;
        case 1: f.clear(); break;
        case 2: l.clear(); break;
        case 3: problems.clear(); break;
        case 4: kept.clear(); break;
      }
    note("everything destroyed: %zu blocks in use", in_use());
    if (in_use() != base) fail("conservation", "%s: %zu blocks in use, %zu before", when, in_use(), base);
    d.mirror.clear();
    f.mirror.clear();
    l.mirror.clear();
  };

  for (int k = 0; k < ops; ++k) {
    int op = choose(14);
    note("op %d", op);
    if (op == 12) problem_op();
    else if (op == 13) {
      if (chance(1, 4)) clear_all("everything was destroyed");
    } else switch (mixed ? choose(3) : 0) {
        case 0: on_store(d, op); break;
        case 1: on_store(f, op); break;
        case 2: on_store(l, op); break;
      }
    peak = std::max(peak, in_use() - base);
    log(in_use() - base);
    sig(mix64(in_use() - base, mix64(d.objects() + f.objects() + l.objects(), k)));
    if (in_use() < base) fail("conservation", "fewer blocks in use than before: %zu, %zu", in_use(), base);
  }
  d.check_some(5, "at the end");
  f.check_some(5, "at the end");
  l.check_some(5, "at the end");
  clear_all("at the end");
  if (peak > 20) nontrivial();
}
}  // namespace sim
