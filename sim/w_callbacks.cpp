// C07: which callbacks run, in which order, over histories of registrations,
// clears and solves that end in every way.
//
// The reference model is two lists of identifiers.  A solve snapshots their
// concatenation; the calls it makes must be whole rounds over that list, one
// per iteration of the same solve made by a fresh copy of the problem with a
// single passive callback, cut short only by a stop request or an exception.
#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C07",
    "each run draws a problem and a history of up to 14 operations (add ordinary/persistent callbacks of both signatures, clear, move the problem, solve with "
    "stops, exceptions, limits, timeouts, registrations and clears from inside callbacks, nested solves); a run is non-trivial when a solve with two or more "
    "callbacks made at least two rounds; distinct = distinct event-log hashes",
    "Problem, autodiff, newton, sqp, interior_point, feasibility restoration", "clocks (simulated), stdout (simulated stream)",
    "(lists at each solve, rounds, how each solve ended)",
    40000, 3000000};

namespace {
struct Boom : std::runtime_error {
  int id;
  explicit Boom(int i) : std::runtime_error("boom " + std::to_string(i)), id{i} {}
};

struct Ev {
  int id, iteration;
  std::vector<double> x;
};
struct State;
/// What a callback does at one of its calls.
struct Action {
  enum Kind { NONE, STOP, THROW, ADD, ADD_PERSISTENT, CLEAR, CLEAR_ADD, NESTED, STALL } kind = NONE;
  int id = -1;     // which callback
  int at = 0;      // at its call number `at` in this solve
};
struct State {
  std::unique_ptr<slp::Problem<double>> p;
  Spec spec;
  Built b;
  std::vector<int> ordinary, persistent;
  std::vector<int> is_void;
  int next_id = 0;
  std::vector<Ev> events;
  std::vector<int> calls;  // per id, in the current solve
  std::vector<Action> plan;
  bool solving = false;
  slp::Problem<double>& problem() { return *b.p; }
};

struct Canary {
  uint64_t magic = 0x5ca1ab1edeadull;
  ~Canary() { magic = 0; }
};

bool called(State& st, int id, const Info& i);

void add(State& st, bool persistent, bool as_void) {
  int id = st.next_id++;
  auto canary = std::make_shared<Canary>();
  State* s = &st;
  if (persistent) {
    st.problem().add_persistent_callback([s, id, canary](const Info& i) -> bool {
      bool r = called(*s, id, i);
      if (canary->magic != 0x5ca1ab1edeadull) fail("callback-destroyed", "callback %d was destroyed while it ran", id);
      return r;
    });
    st.persistent.push_back(id);
  } else if (as_void) {
    st.problem().add_callback([s, id, canary](const Info& i) {
      called(*s, id, i);
      if (canary->magic != 0x5ca1ab1edeadull) fail("callback-destroyed", "callback %d was destroyed while it ran", id);
    });
    st.ordinary.push_back(id);
  } else {
    st.problem().add_callback([s, id, canary](const Info& i) -> bool {
      bool r = called(*s, id, i);
      if (canary->magic != 0x5ca1ab1edeadull) fail("callback-destroyed", "callback %d was destroyed while it ran", id);
      return r;
    });
    st.ordinary.push_back(id);
  }
  st.is_void.push_back(as_void && !persistent);
  st.calls.push_back(0);
}

bool called(State& st, int id, const Info& i) {
  if (!st.solving) fail("called-outside-solve", "callback %d called outside of solve()", id);
  st.events.push_back({id, i.iteration, to_std(i.x)});
  if (st.events.size() > 20000) fail("too-many-calls", "more than 20000 callbacks in one solve");
  int n = st.calls[id]++;
  bool stop = false;
  for (size_t k = 0; k < st.plan.size(); ++k) {
    Action a = st.plan[k];
    if (a.id != id || a.at != n) continue;
    switch (a.kind) {
      case Action::STOP:
        stop = true;
        count("fault: stop requested");
        break;
      case Action::THROW: count("fault: callback throws"); throw Boom(id);
      case Action::ADD: add(st, false, false); count("fault: callback registers a callback"); break;
      case Action::ADD_PERSISTENT: add(st, true, false); count("fault: callback registers a callback"); break;
      case Action::CLEAR:
        st.problem().clear_callbacks();
        st.ordinary.clear();
        count("fault: callback clears callbacks");
        break;
      case Action::CLEAR_ADD:
        st.problem().clear_callbacks();
        st.ordinary.clear();
        for (int q = 0; q < 3; ++q) add(st, false, false);
        count("fault: callback clears callbacks");
        break;
      case Action::NESTED: {
        slp::Problem<double> other;
        auto y = other.decision_variable();
        other.minimize((y - 2.0) * (y - 2.0));
        int c = 0;
        other.add_callback([&](const Info&) { c++; });
        other.solve(slp::Options{});
        if (c < 1) fail("nested", "nested solve made no callbacks");
        count("fault: nested solve in a callback");
        break;
      }
      case Action::STALL:
        advance(10.0);
        count("fault: callback stalls");
        break;
      case Action::NONE: break;
    }
  }
  return stop;
}
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  State st;
  GenOptions go;
  go.nonfinite = true;
  st.spec = gen_problem(go);
  note("problem %s", st.spec.str().c_str());
  st.b = build(st.spec, choose(2));
  const int n = st.spec.n;
  int ops = range(3, 14);
  for (int op = 0; op < ops; ++op) {
    switch (choose(8)) {
      case 0:
      case 1:
        add(st, false, chance(1, 3));
        note("add callback %d%s", st.next_id - 1, st.is_void.back() ? " (void)" : "");
        break;
      case 2:
        add(st, true, false);
        note("add persistent callback %d", st.next_id - 1);
        break;
      case 3:
        if (chance(1, 2)) {
          st.problem().clear_callbacks();
          st.ordinary.clear();
          note("clear callbacks");
        } else {
          auto q = std::make_unique<slp::Problem<double>>(std::move(*st.b.p));
          st.b.p = std::move(q);
          count("op: problem moved");
          note("move the problem");
        }
        break;
      default: {
        slp::Options o;
        o.tolerance = pick({1e-8, 1e-4});
        o.max_iterations = pick({60, 1, 3, 10});
        if (chance(1, 5)) o.timeout = std::chrono::duration<double>(pick({5.0, 25.0}));
        o.diagnostics = chance(1, 12);
        o.feasible_ipm = chance(1, 8);
        bool spy = chance(1, 10);
        disk.active = true;
        std::vector<double> x0 = st.spec.x0;
        if (chance(1, 3))
          for (auto& v : x0) v = range(-4, 4) / 2.0;
        std::vector<int> L = st.ordinary;
        L.insert(L.end(), st.persistent.begin(), st.persistent.end());

        st.plan.clear();
        for (int k = L.empty() ? 0 : static_cast<int>(choose(3)); k > 0; --k) {
          Action a;
          a.kind = pick({Action::STOP, Action::THROW, Action::ADD, Action::CLEAR, Action::ADD_PERSISTENT, Action::CLEAR_ADD, Action::NESTED, Action::STALL});
          a.id = L[choose(L.size())];
          a.at = pick({0, 1, 2, 4, 9});
          if (a.kind == Action::STOP && st.is_void[a.id]) a.kind = Action::THROW;
          st.plan.push_back(a);
        }
        // the reference history of this solve
        Trace ref;
        {
          Spec s2 = st.spec;
          s2.x0 = x0;
          Built rb = build(s2, 0);
          slp::Options ro = o;
          ro.timeout = std::chrono::duration<double>{std::numeric_limits<double>::infinity()};
          ref = traced_solve(rb, ro);
        }
        st.b.set(x0);
        st.events.clear();
        std::fill(st.calls.begin(), st.calls.end(), 0);
        st.solving = true;
        int status = 99, threw = -1;
        try {
          status = static_cast<int>(st.problem().solve(o, spy));
        } catch (const Boom& e) {
          threw = e.id;
        }
        st.solving = false;
        note("solve with %zu+%zu callbacks, %zu actions, max_iterations=%d timeout=%g -> %zu calls, %s", L.size() - st.persistent.size(), st.persistent.size(), st.plan.size(),
             o.max_iterations, o.timeout.count(), st.events.size(), threw >= 0 ? "exception" : status_name(status));
        log(status + 100);
        log(st.events.size());
        for (auto& e : st.events) log(e.id * 1000 + e.iteration);

        // ---- oracle ----------------------------------------------------------
        size_t m = L.size(), N = st.events.size();
        if (m == 0) {
          if (N) fail("unregistered", "%zu calls although no callback is registered", N);
          sig(mix64(shape(ref, n), status + 100));
          break;
        }
        size_t rounds = (N + m - 1) / m;
        // who ended it?
        int ender = -1;
        bool by_throw = false;
        {
          std::vector<int> c(st.next_id, 0);
          for (size_t i = 0; i < N && ender < 0; ++i) {
            int id = st.events[i].id;
            for (auto& a : st.plan)
              if (a.id == id && a.at == c[id] && (a.kind == Action::STOP || a.kind == Action::THROW)) {
                ender = static_cast<int>(i);
                by_throw = false;
                // the first matching throw wins, else stop
                for (auto& b : st.plan)
                  if (b.id == id && b.at == c[id] && b.kind == Action::THROW) by_throw = true;
              }
            c[id]++;
          }
        }
        for (size_t i = 0; i < N; ++i) {
          const Ev& e = st.events[i];
          if (e.id != L[i % m]) {
            bool registered = std::find(L.begin(), L.end(), e.id) != L.end();
            fail(registered ? "order" : "unregistered", "call %zu of the solve is callback %d, expected callback %d (of %zu, iteration %d)", i, e.id, L[i % m], m, e.iteration);
          }
          if (i / m >= ref.calls.size()) fail("extra-round", "%zu rounds of callbacks, the solve has %zu iterations", i / m + 1, ref.calls.size());
          const Call& c = ref.calls[i / m];
          if (e.iteration != c.iteration) fail("iteration-number", "callback %d was shown iteration %d in round %zu, expected %d", e.id, e.iteration, i / m, c.iteration);
          if (!same_bits(e.x, c.x)) fail("iterate", "callback %d was shown %s in round %zu, expected %s", e.id, vec_str(e.x).c_str(), i / m, vec_str(c.x).c_str());
          if (ender >= 0 && static_cast<int>(i) > ender) fail("called-after-end", "callback %d was called after callback %d %s", e.id, st.events[ender].id, by_throw ? "threw" : "requested a stop");
        }
        for (size_t i = 0; i < ref.calls.size() && i < rounds; ++i) {
          int it = ref.calls[i].iteration;
          if (i == 0) {
            if (it != 0) fail("iteration-number", "the first iteration has number %d", it);
          } else {
            int d = it - ref.calls[i - 1].iteration;
            bool entering = in_restoration(ref, i, n) && !in_restoration(ref, i - 1, n);
            if (!(d == 1 || (d == 0 && entering)))
              fail("iteration-number", "iteration %d follows iteration %d%s", it, ref.calls[i - 1].iteration, entering ? " (restoration starts)" : "");
            if (entering) count("probe: restoration starts");
          }
        }
        if (ender >= 0) {
          if (static_cast<int>(N) != ender + 1) fail("called-after-end", "%zu calls, expected %d", N, ender + 1);
          if (by_throw && threw != st.events[ender].id) fail("exception", "callback %d threw but solve() returned %s", st.events[ender].id, status_name(status));
          if (!by_throw && status != ST_STOP) fail("stop-status", "callback %d requested a stop but solve() returned %s", st.events[ender].id, status_name(status));
        } else {
          if (threw >= 0) fail("exception", "solve() threw an exception of callback %d that was not thrown", threw);
          if (N % m) fail("incomplete-round", "the last round made %zu of %zu calls although nothing stopped it (%s)", N % m, m, status_name(status));
          if (status == ST_STOP) fail("stop-status", "CALLBACK_REQUESTED_STOP although no callback requested it");
          if (status != ST_TIMEOUT && rounds != ref.calls.size())
            fail("missing-round", "%zu rounds of callbacks, the solve has %zu iterations (%s)", rounds, ref.calls.size(), status_name(status));
        }
        if (m >= 2 && rounds >= 2) nontrivial();
        count((std::string("solve ended: ") + (threw >= 0 ? "exception" : status_name(status))).c_str());
        sig(mix64(mix64(mix64(shape(ref, n), N), m * 16 + st.persistent.size()), status + 100));
        break;
      }
    }
  }
}
}  // namespace sim
