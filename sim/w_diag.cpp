// C23: diagnostics report what happened.
//
// A solve with diagnostics runs on simulated clocks and a captured standard
// output.  The text is cut at every callback, so the rows of the iteration
// table are known to belong to the iteration between two callbacks, and is
// compared with the recorded history: row numbers and types, the numbers in
// them, durations and counts of the time trace against the simulated time that
// evaluations and callbacks took, exit conditions, problem size, lists of
// violated constraints, and the exit line.
#include <map>
#include <stdexcept>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C23",
    "each run draws a problem, a way to state it (Problem, or user functions with factors handed to the solver entry points), options, durations of every evaluation and callback, and how the solve "
    "ends (by itself, stop, exception, limit, deadline, nonfinite evaluations); non-trivial: at least two rows of the iteration table were compared; distinct = distinct event-log hashes",
    "Problem, autodiff, newton, sqp, interior_point, feasibility restoration, diagnostics, profilers, print wrappers",
    "clocks and stdout (simulated); user functions of the direct variant (reference model)",
    "(solve's shape, way it was stated, how it ended, table layout)",
    40000, 6000000};

namespace {
struct Boom : std::runtime_error {
  Boom() : std::runtime_error("boom") {}
};

struct Row {
  int number = 0;
  char type = ' ';
  double ms = 0, error = 0, cost = 0, infeas = 0, complem = 0, mu = 0, p_pr = 0, p_du = 0, a_pr = 0, a_du = 0;
  int backtracks = 0;
  bool header = false;  // a header precedes the row
  std::string text;
};

std::vector<std::string> lines_of(const std::string& s) {
  std::vector<std::string> r;
  size_t at = 0;
  while (at < s.size()) {
    size_t e = s.find('\n', at);
    if (e == std::string::npos) e = s.size();
    r.push_back(s.substr(at, e - at));
    at = e + 1;
  }
  return r;
}
bool starts(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
std::vector<std::string> words(const std::string& s) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && s[i] == ' ') ++i;
    size_t j = i;
    while (j < s.size() && s[j] != ' ') ++j;
    if (j > i) r.push_back(s.substr(i, j - i));
    i = j;
  }
  return r;
}
const std::string bar = "│";
bool is_row(const std::string& l) { return starts(l, "│") && l.find('%') == std::string::npos; }

Row parse_row(const std::string& l) {
  Row r;
  r.text = l;
  if (l.size() < 2 * bar.size() || l.substr(l.size() - bar.size()) != bar) fail("row", "unterminated row %s", l.c_str());
  auto w = words(l.substr(bar.size(), l.size() - 2 * bar.size()));
  size_t k = 0;
  auto num = [&](const char* what) {
    if (k >= w.size()) fail("row", "no %s in %s", what, l.c_str());
    char* end = nullptr;
    double v = std::strtod(w[k].c_str(), &end);
    if (*end) fail("row", "%s isn't a number in %s", what, l.c_str());
    ++k;
    return v;
  };
  r.number = static_cast<int>(num("iteration number"));
  if (k < w.size() && (w[k] == "s" || w[k] == "r")) r.type = w[k++][0];
  r.ms = num("duration");
  r.error = num("error");
  r.cost = num("cost");
  r.infeas = num("infeasibility");
  r.complem = num("complementarity");
  r.mu = num("barrier parameter");
  for (int q = 0; q < 2; ++q) {
    if (k >= w.size() || (w[k] != "0" && !starts(w[k], "1"))) fail("row", "regularization isn't a power of ten in %s", l.c_str());
    ++k;
  }
  r.p_pr = num("primal step");
  r.p_du = num("dual step");
  r.a_pr = num("primal step size");
  r.a_du = num("dual step size");
  r.backtracks = static_cast<int>(num("backtracks"));
  if (k != w.size()) fail("row", "superfluous columns in %s", l.c_str());
  return r;
}

/// printed: rounded to at least three significant digits.
bool near(double printed, double v, double noise) {
  if (std::isnan(v)) return std::isnan(printed);
  if (std::isinf(v)) return printed == v;
  return std::abs(printed - v) <= 6e-3 * std::abs(v) + noise;
}

struct Moment {
  int64_t in = 0, out = 0;  // simulated time when the callback began and ended
  size_t text = 0;          // output so far
};
}  // namespace

void run_world() {
  int buffering = choose(3);
  install_stdout(buffering);
  out.capture = true;
  clk.active = true;
  GenOptions go;
  go.nonfinite = true;
  Spec spec = gen_problem(go);
  bool direct = chance(2, 3);
  Solver which = natural_solver(spec);
  if (direct && which == Solver::NEWTON && chance(1, 4)) which = Solver::SQP;
  slp::Options o;
  o.diagnostics = !chance(1, 24);
  o.tolerance = pick({1e-8, 1e-8, 1e-5, 1e-3, 1e-10});
  o.max_iterations = pick({60, 60, 200, 25, 8, 3, 1});
  o.feasible_ipm = chance(1, 6);
  int end = choose(6);  // 0, 1: by itself, 2: stop, 3: exception, 4: deadline, 5: nonfinite evaluations
  int at = pick({0, 1, 2, 4, 7, 12});
  if (end == 4) o.timeout = std::chrono::duration<double>(pick({0.001, 0.01, 1.0, 30.0}));
  // durations, in microseconds
  int64_t unit = pick<int64_t>({1, 1, 1000, 250000});
  int64_t each_call = unit * choose(4), eval_us[8];
  for (auto& e : eval_us) e = unit * choose(3);
  int64_t wall = chance(1, 3) ? pick<int64_t>({-5'000'000'000, 3'600'000'000'000, -86'400'000'000'000}) : 0;
  Built b;
  Direct d{&spec};
  bool unit_scale = true;
  if (direct) {
    if (chance(1, 2)) {
      d.df = pick({1.0, 0.5, 0.0625});
      for (size_t i = 0; i < spec.eq.size(); ++i) d.de.push_back(pick({1.0, 0.25, 0.5}));
      for (size_t i = 0; i < spec.ineq.size(); ++i) d.di.push_back(pick({1.0, 0.25, 0.5}));
      unit_scale = d.df == 1;
      for (double v : d.de) unit_scale &= v == 1;
      for (double v : d.di) unit_scale &= v == 1;
    } else {
      d.identity = chance(1, 2);
    }
  } else {
    b = build(spec, choose(3));
  }
  note("problem %s", spec.str().c_str());
  note("%s, tol %g, max %d, feasible_ipm %d, end %d at %d, callback %lld us, wall jumps %lld, buffering %d", direct ? "direct" : "Problem", o.tolerance, o.max_iterations, o.feasible_ipm, end, at,
       (long long)each_call, (long long)wall, buffering);

  std::vector<Moment> moments;
  auto hook = [&](int i, const Info&) -> bool {
    fflush(stdout);
    Moment m;
    m.in = clk.mono_ns;
    m.text = out.captured.size();
    if (wall && i % 2) jump_wall_ns(wall);
    advance_ns(each_call * 1000 * (1 + i % 3));
    m.out = clk.mono_ns;
    moments.push_back(m);
    if (end == 2 && i == at) {
      count("fault: stop request");
      return true;
    }
    if (end == 3 && i == at) {
      count("fault: exception from a callback");
      throw Boom();
    }
    return false;
  };
  uint64_t evals[8] = {};
  uint64_t faults = 0;
  d.before = [&](Eval e, int, const std::vector<double>&) {
    ++evals[static_cast<int>(e)];
    advance_ns(eval_us[static_cast<int>(e)] * 1000);
  };
  int from = choose(80), len = pick({1, 2, 5});
  double bad = pick<double>({NAN, INFINITY, -INFINITY});
  if (direct && end == 5)
    d.after = [&](Eval, int i, const std::vector<double>&, double* v, size_t m) {
      if (i >= from && i < from + len && m) {
        v[i % m] = bad;
        ++faults;
      }
    };
  auto solve = [&] {
    if (direct) {
      Trace r = direct_solve(d, which, o, spec.x0, hook);
      return r;
    }
    b.set(spec.x0);
    return traced_solve(b, o, hook);
  };
  const int64_t t0 = clk.mono_ns;
  Trace t = solve();
  const int64_t t1 = clk.mono_ns;
  fflush(stdout);
  const std::string text = out.captured;
  out.capture = false;
  if (faults) count("fault: nonfinite evaluations", faults);
  if (wall && !moments.empty()) count("fault: wall clock jumps");
  if (t.status == ST_TIMEOUT) count("fault: deadline passed");
  log_trace(t);
  log_bytes(text.data(), text.size());
  note("%zu callbacks, %s", t.calls.size(), t.threw ? t.what.c_str() : status_name(t.status));
  const int n = spec.n;
  const size_t m = t.calls.size();
  if (t.threw && end != 3) fail("throws", "the solve threw %s", t.what.c_str());
  if (!o.diagnostics) {
    if (!text.empty()) fail("unasked", "diagnostics are off, but this was printed: %.200s", text.c_str());
    count("diagnostics off");
    sig(mix64(shape(t, n), 1));
    return;
  }
  auto R = [&](size_t i) { return in_restoration(t, i, n); };
  for (const auto& l : lines_of(text)) note("| %s", l.c_str());

  // ---- the iteration table ---------------------------------------------------
  int next = 0, mains = 0;
  bool saw_s = false;
  for (size_t i = 0; i < m; ++i) {
    size_t a = moments[i].text, z = i + 1 < m ? moments[i + 1].text : text.size();
    int64_t end_ns = i + 1 < m ? moments[i + 1].in : t1;
    std::vector<Row> rows;
    bool header = false;
    for (const auto& l : lines_of(text.substr(a, z - a))) {
      if (starts(l, "┃iter")) header = true;
      if (!is_row(l)) continue;
      rows.push_back(parse_row(l));
      rows.back().header = header;
      header = false;
    }
    const int num = t.calls[i].iteration;
    std::vector<Row> main;
    int soc = 0;
    for (auto& r : rows) {
      if (r.number % 20 != 0 && r.header) fail("header", "a header precedes row %d", r.number);
      if (r.type == 's') {
        ++soc;
        saw_s = true;
        if (r.number != num) fail("number", "iteration %d has a second-order correction row with number %d", num, r.number);
        if (!main.empty()) fail("order", "a second-order correction row follows the row of iteration %d", num);
        if ((!faults && (!(r.a_pr > 0) || !(r.a_pr <= 1))) || r.ms < 0 || r.ms > (end_ns - moments[i].in) / 1e6 + 0.002) fail("row", "impossible numbers in %s", r.text.c_str());
      } else {
        main.push_back(r);
        if (r.number % 20 == 0 && !r.header) {
          bool before = false;
          for (auto& q : rows) before |= q.type == 's' && q.header;
          if (!before) fail("header", "no header precedes row %d", r.number);
        }
      }
    }
    const bool last = i + 1 == m;
    size_t least, most;
    std::string types = " ";
    if (!last) {
      least = most = !R(i) && R(i + 1) ? 0 : 1;
      if (R(i) && R(i + 1)) types = "r";
    } else if (t.threw || t.status == ST_STOP) {
      least = most = 0;
    } else if (t.status == ST_SUCCESS || t.status == ST_MAXIT) {
      least = most = 1;
      if (R(i)) types = t.status == ST_SUCCESS ? " " : " r";
    } else {
      least = 0;
      most = 1;
      if (R(i)) types = " r";
      if (t.status == ST_LS) most = 0;
    }
    if (main.size() < least || main.size() > most)
      fail("rows", "%zu rows for iteration %d (callback %zu of %zu, %s), expected %zu to %zu", main.size(), num, i, m, R(i) ? "restoration" : "normal", least, most);
    if (main.empty()) continue;
    const Row& r = main[0];
    ++mains;
    if (r.number != num || r.number != next) fail("number", "iteration %d has a row with number %d, the previous row has %d", num, r.number, next - 1);
    ++next;
    if (types.find(r.type) == std::string::npos) fail("type", "the row of iteration %d (%s) has type '%c', expected one of '%s'", num, R(i) ? "restoration" : "normal", r.type, types.c_str());
    // the iteration began at the callback of the outer solver
    size_t start = i;
    if (r.type == ' ')
      while (start > 0 && R(start)) --start;
    double ms = (end_ns - moments[start].in) / 1e6;
    // A restoration that ends the solve is evaluated once more after its last row.
    if (last && r.type == 'r' ? r.ms > ms + 0.0021 || r.ms < (moments[i].out - moments[i].in) / 1e6 - 0.0021 : std::abs(r.ms - ms) > 0.0021)
      fail("duration", "row %d says %.3f ms, the iteration took %.3f ms", r.number, r.ms, ms);
    if (!faults && (!(r.a_pr >= 0) || !(r.a_pr <= 1) || !(r.a_du >= 0) || !(r.a_du <= 1) || (soc == 0 && r.backtracks < 0) || !(r.mu >= 0) || !(r.p_pr >= 0) || !(r.p_du >= 0)))
      fail("row", "impossible numbers in %s", r.text.c_str());
    if (r.type != ' ' || faults) continue;
    // errors
    if (!last && !(r.error >= o.tolerance * 0.999)) fail("error", "row %d says error %g, but the solve went on (tolerance %g)", r.number, r.error, o.tolerance);
    if (last && t.status == ST_SUCCESS && !(r.error <= o.tolerance * 1.001)) fail("error", "SUCCESS, but the last row says error %g (tolerance %g)", r.error, o.tolerance);
    // the iterate it led to
    if (!last && R(i + 1)) fail("rows", "a row precedes restoration");
    const bool duals = !last;
    const std::vector<double>& x = last ? t.final_x : t.calls[i + 1].x;
    if (faults) continue;
    auto v = eval_values<double>(spec.ast, x);
    auto err = eval_errors(spec.ast, x);
    auto noise = [&](int id) {
      double e = 1e3 * (std::abs(err[id].v) * 1e-15) + 1e-13 * std::abs(v[id]) + 1e-300;
      return std::isfinite(e) ? e : HUGE_VAL;
    };
    if (spec.cost >= 0) {
      double f = (spec.maximize ? -1 : 1) * v[spec.cost];
      if (direct) {
        if (!near(r.cost, d.df * f, noise(spec.cost))) fail("cost", "row %d says cost %.17g, it is %.17g", r.number, r.cost, d.df * f);
      } else if (std::isfinite(f) && std::abs(f) > 100 * noise(spec.cost) && !(r.cost / f > 0 && r.cost / f < 1.01)) {
        fail("cost", "row %d says cost %.17g, it is %.17g", r.number, r.cost, f);
      }
    }
    double infeas = 0, slack = 0;
    for (size_t k = 0; k < spec.eq.size(); ++k) {
      infeas += std::abs(v[spec.eq[k]]) * (d.de.empty() ? 1 : d.de[k]);
      slack += noise(spec.eq[k]);
    }
    if (duals)
      for (size_t k = 0; k < spec.ineq.size(); ++k) {
        double s = k < t.calls[i + 1].s.size() ? t.calls[i + 1].s[k] : 0;
        infeas += std::abs(v[spec.ineq[k]] * (d.di.empty() ? 1 : d.di[k]) - s);
        slack += noise(spec.ineq[k]) + 1e-14 * s;
      }
    if (direct && (duals || spec.ineq.empty())) {
      if (!near(r.infeas, infeas, slack)) fail("infeasibility", "row %d says infeasibility %.17g, it is %.17g", r.number, r.infeas, infeas);
    } else if (!direct && !(r.infeas <= 1.01 * infeas + slack) && (duals || spec.ineq.empty()) && spec.ineq.empty()) {
      fail("infeasibility", "row %d says infeasibility %.17g, it is at most %.17g", r.number, r.infeas, infeas);
    }
    if (duals && which == Solver::IP) {
      double sz = 0;
      for (size_t k = 0; k < t.calls[i + 1].s.size(); ++k) sz += t.calls[i + 1].s[k] * t.calls[i + 1].z[k];
      if (!near(r.complem, sz, 1e-300)) fail("complementarity", "row %d says complementarity %.17g, it is %.17g", r.number, r.complem, sz);
    }
    if (which != Solver::IP && (r.complem != 0 || r.mu != 0)) fail("complementarity", "row %d says complementarity %g and barrier parameter %g", r.number, r.complem, r.mu);
    // the step
    if (start == i && soc == 0 && r.a_pr >= 1e-6) {
      double dx = 0, big = 0;
      for (int k = 0; k < n; ++k) {
        dx = std::max(dx, std::abs(x[k] - t.calls[i].x[k]));
        big = std::max({big, std::abs(x[k]), std::abs(t.calls[i].x[k])});
      }
      double step = r.a_pr * r.p_pr;
      if (dx > 1.02 * step + 1e-15 * big) fail("step", "row %d says the variables moved by at most %g * %g, they moved by %g", r.number, r.a_pr, r.p_pr, dx);
      if (which != Solver::IP) {
        if (dx < 0.98 * step - 1e-15 * big) fail("step", "row %d says the variables moved by %g * %g, they moved by %g", r.number, r.a_pr, r.p_pr, dx);
        if (std::abs(r.a_pr - std::exp2(-r.backtracks)) > 6e-3 * r.a_pr) fail("step", "row %d says step size %g after %d backtracks", r.number, r.a_pr, r.backtracks);
      }
    }
    // the error, up to the multipliers' influence on how it is scaled
    if (direct && unit_scale && duals) {
      auto u = eval_duals<double>(spec.ast, x);
      const Call& c = t.calls[i + 1];
      double e = 0, mult = 0, noise_e = 1e-9 * o.tolerance;
      for (double q : c.y) mult += std::abs(q);
      for (double q : c.z) mult += std::abs(q);
      for (int k = 0; k < n; ++k) {
        double l = spec.cost < 0 ? 0 : (spec.maximize ? -1 : 1) * u[spec.cost].g[k], mag = std::abs(l);
        for (size_t q = 0; q < c.y.size() && q < spec.eq.size(); ++q) l -= c.y[q] * u[spec.eq[q]].g[k], mag += std::abs(c.y[q] * u[spec.eq[q]].g[k]);
        for (size_t q = 0; q < c.z.size() && q < spec.ineq.size(); ++q) l -= c.z[q] * u[spec.ineq[q]].g[k], mag += std::abs(c.z[q] * u[spec.ineq[q]].g[k]);
        e = std::max(e, std::abs(l));
        noise_e += 1e-10 * mag;
      }
      for (int id : spec.eq) e = std::max(e, std::abs(v[id])), noise_e += noise(id);
      for (size_t q = 0; q < c.s.size() && q < spec.ineq.size(); ++q) {
        e = std::max({e, std::abs(v[spec.ineq[q]] - c.s[q]), std::abs(c.s[q] * c.z[q])});
        noise_e += noise(spec.ineq[q]) + 1e-14 * c.s[q];
      }
      if (std::isfinite(e) && std::isfinite(noise_e)) {
        if (r.error > 1.01 * e + noise_e) fail("error", "row %d says error %g, no optimality condition is violated by more than %g", r.number, r.error, e);
        if (r.error < 0.99 * e / std::max(1.0, mult / 100) - noise_e) fail("error", "row %d says error %g, an optimality condition is violated by %g (multipliers %g)", r.number, r.error, e, mult);
        count("errors compared");
      }
    }
    if (soc && start == i)
      for (auto& q : rows)
        if (q.type == 's' && (q.cost != r.cost || q.infeas != r.infeas || q.p_pr != r.p_pr || q.a_pr != r.a_pr)) fail("soc", "the step of %s isn't the accepted one %s", q.text.c_str(), r.text.c_str());
    count("rows compared");
  }
  if (mains >= 2) nontrivial();
  if (saw_s) count("second-order correction rows");

  // ---- everything else ------------------------------------------------------------
  auto lines = lines_of(text);
  size_t rules = 0, traces = 0, total_rows = 0;
  struct Prof {
    double percent = 0, total = 0, each = 0;
    int runs = 0;
  };
  std::map<std::string, Prof> prof;
  std::vector<std::string> order;
  for (const auto& l : lines) {
    if (l == "└───────────────────────────────────────────────────────────────────────────────────────────────────────────────────────┘") ++rules;
    if (starts(l, "│") && is_row(l)) ++total_rows;
    if (starts(l, "│solver ")) ++traces;
    if (traces && starts(l, "│") && l.find('%') != std::string::npos) {
      // "│name  12.34%▕...▏ total each runs│"
      size_t pc = l.find('%');
      auto left = words(l.substr(bar.size(), pc - bar.size()));
      size_t e = l.rfind("▏");
      // the histogram itself may contain this character; numbers follow the last one
      auto right = words(l.substr(e + std::string("▏").size(), l.size() - bar.size() - e - std::string("▏").size()));
      if (left.size() < 2 || right.size() != 3) fail("trace", "malformed line %s", l.c_str());
      Prof p;
      p.percent = atof(left.back().c_str());
      p.total = atof(right[0].c_str());
      p.each = atof(right[1].c_str());
      p.runs = atoi(right[2].c_str());
      // the bar, in eighths of a cell
      size_t open = l.find("▕");
      if (open == std::string::npos || open > e) fail("trace", "malformed line %s", l.c_str());
      static const char* const cells[] = {" ", "▏", "▎", "▍", "▌", "▋", "▊", "▉", "█"};
      int eighths = 0, width = 0;
      for (size_t k = open + strlen("▕"); k < e; ++width) {
        int q = 8;
        while (q >= 0 && l.compare(k, strlen(cells[q]), cells[q]) != 0) --q;
        if (q < 0) fail("trace", "malformed bar in %s", l.c_str());
        eighths += q;
        k += strlen(cells[q]);
      }
      double full = std::min(100.0, p.percent) * 0.72;
      if (width != 9 || eighths > full + 0.02 || eighths < full - 1.02) fail("trace", "%s has a bar of %d eighths in %d cells", l.c_str(), eighths, width);
      std::string name;
      for (size_t k = 0; k + 1 < left.size(); ++k)
        if (left[k] != "↳") name += (name.empty() ? "" : " ") + left[k];
      prof[name] = p;
      order.push_back(name);
    }
  }
  bool began = m > 0 || (!t.threw && (t.status == ST_LOCAL || t.status == ST_DIVERGE));
  if (traces > 1 || (began && traces != 1) || (!t.threw && (t.status == ST_DOFS || t.status == ST_NONFINITE || t.status == ST_GLOBAL) && traces))
    fail("trace", "%zu solver time traces", traces);
  if (rules > 1 || (mains > 0 && rules != 1)) fail("table", "%zu bottom rules of the iteration table", rules);
  if (traces) {
    auto has = [&](const char* k) {
      if (!prof.count(k)) fail("trace", "no line for %s in the time trace", k);
      return prof[k];
    };
    Prof solver = has("solver"), cb = has("callbacks"), it = has("iteration");
    double ms = (t1 - t0) / 1e6;
    if (std::abs(solver.total - ms) > 0.0021) fail("trace", "the solver is said to take %.3f ms, it took %.3f ms", solver.total, ms);
    double called = 0;
    size_t outer = 0, entered = 0;
    for (size_t i = 0; i < m; ++i) {
      if (!R(i)) {
        ++outer;
        called += (moments[i].out - moments[i].in) / 1e6;
      } else if (i == 0 || !R(i - 1)) {
        ++entered;
      }
    }
    if (std::abs(cb.total - called) > 0.002 + 0.001 * outer || cb.runs != static_cast<int>(outer))
      fail("trace", "callbacks are said to take %.3f ms in %d runs, they took %.3f ms in %zu", cb.total, cb.runs, called, outer);
    if (it.runs != static_cast<int>(outer) && it.runs != static_cast<int>(outer) + 1) fail("trace", "%d iterations are reported, there were %zu", it.runs, outer);
    if (which != Solver::NEWTON && m) {
      Prof fr = has("feas. restoration");
      if (fr.runs < static_cast<int>(entered) || fr.runs > static_cast<int>(entered) + 1) fail("trace", "%d feasibility restorations are reported, there were %zu", fr.runs, entered);
    }
    if (direct) {
      static const char* const names[] = {"f(x)", "∇f(x)", "∇²ₓₓL", "∇²ₓₓL_c", "cₑ(x)", "∂cₑ/∂x", "cᵢ(x)", "∂cᵢ/∂x"};
      for (int k = 0; k < 8; ++k) {
        if (!prof.count(names[k])) {
          if (evals[k]) fail("trace", "%llu evaluations of %s, but no line in the time trace", (unsigned long long)evals[k], names[k]);
          continue;
        }
        Prof p = prof[names[k]];
        double took = evals[k] * eval_us[k] / 1e3;
        if (p.runs != static_cast<int>(evals[k]) || std::abs(p.total - took) > 0.0021)
          fail("trace", "%s is said to take %.3f ms in %d runs, it took %.3f ms in %llu", names[k], p.total, p.runs, took, (unsigned long long)evals[k]);
      }
    }
    for (auto& [k, p] : prof) {
      if (p.runs > 0 && std::abs(p.each - p.total / p.runs) > 0.0021) fail("trace", "%s takes %.3f ms in %d runs, but %.3f ms each", k.c_str(), p.total, p.runs, p.each);
      if (p.runs == 0 && (p.total != 0 || p.each != 0)) fail("trace", "%s takes %.3f ms in no run", k.c_str(), p.total);
      if (solver.total > 0.1 && std::abs(p.percent - 100 * p.total / solver.total) > 0.011 + 0.2 / solver.total) fail("trace", "%s is said to take %.2f%%, it is %.3f of %.3f ms", k.c_str(), p.percent, p.total, solver.total);
    }
  }
  // lists of violated constraints
  for (size_t li = 0; li < lines.size(); ++li) {
    bool eq = starts(lines[li], "Violated constraints (cₑ"), in = starts(lines[li], "Violated constraints (cᵢ");
    if (!eq && !in) continue;
    count("lists of violated constraints compared");
    const auto& ids = eq ? spec.eq : spec.ineq;
    const auto& factors = eq ? d.de : d.di;
    auto v = eval_values<double>(spec.ast, t.final_x);
    std::vector<bool> listed(ids.size(), false);
    size_t prev = 0;
    for (size_t q = li + 1; q < lines.size() && starts(lines[q], "  ") ; ++q) {
      unsigned long row = 0, of = 0;
      double val = 0;
      if (sscanf(lines[q].c_str(), " %lu/%lu: %lf", &row, &of, &val) != 3) break;
      if (of != ids.size()) {
        // Restoration's own constraints
        count("lists of restoration's constraints");
        goto next_list;
      }
      if (row < 1 || row > of || row <= prev) fail("violated", "constraint %lu of %lu listed after constraint %zu", row, of, prev);
      prev = row;
      listed[row - 1] = true;
      if (faults) continue;
      double c = v[ids[row - 1]];
      if (direct) {
        c *= factors.empty() ? 1 : factors[row - 1];
        if (std::abs(val - c) > 1e-9 * (1 + std::abs(c))) fail("violated", "constraint %lu is listed with value %.17g, it is %.17g", row, val, c);
      } else if (std::abs(c) > 1e-9 && !(val / c > 0 && val / c < 1 + 1e-6)) {
        fail("violated", "constraint %lu is listed with value %.17g, it is %.17g", row, val, c);
      }
    }
    if (!faults)
      for (size_t k = 0; k < ids.size(); ++k) {
        double c = v[ids[k]];
        bool violated = eq ? std::abs(c) > 1e-6 : c < -1e-6, satisfied = eq ? c == 0 : c > 1e-6;
        if (violated && !listed[k]) fail("violated", "%s constraint %zu (value %g) is violated, but isn't listed", eq ? "equality" : "inequality", k + 1, c);
        if (satisfied && listed[k]) fail("violated", "%s constraint %zu (value %g) is satisfied, but listed", eq ? "equality" : "inequality", k + 1, c);
      }
  next_list:;
  }
  auto contains = [&](const std::string& s) { return text.find(s) != std::string::npos; };
  if (!t.threw) {
    if (t.status == ST_DOFS && !contains("too few degrees of freedom")) fail("reason", "TOO_FEW_DOFS isn't explained");
    if (t.status == ST_GLOBAL && m == 0 && contains("Invoking IPM") && !contains("globally infeasible due to conflicting bound")) fail("reason", "conflicting bounds aren't explained");
  }
  if (!direct) {
    // header
    auto expect = [&](const std::string& s) {
      for (const auto& l : lines)
        if (l == s) return;
      fail("summary", "no line \"%s\"", s.c_str());
    };
    char buf[100];
    if (lines.empty() || lines[0] != "User-configured exit conditions:") fail("summary", "the exit conditions aren't printed first");
    expect("  ↳ iteration callback requested stop");
    snprintf(buf, sizeof buf, "  ↳ executed %d iterations", o.max_iterations);
    expect(buf);
    bool tol = false, timeout = false;
    for (const auto& l : lines) {
      if (starts(l, "  ↳ error below ")) tol = std::abs(atof(l.c_str() + strlen("  ↳ error below ")) - o.tolerance) <= 1e-6 * o.tolerance;
      if (starts(l, "  ↳ ") && l.find(" elapsed") != std::string::npos) timeout = std::abs(atof(l.c_str() + strlen("  ↳ ")) - o.timeout.count()) <= 1e-6 * o.timeout.count();
    }
    if (!tol) fail("summary", "the tolerance %g isn't printed", o.tolerance);
    if (timeout != std::isfinite(o.timeout.count())) fail("summary", "timeout %g: %s", o.timeout.count(), timeout ? "printed" : "not printed");
    auto plural = [&](size_t k, const char* what) {
      snprintf(buf, sizeof buf, "%zu %s%s", k, what, k == 1 ? "" : "s");
      expect(buf);
    };
    plural(spec.n, "decision variable");
    plural(spec.eq.size(), "equality constraint");
    plural(spec.ineq.size(), "inequality constraint");
    static const char* const types[] = {"no", "constant", "linear", "quadratic", "nonlinear"};
    static const char* const kinds[] = {"empty", "constant", "linear", "quadratic", "nonlinear"};
    expect(std::string("  ↳ ") + types[static_cast<int>(b.p->cost_function_type())] + " cost function");
    expect(std::string("  ↳ ") + types[static_cast<int>(b.p->equality_constraint_type())] + " equality constraints");
    expect(std::string("  ↳ ") + types[static_cast<int>(b.p->inequality_constraint_type())] + " inequality constraints");
    for (int eq = 0; eq < 2; ++eq) {
      // counts by type follow the number of constraints
      size_t li = 0;
      while (li < lines.size() && lines[li].find(eq ? " equality constraint" : " inequality constraint") == std::string::npos) ++li;
      while (li < lines.size() && !(lines[li][0] >= '0' && lines[li][0] <= '9' && lines[li].find(eq ? " equality constraint" : " inequality constraint") != std::string::npos)) ++li;
      std::map<std::string, size_t> want, got;
      for (int id : eq ? spec.eq : spec.ineq) ++want[kinds[static_cast<int>(b.node[id].type())]];
      for (++li; li < lines.size() && starts(lines[li], "  ↳ "); ++li) {
        auto w = words(lines[li]);
        if (w.size() == 3) got[w[2]] = atoi(w[1].c_str());
      }
      // the constraint is a difference, whose type may exceed the node's
      size_t a = 0, c = 0;
      for (auto& [k, x] : want) a += x;
      for (auto& [k, x] : got) c += x;
      if (a != c) fail("summary", "%zu %s constraints, but counts by type add up to %zu", a, eq ? "equality" : "inequality", c);
    }
    const bool noop = m == 0 && contains("Invoking no-op solver");
    if (!noop) {
      const char* name = which == Solver::IP ? "Invoking IPM solver" : which == Solver::SQP ? "Invoking SQP solver" : "Invoking Newton solver";
      expect(name);
    } else if (t.status != ST_SUCCESS && t.status != ST_GLOBAL) {
      fail("summary", "%s from the no-op solver", status_name(t.status));
    }
    size_t exits = 0;
    static const std::map<int, const char*> words_of = {{0, "success"}, {1, "callback requested stop"}, {-1, "too few degrees of freedom"}, {-2, "locally infeasible"}, {-3, "globally infeasible"},
      {-4, "factorization failed"}, {-5, "line search failed"}, {-6, "feasibility restoration failed"}, {-7, "nonfinite initial guess"}, {-8, "diverging iterates"}, {-9, "max iterations exceeded"}, {-10, "timeout"}};
    for (const auto& l : lines)
      if (starts(l, "Exit: ")) {
        ++exits;
        if (t.threw) fail("exit", "\"%s\" after an exception", l.c_str());
        if (l != std::string("Exit: ") + words_of.at(t.status)) fail("exit", "\"%s\", but %s was returned", l.c_str(), status_name(t.status));
      }
    if (exits > 1 || (exits == 0 && !t.threw && !noop && t.status != ST_GLOBAL)) fail("exit", "%zu exit lines", exits);
    if (exits && !starts(lines.back(), "Exit: ")) fail("exit", "output goes on after the exit line");
    // setup: children don't exceed their parent
    if (!noop && !contains("│setup ")) fail("setup", "no setup time trace");
  }
  // the same solve on a standard output that fills up
  if (chance(1, 4)) {
    out.captured.clear();
    out.capture = true;
    out.bytes = 0;
    out.mode = Out::FULL_AFTER;
    out.capacity = choose(text.size() + 1);
    moments.clear();
    faults = 0;
    clk.mono_ns = t0;
    Trace u = solve();
    fflush(stdout);
    log_trace(u);
    if (u.status != t.status || u.threw != t.threw || u.calls.size() != t.calls.size()) fail("output", "the solve depends on the state of standard output");
    const std::string& got = out.captured;
    if (text.compare(0, got.size(), got) != 0 || got.size() > static_cast<size_t>(out.capacity) || got.size() + 4096 < std::min<size_t>(text.size(), out.capacity))
      fail("output", "%zu bytes on a standard output that fills up, which aren't the first of %zu", got.size(), text.size());
  }
  sig(mix64(mix64(shape(t, n), direct * 16 + end), mains + 100 * saw_s + 1000 * total_rows));
}
}  // namespace sim
