// C12: sparsity files against a byte-exact reference writer, on a simulated
// disk that refuses to open, fills up, breaks, and cuts writes short.
//
// The reference writer is fed the matrices the callbacks were shown; a solve
// of the same problem without spying gives the reference status and iterates.
#include <stdexcept>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C12",
    "each run draws a problem, options, how its 1 to 3 consecutive spied solves end (by themselves, stop, exception, iteration limit, timeout) and the disk's faults "
    "during each; every solve is compared with an unspied one of a fresh problem, and every file with the bytes the documentation prescribes; non-trivial: at least two "
    "records were due in a file; distinct = distinct event-log hashes",
    "Problem, Spy, std::ofstream, autodiff, newton, sqp, interior_point, feasibility restoration",
    "disk (simulated: open, write, writev and close of *.spy) and clocks",
    "(solve's shape, how it ended, disk faults that fired, files' completeness)",
    100000, 4000000};

namespace {
void put32(std::string& s, int32_t v) {
  uint32_t u = static_cast<uint32_t>(v);
  for (int k = 0; k < 4; ++k) s.push_back(static_cast<char>(u >> (8 * k)));
}
void put_str(std::string& s, const char* c) {
  put32(s, static_cast<int32_t>(strlen(c)));
  s += c;
}
std::string header(const char* title, const char* row, int rows, int cols) {
  std::string s;
  put_str(s, title);
  put_str(s, row);
  put_str(s, "Decision variables");
  put32(s, rows);
  put32(s, cols);
  return s;
}
/// '?' in the sign position of an entry that is NaN.
void record(std::string& s, std::vector<size_t>& wild, const SpMat& m) {
  int32_t nnz = 0;
  for (int k = 0; k < m.outerSize(); ++k)
    for (SpMat::InnerIterator it{m, k}; it; ++it) ++nnz;
  put32(s, nnz);
  for (int k = 0; k < m.outerSize(); ++k)
    for (SpMat::InnerIterator it{m, k}; it; ++it) {
      put32(s, static_cast<int32_t>(it.row()));
      put32(s, static_cast<int32_t>(it.col()));
      double v = it.value();
      if (std::isnan(v)) wild.push_back(s.size());
      s.push_back(v > 0 ? '+' : v < 0 ? '-' : '0');
    }
}
/// Length of the common prefix, NaN entries' signs being free.
size_t common(const std::string& data, const std::string& want, const std::vector<size_t>& wild) {
  size_t n = std::min(data.size(), want.size()), w = 0;
  for (size_t i = 0; i < n; ++i) {
    while (w < wild.size() && wild[w] < i) ++w;
    if (data[i] != want[i] && !(w < wild.size() && wild[w] == i && strchr("+-0", data[i]))) return i;
  }
  return n;
}
enum End { NATURAL, STOP, THROW, LIMIT, TIMED };
const char* const end_names[] = {"by itself", "stop request", "exception", "iteration limit", "timeout"};
}  // namespace

void run_world() {
  clk.active = true;
  Spec spec;
  bool big = chance(1, 8);
  if (big) {
    // records of several kB, so that a file spans many buffers
    spec.family = "dense";
    spec.form = choose(1u << 16);
    spec.n = range(12, 30);
    Ast& a = spec.ast;
    std::vector<int> v;
    for (int i = 0; i < spec.n; ++i) {
      v.push_back(a.var(i));
      spec.x0.push_back(0.25 * (i % 5) - 0.5);
    }
    int sum = v[0];
    for (int i = 1; i < spec.n; ++i) sum = a.bin(Op::ADD, sum, v[i]);
    int c = a.un(Op::SQUARE, a.bin(Op::SUB, sum, a.cst(3)));
    for (int i = 0; i < spec.n; ++i) c = a.bin(Op::ADD, c, a.powc(a.bin(Op::SUB, v[i], a.cst(0.5 * i)), 4));
    spec.cost = c;
    int kind = choose(3);
    if (kind >= 1) spec.eq.push_back(a.bin(Op::SUB, a.un(Op::SQUARE, sum), a.cst(4)));
    if (kind == 2)
      for (int i = 0; i < spec.n; i += 2) spec.ineq.push_back(a.bin(Op::SUB, a.cst(2), a.bin(Op::MUL, v[i], v[(i + 1) % spec.n])));
  } else {
    GenOptions go;
    go.nonfinite = chance(1, 4);
    spec = gen_problem(go);
  }
  int style = choose(2);
  note("problem %s", big ? "dense" : spec.str().c_str());
  Built b = build(spec, style);
  b.set(spec.x0);
  disk.active = true;
  std::vector<double> start = spec.x0;
  const int solves = range(1, 3);
  for (int k = 0; k < solves; ++k) {
    slp::Options o;
    o.tolerance = pick({1e-8, 1e-4});
    o.max_iterations = pick({60, 8, 25});
    End end = pick({NATURAL, NATURAL, STOP, THROW, LIMIT, TIMED});
    int at = end == NATURAL ? 0 : pick({0, 1, 2, 3, 5, 8, 13});
    if (end == LIMIT) o.max_iterations = at + 1;
    if (end == TIMED) o.timeout = std::chrono::duration<double>(at + 0.5);
    bool diagnostics = false;
    o.diagnostics = diagnostics;
    const bool spy = !chance(1, 10);
    auto hook = [&](int i, const Info&) -> bool {
      if (end == TIMED) advance_ns(1'000'000'000);
      if (end == THROW && i == at) throw std::runtime_error("thrown by a callback");
      return end == STOP && i == at;
    };

    // reference
    disk.space = disk.eio_after = -1;
    disk.short_writes = disk.eintr = disk.close_fails = false;
    disk.open_fails.clear();
    Built r = build(spec, style);
    r.set(start);
    const size_t before_ref = disk.files.size();
    Trace ref = traced_solve(r, o, hook, true, false);
    if (disk.files.size() != before_ref) fail("unasked", "a solve without spy opened %s", disk.files.back().name.c_str());

    // faults
    int64_t used = 0;
    for (auto& f : disk.files) used += f.data.size();
    const size_t first = disk.files.size();
    int fault = choose(8);
    std::string fstr = "none";
    const int64_t at_byte = pick<int64_t>({0, 1, 4, 5, 20, 50, 51, 53, 57, 100, 200, 500, 1000, 4000, 8000, 8191, 8192, 9000, 16384, 30000}) + (chance(1, 2) ? choose(40) : 0);
    switch (fault) {
      case 1:
      case 2: {
        disk.open_fails.assign(first, false);
        for (int i = 0; i < 3; ++i) disk.open_fails.push_back(chance(1, 2));
        fstr = "open";
        break;
      }
      case 3:
      case 4:
        disk.space = used + at_byte;
        fstr = "ENOSPC after " + std::to_string(at_byte);
        break;
      case 5:
        disk.eio_after = used + at_byte;
        fstr = "EIO after " + std::to_string(at_byte);
        break;
      case 6:
        disk.short_writes = true;
        disk.eintr = chance(1, 2);
        fstr = "short writes";
        break;
      case 7:
        disk.close_fails = true;
        fstr = "close";
        break;
    }
    note("solve %d from %s: spy=%d ends by %s at %d, disk fault: %s", k, big ? "..." : vec_str(start).c_str(), spy, end_names[end], at, fstr.c_str());
    clk.mono_ns = 1'000'000'000;
    b.set(start);
    Trace t = traced_solve(b, o, hook, true, spy);
    log_trace(t);
    note(" -> %zu callbacks, %s", t.calls.size(), t.threw ? t.what.c_str() : status_name(t.status));
    if (end == STOP && t.status == ST_STOP) count("end: stop");
    if (t.threw) count("end: exception");

    // harmless
    if (t.threw != ref.threw || t.what != ref.what)
      fail("outcome", "the spied solve %s, the unspied one %s", t.threw ? t.what.c_str() : "returned", ref.threw ? ref.what.c_str() : "returned");
    if (!t.threw && t.status != ref.status) fail("outcome", "status %s instead of %s", status_name(t.status), status_name(ref.status));
    std::string d = diff_calls(t, ref, std::min(t.calls.size(), ref.calls.size()), true);
    if (!d.empty()) fail("outcome", "with spy: %s", d.c_str());
    if (t.calls.size() != ref.calls.size()) fail("outcome", "%zu iterations with spy, %zu without", t.calls.size(), ref.calls.size());
    if (!same_bits(t.final_x, ref.final_x)) fail("outcome", "variables %s instead of %s", vec_str(t.final_x).c_str(), vec_str(ref.final_x).c_str());

    // files
    if (!spy && disk.files.size() != first) fail("unasked", "a solve without spy opened %s", disk.files.back().name.c_str());
    uint64_t state = 0;
    if (spy && !t.calls.empty()) {
      struct Want {
        const char* name;
        std::string bytes;   // without the last record if that may be missing
        std::string last;
        std::vector<size_t> wild, wild_last;
      };
      const int n = spec.n, me = spec.eq.size(), mi = spec.ineq.size();
      std::vector<Want> want;
      want.push_back({"H.spy", header("Hessian", "Decision variables", n, n), "", {}, {}});
      if (me || mi) want.push_back({"A_e.spy", header("Equality constraint Jacobian", "Constraints", me, n), "", {}, {}});
      if (mi) want.push_back({"A_i.spy", header("Inequality constraint Jacobian", "Constraints", mi, n), "", {}, {}});
      size_t regular = 0;
      for (size_t i = 0; i < t.calls.size(); ++i) {
        if (in_restoration(t, i, n)) continue;
        ++regular;
        const Call& c = t.calls[i];
        // whether an iteration cut short by a callback still gets its record
        // isn't specified
        bool optional = i + 1 == t.calls.size() && (t.threw || t.status == ST_STOP);
        for (size_t f = 0; f < want.size(); ++f) {
          std::string& s = optional ? want[f].last : want[f].bytes;
          record(s, optional ? want[f].wild_last : want[f].wild, f == 0 ? c.H : f == 1 ? c.A_e : c.A_i);
        }
      }
      if (regular >= 2) nontrivial();
      if (regular < t.calls.size()) count("restoration in a spied solve");
      for (size_t i = first; i < disk.files.size(); ++i) {
        bool known = false;
        for (auto& w : want) known |= disk.files[i].name == w.name;
        if (!known) fail("files", "the solve opened %s", disk.files[i].name.c_str());
      }
      for (auto& w : want) {
        const DiskFile* f = nullptr;
        int opened = 0;
        for (size_t i = first; i < disk.files.size(); ++i)
          if (disk.files[i].name == w.name) {
            f = &disk.files[i];
            ++opened;
          }
        if (!f) fail("files", "%s was not written", w.name);
        if (opened > 1) fail("files", "%s was opened %d times", w.name, opened);
        if (f->open_failed) {
          if (!f->data.empty()) harness_error("data in a file that is not open");
          state = state * 4 + 3;
          continue;
        }
        std::string all = w.bytes + w.last;
        std::vector<size_t> wild = w.wild;
        for (size_t p : w.wild_last) wild.push_back(p + w.bytes.size());
        size_t c = common(f->data, all, wild);
        if (c < f->data.size())
          fail("content", "%s differs from the documented content at byte %zu of %zu (%zu expected)", w.name, c, f->data.size(), all.size());
        if (f->write_failures == 0) {
          if (f->data.size() != all.size() && f->data.size() != w.bytes.size())
            fail("incomplete", "%s has %zu bytes when solve() %s, %zu expected%s", w.name, f->data.size(), t.threw ? "throws" : "returns", all.size(),
                 w.last.empty() ? "" : " (or without the last record)");
          state = state * 4 + 1;
        } else {
          state = state * 4 + 2;
        }
        if (!f->closed) fail("incomplete", "%s is still open when solve() %s", w.name, t.threw ? "throws" : "returns");
      }
    }
    sig(mix64(mix64(shape(t, spec.n), end), mix64(state, fault)));
    if (chance(1, 3)) start = t.final_x;
    for (double v : start)
      if (!std::isfinite(v)) start = spec.x0;
  }
}
}  // namespace sim
