// Replays behaviours of Domain.tla: where evaluation is refused.
#include <cmath>
#include <map>

#include "replay.h"

#include "dreal/symbolic/symbolic.h"

using namespace dreal;  // NOLINT
using replay::fail;
using std::string;
using std::vector;

namespace {
constexpr int NR = 4;

// A register: the expression, or the fact that building it was refused.
struct Reg {
  Expression e{1.0};
  bool refused{false};
};
struct Outcome {
  bool refused;
  double v;
};

Expression apply(const string& o, const Expression& a, const Expression& b) {
  if (o == "add") return a + b;
  if (o == "sub") return a - b;
  if (o == "mul") return a * b;
  if (o == "div") return a / b;
  if (o == "min") return min(a, b);
  if (o == "max") return max(a, b);
  if (o == "powt") return pow(a, b);
  throw std::logic_error(o);
}
Expression apply(const string& o, const Expression& a) {
  if (o == "log") return log(a);
  if (o == "sqrt") return sqrt(a);
  if (o == "asin") return asin(a);
  if (o == "acos") return acos(a);
  if (o == "abs") return abs(a);
  if (o == "sin") return sin(a);
  if (o == "exp") return exp(a);
  if (o == "atan") return atan(a);
  if (o == "tanh") return tanh(a);
  throw std::logic_error(o);
}
Formula rel(const string& o, const Expression& a, const Expression& b) {
  if (o == "lt") return a < b;
  if (o == "le") return a <= b;
  if (o == "gt") return a > b;
  if (o == "ge") return a >= b;
  if (o == "eq") return a == b;
  return a != b;
}

string text(const Outcome& r) {
  return r.refused ? string("refused") : std::to_string(r.v);
}

struct Machine {
  int nv;
  vector<Variable> X;
  vector<Reg> T;
  std::map<int, double> val;

  explicit Machine(int n) : nv{n}, X(n + 1), T(NR + 1) {
    for (int i = 1; i <= n; ++i) X[i] = Variable{"x" + std::to_string(i)};
    for (int i = 1; i <= NR && i <= n; ++i) T[i].e = Expression{X[i]};
    const int g[14][2] = {{-2, 1},  {-33, 32}, {-1, 1}, {-31, 32}, {-1, 2},
                          {-1, 32}, {0, 1},    {1, 32}, {1, 2},    {31, 32},
                          {1, 1},   {33, 32},  {2, 1},  {3, 1}};
    for (int i = 1; i <= n; ++i) {
      const int k = (3 * i + 5) % 14;
      val[i] = static_cast<double>(g[k][0]) / g[k][1];
    }
  }
  Environment env(int skip_mod = 0, bool inside = false) const {
    Environment r;
    for (const auto& p : val)
      if (!skip_mod || (p.first % 2 == 0) == inside) r.insert(X[p.first], p.second);
    return r;
  }

  template <class F>
  Outcome attempt(F f) {
    try {
      return {false, static_cast<double>(f())};
    } catch (const replay::Divergence&) {
      throw;
    } catch (const std::logic_error& e) {
      if (dynamic_cast<const std::domain_error*>(&e)) return {true, 0};
      throw;
    } catch (const std::exception&) {
      return {true, 0};
    }
  }

  template <class F>
  void build(int d, bool operands, F f) {
    T[d].refused = operands;
    if (operands) {
      T[d].e = Expression{1.0};
      return;
    }
    try {
      T[d].e = f();
    } catch (const std::logic_error& e) {
      if (!dynamic_cast<const std::domain_error*>(&e)) throw;
      T[d] = {Expression{1.0}, true};
    } catch (const std::exception&) {
      T[d] = {Expression{1.0}, true};
    }
  }

  // The value of t by each way of giving the variables their values.
  template <class A>
  vector<Outcome> routes(const A& t) {
    vector<Outcome> r;
    r.push_back(attempt([&] { return t.Evaluate(env()); }));
    if (std::is_same<A, Formula>::value) {
      ExpressionSubstitution s;
      for (const auto& p : val) s.emplace(X[p.first], p.second);
      r.push_back(attempt([&] { return t.Substitute(s).Evaluate(env()); }));
      return r;
    }
    partial(t, &r);
    return r;
  }
  void partial(const Formula&, vector<Outcome>*) {}
  void partial(const Expression& t, vector<Outcome>* r) {
    r->push_back(attempt(
        [&] { return t.EvaluatePartial(env(1, true)).Evaluate(env()); }));
    r->push_back(attempt(
        [&] { return t.EvaluatePartial(env(1, false)).Evaluate(env()); }));
    r->push_back(
        attempt([&] { return t.EvaluatePartial(env()).Evaluate(env()); }));
    r->push_back(attempt([&] {
      const Expression c{t};
      return c.Evaluate(env());
    }));
  }
};

void run_case(const vector<string>& raw) {
  std::istringstream h(raw.at(0));
  string tag;
  int nv;
  h >> tag >> nv;
  Machine m(nv);
  auto& T = m.T;
  for (size_t s = 1; s < raw.size(); ++s) {
    std::istringstream in(raw[s]);
    string nm, o, st;
    int d, a, b, c, k, p, q;
    in >> nm >> o >> d >> a >> b >> c >> k >> st >> p >> q;
    if (nm == "ld") {
      T[d] = {Expression{m.X[a]}, false};
    } else if (nm == "ldc") {
      T[d] = {Expression{a == 0 ? 1.0 : static_cast<double>(a) / b}, false};
    } else if (nm == "bin") {
      const Reg x = T[a], y = T[b];
      m.build(a, x.refused || y.refused, [&] { return apply(o, x.e, y.e); });
      T[b] = Reg{};
    } else if (nm == "un") {
      const Reg x = T[a];
      m.build(a, x.refused, [&] { return apply(o, x.e); });
    } else if (nm == "pow") {
      const Reg x = T[a];
      m.build(a, x.refused,
              [&] { return pow(x.e, static_cast<double>(b) / c); });
    } else if (nm == "ite") {
      const Reg x = T[a], y = T[b], z = T[c];
      // A branch whose construction was refused leaves nothing to select.
      if (y.refused || z.refused) return;
      m.build(a, x.refused, [&] {
        return if_then_else(x.e < Expression{0.5}, y.e, z.e);
      });
      T[b] = Reg{};
      T[c] = Reg{};
    } else if (nm == "val") {
      if (o == "next") {
        m.val[a] = std::nextafter(static_cast<double>(b), c * 1e9);
      } else if (c == 0) {
        m.val.erase(a);
      } else {
        m.val[a] = static_cast<double>(b) / c;
      }
    } else if (nm == "look" || nm == "rel" || nm == "and") {
      if (st == "m" || (st == "t" && p == 3)) continue;
      const bool want_refused = st == "r" || (st == "t" && p == 2);
      vector<Outcome> got;
      string shown;
      if (nm == "look") {
        got = T[a].refused ? vector<Outcome>{{true, 0}} : m.routes(T[a].e);
        shown = T[a].e.to_string();
      } else {
        const int y = nm == "rel" ? b : c;
        if (T[a].refused || T[y].refused) {
          got = {{true, 0}};
        } else {
          Formula f{Formula::True()};
          const Outcome r = m.attempt([&] {
            f = nm == "rel" ? rel(o, T[a].e, T[b].e)
                            : !rel(o, T[a].e, Expression{0.5}) &&
                                  (T[c].e < Expression{1.0});
            return 0;
          });
          got = r.refused ? vector<Outcome>{r} : m.routes(f);
          shown = f.to_string();
        }
      }
      ++replay::stats()["observations"];
      if (want_refused) ++replay::stats()["refusals"];
      for (size_t i = 0; i < got.size(); ++i) {
        const Outcome& r = got[i];
        string want = want_refused ? "refused"
                      : st == "u"
                          ? "a number"
                          : std::to_string(static_cast<double>(p) / q);
        bool ok = r.refused == want_refused;
        // A branch may be folded, and refused, before the condition is known.
        if (!ok && r.refused && nm == "look" && (i == 1 || i == 2) &&
            T[a].e.include_ite())
          continue;
        if (ok && !want_refused) {
          const double w = static_cast<double>(p) / q;
          ok = st == "u" ? !std::isnan(r.v)
                         : std::fabs(r.v - w) <= 1e-9 * (1 + std::fabs(w));
        }
        if (!ok) {
          std::ostringstream e;
          e << m.env();
          fail("step " + std::to_string(s) + ", route " + std::to_string(i) +
               ": " + shown + " at {" + replay::one_line(e.str()) +
               "}: specification " + want + ", code " + text(r));
        }
      }
    }
  }
}
}  // namespace

int main() { return replay::run(run_case); }
