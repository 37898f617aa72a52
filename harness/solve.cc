// Replays behaviours of Solve.tla in the real Context.
#include <signal.h>
#include <sys/time.h>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <set>

#include "dreal/solver/config.h"
#include "dreal/solver/context.h"
#include "dreal/symbolic/symbolic.h"
#include "judge.h"
#include "problem.h"
#include "replay.h"
#include "sx.h"

using dreal::Box;
using dreal::Config;
using dreal::Context;
using dreal::Expression;
using dreal::Formula;
using dreal::Variable;
using replay::expect_eq;
using replay::fail;
using sx::Node;
using std::string;
using std::vector;

static long g_case = -1;
static void on_alarm(int) {
  // Too long for the replay: not a verdict.  The runner goes on with the rest.
  char buf[64];
  const int n = std::snprintf(buf, sizeof buf, "OK %ld\nSTAT slow 1\n", g_case);
  if (write(1, buf, n) != n) _exit(5);
  _exit(4);
}

static int dim(const Box& b, const Variable& v) {
  for (int i = 0; i < b.size(); ++i) {
    if (b.variable(i).equal_to(v)) return i;
  }
  return -1;
}

static vector<Node> all_of(const Node& n) {
  vector<Node> r;
  if (!n.tag.empty()) {
    r.emplace_back();
    r[0].tag = n.tag;
  }
  r.insert(r.end(), n.args.begin(), n.args.end());
  return r;
}

static double precision_of(int cf) {
  return cf % 9 == 8 ? 0.5 : cf % 5 == 4 ? 0.03125 : 0.001;
}

static void options(int cf, Config* config) {
  config->mutable_precision() = precision_of(cf);
  config->mutable_use_polytope() = (cf & 1) != 0;
  config->mutable_use_worklist_fixpoint() = (cf & 2) != 0;
  config->mutable_stack_left_box_first() = (cf & 4) != 0;
  if (cf & 8) {
    config->mutable_sat_default_phase() =
        cf & 1 ? Config::SatDefaultPhase::True : Config::SatDefaultPhase::False;
  }
  config->mutable_number_of_jobs() = cf & 16 ? 2 + (cf >> 1) % 3 : 1;
  if (cf & 32) config->mutable_random_seed() = cf;
  config->mutable_use_polytope_in_forall() = (cf & 64) != 0;
  config->mutable_use_local_optimization() = (cf & 128) != 0;
}

static Config initial(int cf) {
  Config c;
  options(cf, &c);
  return c;
}

// One context and what the specification says about it.
class Session {
 public:
  // With other, its variables are used where the types are the same.
  Session(const string& types, int cf, const Session* other = nullptr)
      : delta{precision_of(cf)}, ctx{initial(cf)} {
    p.types = " " + types;
    declare(&p);
    dom.resize(p.v.size());
    if (!other) return;
    p.q = other->p.q;
    for (size_t v = 1; v < std::min(p.v.size(), other->p.v.size()); ++v) {
      if (p.types[v] == other->p.types[v]) p.v[v] = other->p.v[v];
    }
  }
  // Returns false if the input is refused, which ends the session.
  bool step(const Node& n, const string& what);

 private:
  Problem p;
  double delta;
  Context ctx;
  vector<Node> nodes{Node{}};
  vector<Formula> fs{Formula::True()};
  vector<std::pair<double, double>> dom;
};

bool Session::step(const Node& n, const string& what) {
  if (n.tag == "decl") {
    const int v = n.num(0);
    dom[v] = {static_cast<double>(n.num(1)), static_cast<double>(n.num(2))};
    if (p.types[v] == 'B') {
      ctx.DeclareVariable(p.v[v]);
    } else {
      const double o = origin(p, v);
      ctx.DeclareVariable(p.v[v], dom[v].first + o, dom[v].second + o);
    }
  } else if (n.tag == "conf") {
    options(n.num(0), &ctx.mutable_config());
    delta = precision_of(n.num(0));
  } else if (n.tag == "push") {
    ctx.Push(1);
  } else if (n.tag == "pop") {
    ctx.Pop(1);
  } else if (n.tag == "assert") {
    nodes.push_back(n.args.at(0));
    fs.push_back(formula(p, n.args.at(0)));
    ctx.Assert(fs.back());
  } else if (n.tag == "goal") {
    vector<Expression> es;
    for (const Node& a : n.args) es.push_back(term(p, a));
    if (es.size() == 1 && n.args[0].tag == "neg") {
      ctx.Maximize(term(p, n.args[0].args.at(0)));
    } else if (es.size() == 1) {
      ctx.Minimize(es[0]);
    } else {
      ctx.Minimize(es);
    }
    ++replay::stats()["goals"];
  } else if (n.tag == "again") {
    ctx.Assert(fs.at(n.num(0)));
  } else if (n.tag == "check") {
    ++replay::stats()["checks"];
    dreal::optional<Box> r;
    try {
      r = ctx.CheckSat();
    } catch (const std::runtime_error& e) {
      // E.g. a negated quantifier: refused, which is no answer.
      if (!std::strstr(e.what(), "not supported")) throw;
      ++replay::stats()["refused"];
      return false;
    }
    if (!r) {
      ++replay::stats()["unsat"];
      if (n.num(0)) {
        fail(what + ": answered unsat although a solution exists");
      }
      if (ctx.get_model().size() && !ctx.get_model().empty()) {
        fail(what + ": a model is left after unsat");
      }
      return true;
    }
    ++replay::stats()["delta_sat"];
    const Box& m = *r;
    std::set<int> want;
    for (const Node& a : n.args.at(1).args) want.insert(std::stoi(a.tag));
    // a list of numbers has its first element as the tag
    if (!n.args.at(1).tag.empty()) want.insert(std::stoi(n.args[1].tag));
    if (static_cast<int>(want.size()) != m.size() && !want.empty()) {
      std::ostringstream o;
      o << what << ": the model has " << m.size() << " variables, "
        << want.size() << " are declared";
      fail(o.str());
    }
    vector<vector<double>> pts(1, vector<double>(p.v.size() + 1, 0.0));
    for (int v : want) {
      const int i = dim(m, p.v[v]);
      if (i < 0) fail(what + ": no value for " + p.v[v].get_name());
      if (m[i].is_empty()) fail(what + ": empty value in a model");
      const Box::Interval iv(m[i].lb() - origin(p, v),
                             m[i].ub() - origin(p, v));
      if (!(dom[v].first <= iv.lb() && iv.ub() <= dom[v].second) &&
          p.types[v] != 'B') {
        fail(what + ": model outside the domain of " + p.v[v].get_name());
      }
      if (p.types[v] != 'R' &&
          !(iv.lb() == iv.ub() && iv.lb() == std::floor(iv.lb()))) {
        fail(what + ": not an integer: " + p.v[v].get_name());
      }
      vector<double> c{iv.lb()};
      if (iv.lb() != iv.ub()) {
        c.push_back(iv.ub());
        c.push_back(iv.mid());
      }
      const size_t k = pts.size();
      for (size_t j = 0; j < k; ++j) {
        for (size_t e = 1; e < c.size(); ++e) {
          pts.push_back(pts[j]);
          pts.back()[v] = c[e];
        }
        pts[j][v] = c[0];
      }
    }
    if (!(ctx.get_model() == m)) fail(what + ": get_model differs");
    vector<int> live;
    const Node& ln = n.args.at(2);
    if (!ln.tag.empty()) live.push_back(std::stoi(ln.tag));
    for (const Node& a : ln.args) live.push_back(std::stoi(a.tag));
    for (int k : live) {
      const double tol =
          has(nodes.at(k), "ite") ? 50 * delta : delta * (1 + 1e-6) + 1e-12;
      for (const auto& x : pts) {
        ++replay::stats()["model_points"];
        if (!weak(nodes[k], true, x, tol)) {
          std::ostringstream o;
          o << what << ": the model violates assertion " << k << " "
            << fs[k] << " by more than delta at";
          for (int v : want) o << " " << p.v[v] << "=" << x[v];
          fail(o.str());
        }
      }
    }
    if (n.args.size() > 3) {
      // Goals: no rival may be better in every objective.
      vector<double> x(p.v.size() + 1, 0.0);
      for (int v : want) x[v] = m[dim(m, p.v[v])].mid() - origin(p, v);
      vector<double> val;
      for (const Node& t : all_of(n.args[3])) val.push_back(vals(t, x, 0).at(0));
      for (const Node& rival : all_of(n.args[4])) {
        const vector<Node> b = all_of(rival);
        bool better = true;
        for (size_t j = 0; j < val.size(); ++j) {
          better = better && std::stod(b.at(j).tag) / 4 <
                                 val[j] - 5 * delta - 1e-9;
        }
        ++replay::stats()["rivals"];
        if (better) {
          std::ostringstream o;
          o << what << ": the model is not optimal: objective " << val[0]
            << ", but " << std::stod(b.at(0).tag) / 4 << " is possible, model";
          for (int v : want) o << " " << p.v[v] << "=" << x[v];
          fail(o.str());
        }
      }
    }
  } else {
    throw std::runtime_error("op " + n.tag);
  }
  return true;
}

// head: types config case [duo]; the lines of two sessions start with 1 or 2
static void body(const vector<string>& ls) {
  const vector<string> h = sx::words(ls.at(0));
  g_case = std::stol(h.at(3));
  const bool duo = h.size() > 4;
  const int cf = std::stoi(h.at(2));
  vector<std::unique_ptr<Session>> ss;
  ss.emplace_back(new Session(h.at(1), cf));
  if (duo) ss.emplace_back(new Session(h.at(4), std::stoi(h.at(5)),
                                       g_case % 3 ? ss[0].get() : nullptr));
  vector<bool> live(ss.size(), true);
  for (size_t l = 1; l < ls.size(); ++l) {
    const size_t k = duo ? ls[l][0] - '1' : 0;
    if (!live.at(k)) continue;
    const Node n = sx::parse(duo ? ls[l].substr(2) : ls[l]);
    string what = "step " + std::to_string(l) + " " + n.tag;
    if (duo) what += k ? " in the second context" : " in the first context";
    struct itimerval tv;
    std::memset(&tv, 0, sizeof tv);
    const char* lim = std::getenv("SOLVE_SECONDS");
    tv.it_value.tv_sec = lim ? std::atoi(lim) : 2;
    setitimer(ITIMER_REAL, &tv, nullptr);
    live[k] = ss[k]->step(n, what);
  }
  struct itimerval off;
  std::memset(&off, 0, sizeof off);
  setitimer(ITIMER_REAL, &off, nullptr);
}

int main() {
  signal(SIGALRM, on_alarm);
  return replay::run(body);
}
