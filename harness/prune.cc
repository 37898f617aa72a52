// Replays cases of Prune.tla in the real contractors and evaluators.
#include <algorithm>
#include <cmath>
#include <set>

#include "dreal/contractor/contractor.h"
#include "dreal/contractor/contractor_status.h"
#include "dreal/solver/config.h"
#include "dreal/solver/formula_evaluator.h"
#include "dreal/symbolic/symbolic.h"
#include "problem.h"
#include "replay.h"
#include "sx.h"

using dreal::Box;
using dreal::Config;
using dreal::Contractor;
using dreal::ContractorStatus;
using dreal::FormulaEvaluationResult;
using replay::fail;

struct Point {
  vector<double> x;
  vector<int> t;
};
static vector<Node> items(const Node& n) {
  vector<Node> r;
  if (!n.tag.empty()) {
    Node a;
    a.tag = n.tag;
    r.push_back(a);
  }
  r.insert(r.end(), n.args.begin(), n.args.end());
  return r;
}
static bool inside(const Box& b, const Point& p) {
  if (b.empty()) return false;
  for (int i = 0; i < b.size(); ++i) {
    if (!b[i].contains(p.x[i])) return false;
  }
  return true;
}
template <typename T>
static string show(const T& x) {
  std::ostringstream o;
  o << x;
  return replay::one_line(o.str());
}
static string show(const Point& p) {
  std::ostringstream o;
  o << "(";
  for (double x : p.x) o << x << " ";
  o << ")";
  return o.str();
}

// What a contractor contracts: a conjunction, or a disjunction of them.
using Dnf = vector<std::set<int>>;
static bool holds(const Dnf& d, const Point& p) {
  return std::any_of(d.begin(), d.end(), [&p](const std::set<int>& c) {
    return std::all_of(c.begin(), c.end(), [&p](int k) { return p.t[k] == 1; });
  });
}

static void evaluate(const vector<dreal::FormulaEvaluator>& es,
                     const vector<Formula>& fs, const vector<Point>& pts,
                     const Box& b) {
  if (b.empty()) return;
  for (size_t k = 0; k < es.size(); ++k) {
    const auto r = es[k](b);
    ++replay::stats()["evaluations"];
    for (const Point& p : pts) {
      if (!inside(b, p)) continue;
      if ((r.type() == FormulaEvaluationResult::Type::VALID && p.t[k] == 0) ||
          (r.type() == FormulaEvaluationResult::Type::UNSAT && p.t[k] == 1)) {
        fail("evaluator of " + show(fs[k]) + " says " +
             (p.t[k] ? "UNSAT" : "VALID") + " on a box with " + show(p));
      }
    }
  }
}

static void body(const vector<string>& ls) {
  const auto h = sx::words(ls.at(0));
  Problem p;
  p.types = " " + h.at(1);
  const int cf = std::stoi(h.at(2));
  declare(&p);
  Box box;
  vector<Formula> fs;
  vector<Point> pts;
  for (size_t l = 1; l < ls.size(); ++l) {
    const Node n = sx::parse(ls[l]);
    if (n.tag == "decl") {
      box.Add(p.v.at(n.num(0)), n.num(1), n.num(2));
    } else if (n.tag == "assert") {
      fs.push_back(formula(p, n.args.at(0)));
    } else {
      for (const Node& q : items(n.args.at(0))) {
        const auto pt = items(q);
        Point x;
        for (const Node& v : items(pt.at(0))) {
          x.x.push_back(std::stol(v.tag) / 4.0);
        }
        for (const Node& t : items(pt.at(1))) {
          x.t.push_back(std::stoi(t.tag));
        }
        pts.push_back(x);
      }
    }
  }
  // A constraint without variables is none of a contractor's business.
  vector<int> live;
  for (size_t k = 0; k < fs.size(); ++k) {
    if (is_relational(fs[k]) ||
        (is_negation(fs[k]) && is_relational(get_operand(fs[k])))) {
      live.push_back(k);
    }
  }
  if (live.empty()) return;
  Config config;
  config.mutable_precision() = 0.001;
  if (cf & 1) config.mutable_number_of_jobs() = 3;
  if (cf & 2) config.mutable_use_polytope() = true;
  vector<dreal::FormulaEvaluator> es;
  {
    vector<Formula> f2;
    vector<Point> p2 = pts;
    for (Point& x : p2) x.t.clear();
    for (int k : live) {
      f2.push_back(fs[k]);
      for (size_t i = 0; i < pts.size(); ++i) p2[i].t.push_back(pts[i].t[k]);
    }
    fs = f2;
    pts = p2;
  }
  for (const Formula& f : fs) {
    es.push_back(dreal::make_relational_formula_evaluator(f));
    bool neq = is_not_equal_to(f) ||
               (is_negation(f) && is_equal_to(get_operand(f)));
    replay::expect_eq(neq, es.back().is_neq(), show(f) + ": is_neq");
  }
  // Stop when no dimension shrinks by a tenth.
  const auto term_cond = [](const Box::IntervalVector& o,
                            const Box::IntervalVector& n) {
    for (int i = 0; i < o.size(); ++i) {
      if (n[i].diam() < 0.9 * o[i].diam()) return false;
    }
    return true;
  };
  const auto never = [](const Box::IntervalVector&,
                        const Box::IntervalVector&) { return true; };
  struct C {
    Contractor c;
    Dnf d;
    string name;
    bool bits;
  };
  vector<C> cs;
  vector<Contractor> all;
  std::set<int> every;
  Dnf each;
  for (size_t k = 0; k < fs.size(); ++k) {
    const Contractor c = make_contractor_ibex_fwdbwd(fs[k], box, config);
    cs.push_back({c, {{static_cast<int>(k)}}, "fwdbwd " + show(fs[k]), true});
    all.push_back(c);
    every.insert(k);
    each.push_back({static_cast<int>(k)});
  }
  const Contractor integer = dreal::make_contractor_integer(box, config);
  cs.push_back({integer, {{}}, "integer", true});
  cs.push_back({dreal::make_contractor_id(config), {{}}, "id", true});
  const Contractor poly = make_contractor_ibex_polytope(fs, box, config);
  cs.push_back({poly, {every}, "polytope", true});
  bool real = false;
  for (const Contractor& c : all) real |= c.kind() != Contractor::Kind::ID;
  if (real) {
    cs.push_back({make_contractor_seq(all, config), {every}, "seq", true});
    cs.push_back({make_contractor_fixpoint(term_cond, all, config), {every},
                  "fixpoint", true});
    cs.push_back({make_contractor_fixpoint(never, all, config), {every},
                  "short fixpoint", true});
    cs.push_back({make_contractor_worklist_fixpoint(term_cond, all, config),
                  {every}, "worklist", false});
    cs.push_back({make_contractor_join(all, config), each, "join", true});
    vector<Contractor> nest{integer, make_contractor_join(all, config)};
    if (all[0].kind() != Contractor::Kind::ID) {
      nest.push_back(make_contractor_seq({integer, all[0]}, config));
    }
    if (all[0].kind() != Contractor::Kind::ID) {
      cs.push_back({make_contractor_fixpoint(term_cond, nest, config),
                    {{0}}, "nested", true});
      cs.push_back({make_contractor_worklist_fixpoint(
                        term_cond, {integer, all[0], poly}, config),
                    {every}, "worklist with polytope", false});
    }
  }
  evaluate(es, fs, pts, box);
  const auto step = [&](const C& c, const Box& before, int branch) {
    ContractorStatus st{before, branch};
    c.c.Prune(&st);
    const Box& after = st.box();
    ++replay::stats()["prunings"];
    const string what = c.name + " on " + show(before);
    if (after.size() != before.size()) fail(what + ": dimensions");
    if (!after.empty()) {
      for (int i = 0; i < after.size(); ++i) {
        if (!after[i].is_subset(before[i])) fail(what + ": the box grew");
        if (c.bits && after[i] != before[i] && !st.output()[i]) {
          fail(what + ": changed dimension " + std::to_string(i) +
               " without telling");
        }
        if (c.name == "integer" && p.types[i + 1] != 'R' &&
            (after[i].lb() != std::floor(after[i].lb()) ||
             after[i].ub() != std::floor(after[i].ub()))) {
          fail(what + ": fractional bound left");
        }
      }
    } else {
      ++replay::stats()["emptied"];
    }
    for (const Point& x : pts) {
      if (inside(before, x) && holds(c.d, x) && !inside(after, x)) {
        fail(what + " loses the solution " + show(x));
      }
    }
    if (after.empty() && branch < 0) {
      const auto expl = st.Explanation();
      std::set<int> ks;
      for (const Formula& f : expl) {
        int at = -1;
        for (size_t k = 0; k < fs.size(); ++k) {
          if (fs[k].EqualTo(f)) at = k;
        }
        if (at < 0) fail(what + ": explained by something not given");
        ks.insert(at);
      }
      for (const Point& x : pts) {
        if (inside(before, x) && holds({ks}, x)) {
          fail(what + ": the explanation has the solution " + show(x));
        }
      }
    }
    evaluate(es, fs, pts, after);
    return after;
  };
  for (const C& c : cs) {
    const Box b1 = step(c, box, -1);
    if (b1.empty()) continue;
    const auto md = b1.MaxDiam();
    if (md.second < 0 || md.first <= 0) continue;
    const bool ok = p.types[md.second + 1] == 'R' ||
                    std::floor(b1[md.second].ub()) >
                        std::ceil(b1[md.second].lb());
    if (!ok) continue;
    const auto halves = b1.bisect(md.second);
    step(c, halves.first, md.second);
    const Box b2 = step(c, halves.second, md.second);
    if (!b2.empty()) step(c, b2, -1);
  }
  for (size_t i = 0; i < pts.size(); i += 7) {
    Box b{box};
    for (int k = 0; k < b.size(); ++k) b[k] = Box::Interval{pts[i].x[k]};
    evaluate(es, fs, pts, b);
  }
}

int main() { return replay::run(body); }
