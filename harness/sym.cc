// Replays behaviours of Sym.tla in the real symbolic layer.
#include <cstring>

#include "dreal/symbolic/prefix_printer.h"
#include "dreal/util/if_then_else_eliminator.h"
#include "dreal/util/naive_cnfizer.h"
#include "dreal/util/nnfizer.h"
#include "dreal/util/predicate_abstractor.h"
#include "dreal/util/tseitin_cnfizer.h"
#include "infix.h"
#include "sexpr.h"
#include "symcommon.h"

namespace symv {
using dreal::IfThenElseEliminator;
using dreal::NaiveCnfizer;
using dreal::Nnfizer;
using dreal::PredicateAbstractor;
using dreal::TseitinCnfizer;
using replay::stats;

const int NE = 4, NF = 3;

std::set<std::string> own;  // kinds of divergence this check decides
bool owned(const std::string& k) { return own.empty() || own.count(k); }
struct Foreign {};

// A divergence of kind k: reported if this check owns it, otherwise the rest
// of the behaviour is not judged.
[[noreturn]] void diverge(const std::string& k, const std::string& what) {
  if (owned(k)) throw replay::Divergence("[" + k + "] " + what);
  throw Foreign{};
}

struct ER {
  Expression e;
  TP t;
  bool dead{false};
  std::vector<RV> want;
};
struct FR {
  Formula f;
  TP t;
  bool dead{false};
  std::vector<int> want;
};

struct Step {
  std::string nm, o;
  int m, d, a, b, c;
  std::vector<int> p;
  TP t;
  char k;
  std::vector<std::pair<long, long>> etab;
  std::vector<int> ftab;
  std::vector<std::pair<int, int>> dtab;
};

std::vector<Variable> X, B;  // 1..8
std::map<Variable::Id, std::pair<bool, int>> var_of;
std::vector<Pt> tlc_points;

// The identifiers are created in an order chosen by the seed, so that the
// canonical orders inside sums and products vary.  Names mean nothing to the
// specification: in some cases all variables share one, or look like the ones
// the transformations introduce (SYM_NAMES=plain: never, printed text is read
// back by name).
void init_vars(const unsigned seed) {
  X.assign(9, Variable{});
  B.assign(9, Variable{});
  var_of.clear();
  std::vector<int> ord{2, 1, 3, 4, 5, 6, 7, 8};
  uint64_t s = seed;
  for (int i = 8; seed > 1 && i > 1; --i) {
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    std::swap(ord[i - 1], ord[(s >> 33) % i]);
  }
  const char* plain = std::getenv("SYM_NAMES");
  const int naming = plain || seed < 2 ? 0 : (seed / 2) % 4;
  for (int i : ord) {
    std::string x = "x" + std::to_string(i), b = "b" + std::to_string(i);
    if (naming == 1) x = "x", b = "x";
    if (naming == 2) {
      x = "ITE" + std::to_string(i % 2);
      b = i == 1 ? "conj0" : i == 2 ? "disj0" : "b((x < 1))";
    }
    X[i] = Variable{x, Variable::Type::CONTINUOUS};
    B[i] = Variable{b, Variable::Type::BOOLEAN};
    var_of[X[i].get_id()] = {true, i};
    var_of[B[i].get_id()] = {false, i};
  }
}

struct Machine {
  std::vector<ER> E;
  std::vector<FR> F;
  std::vector<Pt> pts;
  std::unique_ptr<TseitinCnfizer> tse;
  std::unique_ptr<PredicateAbstractor> pab;
  std::unique_ptr<IfThenElseEliminator> ite;
  bool copy_only{false};
  bool check{true};

  Machine() : E(NE + 1), F(NF + 1) {}

  void start(unsigned seed) {
    pts = tlc_points;
    uint64_t s = seed * 2654435761u + 12345;
    auto rnd = [&s]() {
      s = s * 6364136223846793005ULL + 1442695040888963407ULL;
      return static_cast<int>((s >> 33) & 0xffff);
    };
    for (int i = 0; i < 6; ++i) {
      Pt p;
      for (int v = 0; v < 9; ++v) {
        p.x[v] = (rnd() % 65 - 32) / (i % 2 ? 8.0L : 4.0L);
        p.b[v] = rnd() % 2;
      }
      pts.push_back(p);
    }
    E[1].t = parse("var 1");
    E[1].e = Expression{X[1]};
    E[2].t = parse("var 2");
    E[2].e = Expression{X[2]};
    E[3].t = constant_term(2);
    E[3].e = Expression{2.0};
    E[4].t = constant_term(0);
    F[1].t = parse("bvar 1");
    F[1].f = Formula{B[1]};
    F[2].t = parse("lt var 1 var 2");
    F[2].f = Expression{X[1]} < Expression{X[2]};
    F[3].t = true_term();
    for (int i = 1; i <= NE; ++i) expect(&E[i]);
    for (int i = 1; i <= NF; ++i) expect(&F[i]);
    tse.reset(new TseitinCnfizer);
    pab.reset(new PredicateAbstractor);
    ite.reset(new IfThenElseEliminator);
  }

  void expect(ER* r) {
    r->want.clear();
    if (!check) return;
    for (Pt& p : pts) {
      Pt q = p;
      r->want.push_back(ev(r->t, &q));
    }
  }
  void expect(FR* r) {
    r->want.clear();
    if (!check) return;
    for (Pt& p : pts) {
      Pt q = p;
      r->want.push_back(fev(r->t, &q));
    }
  }

  Walk walker(const Pt& p) const {
    Walk w;
    for (int i = 1; i <= 8; ++i) {
      w.env[X[i].get_id()] = static_cast<double>(p.x[i]);
      w.env[B[i].get_id()] = p.b[i];
    }
    return w;
  }
  Environment env(const Pt& p) const {
    Environment r;
    for (int i = 1; i <= 3; ++i) {
      r.insert(X[i], static_cast<double>(p.x[i]));
      r.insert(B[i], p.b[i]);
    }
    return r;
  }

  static bool close(const RV& w, double v) {
    return std::isfinite(v) &&
           std::fabs(w.v - static_cast<LD>(v)) <=
               4 * w.e + 1e-8L * std::max<LD>(1, std::fabs(w.v));
  }

  std::string where(const Pt& p) const {
    std::ostringstream o;
    o << " at x1=" << static_cast<double>(p.x[1])
      << " x2=" << static_cast<double>(p.x[2])
      << " x3=" << static_cast<double>(p.x[3]) << " b=" << p.b[1] << p.b[2]
      << p.b[3];
    return o.str();
  }

  template <class T>
  void check_vars(const T& v, const Variables& got, const TP& t,
                  const std::string& name) {
    std::set<Variable::Id> tree = free_ids(v), rep;
    for (const Variable& x : got) rep.insert(x.get_id());
    if (tree != rep)
      diverge("vars", name + " = " + v.to_string() + ": reported variables {" +
                          got.to_string() + "} are not the ones occurring");
    std::set<int> n, b;
    fv(t, &n, &b);
    for (Variable::Id id : tree) {
      auto it = var_of.find(id);
      if (it == var_of.end() ||
          !(it->second.first ? n : b).count(it->second.second))
        diverge("vars", name + " = " + v.to_string() +
                            ": a variable that the specification's term does "
                            "not contain");
    }
    if (v.include_ite() != has_ite(v))
      diverge("vars", name + " = " + v.to_string() + ": include_ite wrong");
  }

  void verify(const ER& r, const std::string& k, const std::string& name) {
    for (size_t i = 0; i < pts.size(); ++i) {
      const RV& w = r.want[i];
      if (!w.ok) continue;
      ++stats()["values"];
      Walk wk = walker(pts[i]);
      double v;
      try {
        v = wk.E(r.e);
      } catch (const std::exception& ex) {
        diverge(k, name + " = " + r.e.to_string() + ": " + ex.what());
      }
      if (!close(w, v))
        diverge(k, name + " = " + r.e.to_string() + where(pts[i]) +
                       ": specification " + show(static_cast<double>(w.v)) +
                       ", code " + show(v));
      double v2;
      try {
        v2 = r.e.Evaluate(env(pts[i]));
      } catch (const std::exception& ex) {
        diverge("eval", name + " = " + r.e.to_string() + where(pts[i]) +
                            ": specification " +
                            show(static_cast<double>(w.v)) +
                            ", Evaluate throws " + ex.what());
      }
      if (!close(w, v2))
        diverge("eval", name + " = " + r.e.to_string() + where(pts[i]) +
                            ": specification " +
                            show(static_cast<double>(w.v)) +
                            ", Evaluate gives " + show(v2));
    }
  }
  void verify(const FR& r, const std::string& k, const std::string& name) {
    const bool q = has_forall(r.f);
    for (size_t i = 0; i < pts.size(); ++i) {
      if (r.want[i] == 2) continue;
      ++stats()["truths"];
      bool v;
      try {
        Walk wk = walker(pts[i]);
        v = wk.F(r.f);
      } catch (const std::exception& ex) {
        diverge(k, name + " = " + r.f.to_string() + ": " + ex.what());
      }
      if (v != (r.want[i] == 1))
        diverge(k, name + " = " + r.f.to_string() + where(pts[i]) +
                       ": specification " + std::to_string(r.want[i]) +
                       ", code " + std::to_string(v));
      if (q) continue;
      bool v2;
      try {
        v2 = r.f.Evaluate(env(pts[i]));
      } catch (const std::exception& ex) {
        diverge("feval", name + " = " + r.f.to_string() + where(pts[i]) +
                             ": Evaluate throws " + ex.what());
      }
      if (v2 != v)
        diverge("feval", name + " = " + r.f.to_string() + where(pts[i]) +
                             ": specification " + std::to_string(r.want[i]) +
                             ", Evaluate " + std::to_string(v2));
    }
  }
  static bool has_forall(const Formula& f) {
    bool r = is_forall(f);
    children(f, [&](const Expression& x) { r = r || has_forall(x); },
             [&](const Formula& x) { r = r || has_forall(x); });
    return r;
  }
  static bool has_forall(const Expression& e) {
    bool r = false;
    children(e, [&](const Expression& x) { r = r || has_forall(x); },
             [&](const Formula& x) { r = r || has_forall(x); });
    return r;
  }

  // some part of t has no value anywhere: the code may refuse to build it
  bool hopeless(const TP& t) {
    for (const TP& c : t->c)
      if (hopeless(c)) return true;
    static const std::set<std::string> num{"add", "sub", "mul",   "div", "neg",
                                           "pow", "fn",  "const", "min", "max",
                                           "atan2"};
    if (!num.count(t->k)) return false;
    uint64_t s = 99;
    for (int i = 0; i < 80; ++i) {
      Pt p;
      for (int v = 0; v < 9; ++v) {
        s = s * 6364136223846793005ULL + 1442695040888963407ULL;
        p.x[v] = (static_cast<int>((s >> 33) % 65) - 32) / 8.0L;
        p.b[v] = static_cast<int>((s >> 40) & 1);
      }
      if (ev(t, &p).ok) return false;
    }
    return true;
  }

  ExpressionSubstitution esub(const std::vector<int>& p) {
    ExpressionSubstitution r;
    if (p[0]) r.emplace(X[p[0]], E[p[1]].e);
    if (p[2]) r.emplace(X[p[2]], E[p[3]].e);
    return r;
  }
  FormulaSubstitution fsub(const std::vector<int>& p) {
    FormulaSubstitution r;
    if (p[4]) r.emplace(B[p[4]], F[p[5]].f);
    return r;
  }
  bool sub_dead(const std::vector<int>& p) {
    return (p[0] && E[p[1]].dead) || (p[2] && E[p[3]].dead) ||
           (p[4] && F[p[5]].dead);
  }

  // The substitution puts a term under a quantifier that binds one of its
  // variables (a known finding, see known_findings.txt).
  bool captures(const TP& t, const std::vector<int>& p) {
    if (t->k == "forall") {
      std::set<int> n, b, rn, rb;
      fv(t, &n, &b);
      if (p[0] && n.count(p[0])) fv(E[p[1]].t, &rn, &rb);
      if (p[2] && n.count(p[2])) fv(E[p[3]].t, &rn, &rb);
      if (p[4] && b.count(p[4])) fv(F[p[5]].t, &rn, &rb);
      for (int v : t->nv)
        if (rn.count(v)) return true;
      for (int v : t->bv)
        if (rb.count(v)) return true;
    }
    for (const TP& c : t->c)
      if (captures(c, p)) return true;
    return false;
  }

  Expression bin(const std::string& o, int m, int a, int b) {
    Expression& l = E[a].e;
    Expression& r = E[b].e;
    if (copy_only) m = 0;
    if (o == "add") {
      switch (m) {
        case 1: l += r; return l;
        case 2: return std::move(l) + r;
        case 3: return l + std::move(r);
        case 4: return std::move(l) + std::move(r);
        case 5: l += std::move(r); return l;
        default: return l + r;
      }
    }
    if (o == "sub") {
      switch (m) {
        case 1: l -= r; return l;
        case 2: return std::move(l) - r;
        case 3: return l - std::move(r);
        case 4: return std::move(l) - std::move(r);
        case 5: l -= std::move(r); return l;
        default: return l - r;
      }
    }
    if (o == "mul") {
      switch (m) {
        case 1: l *= r; return l;
        case 2: return std::move(l) * r;
        case 3: return l * std::move(r);
        case 4: return std::move(l) * std::move(r);
        case 5: l *= std::move(r); return l;
        default: return l * r;
      }
    }
    switch (m) {
      case 1: l /= r; return l;
      case 2: return std::move(l) / r;
      case 3: return l / std::move(r);
      case 4: return std::move(l) / std::move(r);
      case 5: l /= std::move(r); return l;
      default: return l / r;
    }
  }
  Expression fn(const std::string& o, const Expression& e) {
    if (o == "abs") return abs(e);
    if (o == "sqrt") return sqrt(e);
    if (o == "exp") return exp(e);
    if (o == "log") return log(e);
    if (o == "sin") return sin(e);
    if (o == "cos") return cos(e);
    if (o == "tan") return tan(e);
    if (o == "asin") return asin(e);
    if (o == "acos") return acos(e);
    if (o == "atan") return atan(e);
    if (o == "sinh") return sinh(e);
    if (o == "cosh") return cosh(e);
    return tanh(e);
  }
  Formula rel(const std::string& o, const Expression& l, const Expression& r) {
    if (o == "lt") return l < r;
    if (o == "le") return l <= r;
    if (o == "gt") return l > r;
    if (o == "ge") return l >= r;
    if (o == "eq") return l == r;
    return l != r;
  }
  static Expression num_expr(double v, int m) {
    const double inf = std::numeric_limits<double>::infinity();
    if (m == 1) return dreal::real_constant(v, std::nextafter(v, inf), true);
    if (m == 2) return dreal::real_constant(std::nextafter(v, -inf), v, false);
    return Expression{v};
  }

  Expression make_e(const Step& s) {
    const Expression& a = E[s.a].e;
    const std::string& n = s.nm;
    if (n == "ld") {
      if (s.t->k == "var") return Expression{X[s.t->n]};
      return num_expr(static_cast<double>(s.t->n) / static_cast<double>(s.t->d),
                      s.m);
    }
    if (n == "bin") return bin(s.o, s.m, s.a, s.b);
    if (n == "neg") return s.m == 2 ? -std::move(E[s.a].e) : -a;
    if (n == "plus") return +a;
    if (n == "pow")
      return pow(a, Expression{static_cast<double>(s.t->c[1]->n) /
                               static_cast<double>(s.t->c[1]->d)});
    if (n == "powe") return pow(a, E[s.b].e);
    if (n == "fn") return fn(s.o, a);
    if (n == "mm")
      return s.o == "min" ? min(a, E[s.b].e)
                          : s.o == "max" ? max(a, E[s.b].e)
                                         : atan2(a, E[s.b].e);
    if (n == "ite") return if_then_else(F[s.c].f, a, E[s.b].e);
    if (n == "sum") return Sum({a, E[s.b].e, E[s.c].e});
    if (n == "prode") return a * pow(E[s.b].e, E[s.c].e);
    if (n == "prod") return Prod({a, E[s.b].e, E[s.c].e});
    if (n == "subE") {
      const auto es = esub(s.p);
      const auto fs = fsub(s.p);
      if (es.size() == 1 && fs.empty() && s.m == 1)
        return a.Substitute(es.begin()->first, es.begin()->second);
      if (fs.empty() && s.m == 2) return a.Substitute(es);
      return a.Substitute(es, fs);
    }
    if (n == "epart") {
      Environment en;
      const Pt& p = tlc_points[s.p[1] - 1];
      for (int i = 0; i < 3; ++i)
        if ((s.p[0] >> i) & 1) en.insert(X[i + 1], static_cast<double>(p.x[i + 1]));
      return a.EvaluatePartial(en);
    }
    if (n == "expand") return a.Expand();
    if (n == "diff") return a.Differentiate(X[s.c]);
    throw std::logic_error("op " + n);
  }

  Formula make_f(const Step& s) {
    const Formula& a = F[s.a].f;
    const std::string& n = s.nm;
    if (n == "bl")
      return s.t->k == "true" ? Formula::True()
                              : s.t->k == "false" ? Formula::False()
                                                  : Formula{B[s.t->n]};
    if (n == "rel") return rel(s.o, E[s.a].e, E[s.b].e);
    if (n == "conn") {
      Formula& l = F[s.a].f;
      Formula& r = F[s.b].f;
      const int m = copy_only ? 0 : s.m;
      if (s.o == "and") {
        switch (m) {
          case 2: return std::move(l) && r;
          case 3: return l && std::move(r);
          case 4: return std::move(l) && std::move(r);
          default: return l && r;
        }
      }
      switch (m) {
        case 2: return std::move(l) || r;
        case 3: return l || std::move(r);
        case 4: return std::move(l) || std::move(r);
        default: return l || r;
      }
    }
    if (n == "vconn") {
      Formula& l = F[s.a].f;
      const Variable& v = B[s.c];
      const Variable& v2 = B[1 + s.c % 3];
      if (s.o == "and") {
        switch (s.m) {
          case 0: return v && l;
          case 1: return v && std::move(l);
          case 2: return l && v;
          case 3: return std::move(l) && v;
          default: return v && v2;
        }
      }
      switch (s.m) {
        case 0: return v || l;
        case 1: return v || std::move(l);
        case 2: return l || v;
        case 3: return std::move(l) || v;
        default: return v || v2;
      }
    }
    if (n == "mk") {
      const Formula& b = F[s.b].f;
      const Formula& c = F[s.c].f;
      if (s.m == 0) {
        const std::set<Formula> v{a, b, c};
        return s.o == "and" ? make_conjunction(v) : make_disjunction(v);
      }
      const std::vector<Formula> v{a, b, c};
      return s.o == "and" ? dreal::make_conjunction(v)
                          : dreal::make_disjunction(v);
    }
    if (n == "not") {
      if (s.m == 1 && is_variable(a)) return !get_variable(a);
      return !a;
    }
    if (n == "imp") {
      const Formula& b = F[s.b].f;
      if (s.m == 1 && is_variable(a)) {
        if (is_variable(b)) return dreal::imply(get_variable(a), get_variable(b));
        return dreal::imply(get_variable(a), b);
      }
      if (s.m == 1 && is_variable(b)) return dreal::imply(a, get_variable(b));
      return dreal::imply(a, b);
    }
    if (n == "iff") {
      const Formula& b = F[s.b].f;
      switch (s.m * 3 + s.c % 3) {
        case 0: return a == b;
        case 1:
          if (is_variable(a)) return get_variable(a) == b;
          return dreal::iff(a, b);
        case 2:
          if (is_variable(b)) return a == get_variable(b);
          return dreal::iff(a, b);
        case 3:
          if (is_variable(a) && is_variable(b))
            return dreal::iff(get_variable(a), get_variable(b));
          return dreal::iff(a, b);
        case 4:
          if (is_variable(a)) return dreal::iff(get_variable(a), b);
          return a == b;
        default:
          if (is_variable(b)) return dreal::iff(a, get_variable(b));
          return a == b;
      }
    }
    if (n == "fne") {
      const Formula& b = F[s.b].f;
      if (s.m == 1 && is_variable(a) && s.c % 2) return get_variable(a) != b;
      if (s.m == 1 && is_variable(b)) return a != get_variable(b);
      return a != b;
    }
    if (n == "forall") {
      Variables vs;
      for (int i = 0; i < 3; ++i) {
        if ((s.p[0] >> i) & 1) vs.insert(X[i + 1]);
        if ((s.p[1] >> i) & 1) vs.insert(B[i + 1]);
      }
      return forall(vs, a);
    }
    if (n == "subF") {
      const auto es = esub(s.p);
      const auto fs = fsub(s.p);
      if (es.size() == 1 && fs.empty() && s.m == 1)
        return a.Substitute(es.begin()->first, es.begin()->second);
      if (fs.empty() && s.m == 2) return a.Substitute(es);
      return a.Substitute(es, fs);
    }
    if (n == "nnf") return Nnfizer{}.Convert(a, s.m == 1);
    if (n == "cnf") return NaiveCnfizer{}.Convert(a);
    throw std::logic_error("op " + n);
  }

  bool operands_dead(const Step& s) {
    const std::string& n = s.nm;
    if (n == "ld" || n == "bl") return false;
    if (n == "bin" || n == "powe" || n == "mm" || n == "rel")
      return E[s.a].dead || E[s.b].dead;
    if (n == "ite") return E[s.a].dead || E[s.b].dead || F[s.c].dead;
    if (n == "sum" || n == "prod" || n == "prode")
      return E[s.a].dead || E[s.b].dead || E[s.c].dead;
    if (n == "subE") return E[s.a].dead || sub_dead(s.p);
    if (n == "subF") return F[s.a].dead || sub_dead(s.p);
    if (n == "conn" || n == "imp" || n == "iff" || n == "fne" || n == "pabs")
      return F[s.a].dead || F[s.b].dead;
    if (n == "mk") return F[s.a].dead || F[s.b].dead || F[s.c].dead;
    if (n == "vconn") return s.m != 4 && F[s.a].dead;
    if (s.k == 'F' || (s.k == 'O' && n != "prE" && n != "inE" && n != "shapeE"))
      return F[s.a].dead;
    return E[s.a].dead;
  }

  static bool not_smooth(const Expression& e) {
    bool r = is_abs(e) || is_min(e) || is_max(e) || is_if_then_else(e);
    children(e, [&](const Expression& x) { r = r || not_smooth(x); },
             [](const Formula&) {});
    return r;
  }
  bool may_refuse(const Step& s) {
    if (s.nm == "expand" && has_kind(s.t, "ite")) return true;
    if (s.nm == "diff" && not_smooth(E[s.a].e)) return true;
    if (s.nm == "diff" &&
        (has_kind(s.t->c[1], "undef") || has_kind(s.t->c[0], "ite")))
      return true;
    if ((s.nm == "dstr" || s.nm == "dweak" || s.nm == "prF" || s.nm == "prE" ||
         s.nm == "inF" || s.nm == "inE") &&
        has_kind(s.t, "forall"))
      return true;
    return hopeless(s.t);
  }

  // Returns false if the case cannot be judged further.
  void step(const Step& s) {
    const std::string& n = s.nm;
    std::set<int> moved;
    if (n == "bin" || n == "neg" || n == "conn") {
      if (s.m == 2 || s.m == 4) moved.insert(s.a);
      if (s.m >= 3) moved.insert(s.b);
    }
    if (n == "vconn" && (s.m == 1 || s.m == 3)) moved.insert(s.a);
    bool dead = operands_dead(s);
    if ((n == "subE" || n == "subF") && !std::getenv("SYM_CAPTURE") &&
        captures(n == "subE" ? E[s.a].t : F[s.a].t, s.p)) {
      dead = true;
      ++stats()["capture_not_judged"];
    }
    if (s.k == 'E') {
      if (n == "inc") {
        step_inc(s, dead);
        return;
      }
      Expression r;
      bool bad = dead;
      if (!dead) {
        try {
          r = make_e(s);
        } catch (const std::exception& ex) {
          if (!may_refuse(s)) diverge(n, "throws " + std::string(ex.what()));
          ++stats()["refused"];
          bad = true;
        }
      }
      for (int i : moved)
        if (i != s.d) set(&E[i], Expression{}, constant_term(0), false);
      set(&E[s.d], r, s.t, bad);
      if (check && !bad) {
        cross(s, E[s.d].want);
        check_vars(E[s.d].e, E[s.d].e.GetVariables(), s.t, "e");
      }
    } else if (s.k == 'F') {
      Formula r;
      bool bad = dead;
      if (!dead) {
        try {
          r = make_f(s);
        } catch (const std::exception& ex) {
          if (!may_refuse(s)) diverge(n, "throws " + std::string(ex.what()));
          ++stats()["refused"];
          bad = true;
        }
      }
      for (int i : moved)
        if (i != s.d) set(&F[i], Formula{}, true_term(), false);
      set(&F[s.d], r, s.t, bad);
      if (check && !bad) {
        cross(s, F[s.d].want);
        check_vars(F[s.d].f, F[s.d].f.GetFreeVariables(), s.t, "f");
        if (n == "nnf") check_nnf(r, s.m == 1);
        if (n == "cnf") check_cnf(r);
      }
    } else if (!dead && check) {
      observe(s);
    }
    if (check) verify_all(n);
  }

  void verify_all(const std::string& n) {
    for (int i = 1; i <= NE; ++i)
      if (!E[i].dead) verify(E[i], n, "E" + std::to_string(i));
    for (int i = 1; i <= NF; ++i)
      if (!F[i].dead) verify(F[i], n, "F" + std::to_string(i));
  }

  void set(ER* r, const Expression& e, const TP& t, bool bad) {
    r->e = bad ? Expression{} : e;
    r->t = t;
    r->dead = bad;
    if (!bad) expect(r);
  }
  void set(FR* r, const Formula& f, const TP& t, bool bad) {
    r->f = bad ? Formula{} : f;
    r->t = t;
    r->dead = bad;
    if (!bad) expect(r);
  }

  void step_inc(const Step& s, bool dead) {
    ER& a = E[s.a];
    const bool inc = s.o == "inc";
    auto n = std::make_shared<Term>();
    n->k = inc ? "add" : "sub";
    n->c = {a.t, constant_term(1)};
    if (!dead) {
      Expression r;
      if (s.m == 0) {
        r = inc ? ++a.e : --a.e;
      } else {
        r = inc ? a.e++ : a.e--;
      }
      const Expression na = a.e;
      set(&E[s.d], r, s.t, false);
      a.t = n;
      (void)na;
      expect(&a);
    } else {
      set(&E[s.d], Expression{}, s.t, true);
      a.t = n;
    }
    if (check) {
      if (!dead) cross(s, E[s.d].want);
      verify_all(s.nm);
    }
  }

  // The exact table of the specification against the reference evaluator.
  void cross(const Step& s, std::vector<RV>& want) {
    for (size_t i = 0; i < s.etab.size(); ++i) {
      if (s.etab[i].second == 0) continue;
      LD v = static_cast<LD>(s.etab[i].first) / static_cast<LD>(s.etab[i].second);
      if (want[i].ok && std::fabs(want[i].v - v) > 1e-6L) {
        ++stats()["internal"];
        throw std::logic_error("reference evaluator disagrees with TLC");
      }
      ++stats()["exact"];
      want[i] = RV{true, v, 0};
    }
  }
  void cross(const Step& s, std::vector<int>& want) {
    for (size_t i = 0; i < s.ftab.size(); ++i) {
      if (s.ftab[i] == 2) continue;
      if (want[i] != 2 && want[i] != s.ftab[i]) {
        ++stats()["internal"];
        throw std::logic_error("reference evaluator disagrees with TLC (F)");
      }
      ++stats()["exact"];
      want[i] = s.ftab[i];
    }
  }

  // ------------------------------------------------ shapes of the results
  void check_nnf(const Formula& f, bool push) {
    if (is_negation(f)) {
      const Formula& g = get_operand(f);
      const bool ok = is_variable(g) || is_forall(g) ||
                      (!push && is_relational(g));
      if (!ok) diverge("nnf", "not in normal form: " + f.to_string());
    } else if (is_conjunction(f) || is_disjunction(f)) {
      for (const Formula& g : get_operands(f)) check_nnf(g, push);
    }
  }
  static bool literal(const Formula& f) {
    const Formula& g = is_negation(f) ? get_operand(f) : f;
    return !is_negation(g) && !is_conjunction(g) && !is_disjunction(g);
  }
  static bool clause(const Formula& f) {
    if (!is_disjunction(f)) return literal(f);
    for (const Formula& g : get_operands(f))
      if (!literal(g)) return false;
    return true;
  }
  void check_cnf(const Formula& f) {
    if (is_conjunction(f)) {
      for (const Formula& g : get_operands(f))
        if (!clause(g)) diverge("cnf", "not a clause: " + g.to_string());
    } else if (!clause(f)) {
      diverge("cnf", "not a clause: " + f.to_string());
    }
  }

  // --------------------------------------------------------- observations
  void observe(const Step& s) {
    const std::string& n = s.nm;
    try {
      if (n == "tse") return tseitin(s);
      if (n == "pabs") return pabs(s);
      if (n == "ielim") return ielim(s);
      if (n == "dstr" || n == "dweak") return delta(s);
      if (n == "prE" || n == "prF" || n == "inE" || n == "inF") return print(s);
      if (n == "shape") return shape(s);
      if (n == "shapeE") return shape_e(s);
    } catch (const replay::Divergence&) {
      throw;
    } catch (const std::logic_error&) {
      throw;
    } catch (const std::exception& ex) {
      if (!may_refuse(s)) diverge(n, "throws " + std::string(ex.what()));
    }
  }

  static bool nested_forall(const Formula& f, bool inside) {
    bool r = false;
    if (f.get_kind() == FormulaKind::Forall) {
      if (inside) return true;
      inside = true;
    }
    children(f, [](const Expression&) {},
             [&](const Formula& g) { r = r || nested_forall(g, inside); });
    return r;
  }

  void tseitin(const Step& s) {
    const FR& in = F[s.a];
    if (nested_forall(in.f, false)) {
      ++stats()["nested_quantifiers"];
      return;
    }
    if (s.m == 1) tse.reset(new TseitinCnfizer);
    const std::vector<Formula> cl = tse->Convert(in.f);
    const auto defs = tse->map();
    std::set<Variable::Id> orig = free_ids(in.f), aux;
    for (const Formula& c : cl) {
      if (!clause(c)) diverge("tse", "not a clause: " + c.to_string());
      for (Variable::Id v : free_ids(c))
        if (!orig.count(v)) aux.insert(v);
    }
    std::map<Variable::Id, Formula> def;
    for (const auto& p : defs) def.emplace(p.first.get_id(), p.second);
    for (Variable::Id v : aux)
      if (!def.count(v))
        diverge("tse", "an introduced variable is not in the map");
    std::vector<Variable::Id> av(aux.begin(), aux.end());
    ++stats()["tseitin"];
    for (size_t i = 0; i < pts.size(); ++i) {
      if (in.want[i] == 2) continue;
      const bool want = in.want[i] == 1;
      Walk w = walker(pts[i]);
      // the extension the map defines
      std::function<void(Variable::Id, int)> define = [&](Variable::Id v,
                                                          int depth) {
        if (w.env.count(v)) return;
        if (depth > 100) diverge("tse", "circular definitions");
        const Formula& d = def.at(v);
        for (Variable::Id u : free_ids(d))
          if (def.count(u)) define(u, depth + 1);
        w.env[v] = w.F(d);
      };
      for (const auto& p : def) define(p.first, 0);
      bool sat = true;
      for (const Formula& c : cl) sat = sat && w.F(c);
      if (sat != want)
        diverge("tse", in.f.to_string() + where(pts[i]) + " is " +
                           std::to_string(want) +
                           " but its clauses under the map's definitions are " +
                           std::to_string(sat));
      if (av.size() <= 9) {
        int models = 0;
        for (size_t m = 0; m < (1u << av.size()); ++m) {
          for (size_t j = 0; j < av.size(); ++j) w.env[av[j]] = (m >> j) & 1;
          bool ok = true;
          for (const Formula& c : cl) {
            ok = w.F(c);
            if (!ok) break;
          }
          models += ok;
        }
        if (models != (want ? 1 : 0))
          diverge("tse", in.f.to_string() + where(pts[i]) + " is " +
                             std::to_string(want) + " but has " +
                             std::to_string(models) + " extensions");
        ++stats()["tseitin_enum"];
      }
    }
  }

  std::vector<std::string> pab_seen;
  void pabs(const Step& s) {
    std::vector<Formula> in{F[s.a].f};
    if (s.m == 1) in.push_back(F[s.b].f);
    const Formula g = s.m == 1 ? pab->Convert(in) : pab->Convert(in[0]);
    // A skeleton: no theory atom, only known variables.
    std::function<void(const Formula&)> skel = [&](const Formula& f) {
      if (is_relational(f) || is_forall(f))
        diverge("pabs", "an atom is left in " + g.to_string());
      children(f, [](const Expression&) {}, skel);
    };
    skel(g);
    std::map<std::string, Variable::Id> seen;
    std::map<Variable::Id, Formula> back;
    for (const auto& p : pab->var_to_formula_map()) {
      const std::string d = dump(p.second);
      if (!seen.emplace(d, p.first.get_id()).second)
        diverge("pabs", "two variables for the atom " + p.second.to_string());
      if (is_negation(p.second) || is_conjunction(p.second) ||
          is_disjunction(p.second))
        diverge("pabs", "a variable for the non-atom " + p.second.to_string());
      if (!(*pab)[p.second].equal_to(p.first) ||
          !(*pab)[p.first].EqualTo(p.second))
        diverge("pabs", "lookups are not inverse for " + p.second.to_string());
      if (p.first.get_type() != Variable::Type::BOOLEAN)
        diverge("pabs", "a variable that is not Boolean");
      back.emplace(p.first.get_id(), p.second);
      if (var_of.count(p.first.get_id()))
        diverge("pabs", "an input variable is reused");
    }
    ++stats()["pabs"];
    for (size_t i = 0; i < pts.size(); ++i) {
      int want = F[s.a].want[i];
      if (s.m == 1) {
        int w2 = F[s.b].want[i];
        want = (want == 2 || w2 == 2) ? 2 : (want & w2);
      }
      if (want == 2) continue;
      Walk w = walker(pts[i]);
      for (Variable::Id v : free_ids(g)) {
        auto it = back.find(v);
        if (it != back.end()) {
          w.env[v] = walker(pts[i]).F(it->second);
        } else if (!w.env.count(v)) {
          diverge("pabs", "an unknown variable in " + g.to_string());
        }
      }
      if (w.F(g) != (want == 1))
        diverge("pabs", "skeleton " + g.to_string() + where(pts[i]) +
                            " differs from " + in[0].to_string());
    }
    // Abstracting again gives the same skeleton.
    const Formula g2 = s.m == 1 ? pab->Convert(in) : pab->Convert(in[0]);
    if (dump(g) != dump(g2))
      diverge("pabs", "second conversion differs: " + g.to_string() + " / " +
                          g2.to_string());
  }

  // definitional candidates for the auxiliary variables of f
  static void defs_of(const Formula& f,
                      std::map<Variable::Id, std::vector<Expression>>* r) {
    if (is_relational(f)) {
      const Expression& l = get_lhs_expression(f);
      const Expression& h = get_rhs_expression(f);
      if (is_variable(l)) (*r)[get_variable(l).get_id()].push_back(h);
      if (is_variable(h)) (*r)[get_variable(h).get_id()].push_back(l);
      return;
    }
    children(f, [](const Expression&) {},
             [&](const Formula& g) { defs_of(g, r); });
  }

  struct IteWalk : public Walk {
    std::map<Variable::Id, std::vector<Expression>> defs;
    long budget{200000};
    std::vector<double> cands(Variable::Id v) {
      std::vector<double> r;
      auto it = defs.find(v);
      if (it != defs.end()) {
        for (const Expression& e : it->second) {
          try {
            double d = E(e);
            if (std::find(r.begin(), r.end(), d) == r.end()) r.push_back(d);
          } catch (const std::exception&) {
          }
        }
      }
      if (r.empty() || std::find(r.begin(), r.end(), 0.0) == r.end())
        r.push_back(0.0);
      return r;
    }
    bool exists(const std::vector<Variable::Id>& vs, size_t i,
                const Formula& f) {
      if (--budget < 0) throw std::length_error("budget");
      if (i == vs.size()) return G(f);
      for (double d : cands(vs[i])) {
        env[vs[i]] = d;
        if (exists(vs, i + 1, f)) return true;
      }
      env.erase(vs[i]);
      return false;
    }
    // F with auxiliary variables quantified over their candidates
    bool G(const Formula& f) {
      if (is_conjunction(f)) {
        for (const Formula& g : get_operands(f))
          if (!G(g)) return false;
        return true;
      }
      if (is_disjunction(f)) {
        for (const Formula& g : get_operands(f))
          if (G(g)) return true;
        return false;
      }
      if (is_negation(f)) return !G(get_operand(f));
      if (is_forall(f)) {
        std::vector<Variable> a, b;
        for (const Variable& v : get_quantified_variables(f))
          (known.count(v.get_id()) ? a : b).push_back(v);
        std::sort(b.begin(), b.end(),
                  [](const Variable& x, const Variable& y) {
                    return y.get_id() < x.get_id();
                  });
        a.insert(a.end(), b.begin(), b.end());
        const auto saved = env;
        const bool r = allq(a, 0, get_quantified_formula(f));
        env = saved;
        return r;
      }
      return F(f);
    }
    bool allq(const std::vector<Variable>& vs, size_t i, const Formula& f) {
      if (--budget < 0) throw std::length_error("budget");
      if (i == vs.size()) return G(f);
      const Variable::Id id = vs[i].get_id();
      std::vector<double> dom{-1, 0, 1, 2};
      if (vs[i].get_type() == Variable::Type::BOOLEAN) dom = {0, 1};
      if (!known.count(id)) dom = cands(id);
      for (double d : dom) {
        env[id] = d;
        if (!allq(vs, i + 1, f)) return false;
      }
      env.erase(id);
      return true;
    }
  };

  std::vector<bool> ite_ok;
  void ielim(const Step& s) {
    const FR& in = F[s.a];
    if (s.m == 1) ite.reset(new IfThenElseEliminator);
    // Formulas given to this eliminator before are part of the result: no
    // claim where one of them has no value.
    if (s.m == 1 || ite_ok.empty()) ite_ok.assign(pts.size(), true);
    for (size_t i = 0; i < pts.size(); ++i)
      if (in.want[i] == 2) ite_ok[i] = false;
    const Formula r = ite->Process(in.f);
    if (has_ite(r) || r.include_ite())
      diverge("ielim", "an if-then-else is left in " + r.to_string());
    std::set<Variable::Id> orig = free_ids(in.f), aux, rep;
    for (const Variable& v : ite->variables()) {
      rep.insert(v.get_id());
      if (var_of.count(v.get_id()))
        diverge("ielim", "an input variable is reported as introduced");
    }
    for (Variable::Id v : free_ids(r))
      if (!orig.count(v) && !var_of.count(v)) aux.insert(v);
    for (Variable::Id v : aux)
      if (!rep.count(v))
        diverge("ielim", "a variable of " + r.to_string() + " is not reported");
    if (!has_ite(in.f) && !has_forall(in.f) && s.m == 1 && !r.EqualTo(in.f))
      diverge("ielim", "a formula without if-then-else is changed: " +
                           in.f.to_string() + " to " + r.to_string());
    // innermost (latest) variables first
    std::vector<Variable::Id> av(aux.rbegin(), aux.rend());
    ++stats()["ielim"];
    std::map<Variable::Id, Variable> every;
    all_vars(in.f, &every);
    for (int v = 1; v <= 8; ++v) {
      every.emplace(X[v].get_id(), X[v]);
      every.emplace(B[v].get_id(), B[v]);
    }
    for (size_t i = 0; i < pts.size(); ++i) {
      if (!ite_ok[i]) continue;
      IteWalk w;
      w.env = walker(pts[i]).env;
      for (const auto& p : every) w.known.insert(p.first);
      defs_of(r, &w.defs);
      bool got;
      try {
        got = w.exists(av, 0, r);
      } catch (const std::length_error&) {
        ++stats()["ielim_big"];
        continue;
      }
      ++stats()["ielim_points"];
      if (got != (in.want[i] == 1))
        diverge("ielim", in.f.to_string() + where(pts[i]) + " is " +
                             std::to_string(in.want[i]) + " but " +
                             r.to_string() + " is " +
                             (got ? "satisfiable" : "unsatisfiable"));
    }
  }

  void delta(const Step& s) {
    const FR& in = F[s.a];
    const double d = static_cast<double>(s.p[0]) / s.p[1];
    const bool str = s.nm == "dstr";
    const Formula g =
        str ? dreal::DeltaStrengthen(in.f, d) : dreal::DeltaWeaken(in.f, d);
    ++stats()["delta"];
    for (size_t i = 0; i < pts.size(); ++i) {
      if (in.want[i] == 2) continue;
      const bool t = in.want[i] == 1;
      const bool v = walker(pts[i]).F(g);
      if (str ? (v && !t) : (t && !v))
        diverge(s.nm, in.f.to_string() + where(pts[i]) + " is " +
                          std::to_string(t) + ", its " +
                          (str ? "strengthening " : "weakening ") +
                          g.to_string() + " is " + std::to_string(v));
    }
    std::string a, b;
    if (tla(in.f, &a) && tla(g, &b))
      trace("[\"" + s.nm + "\"," + std::to_string(s.p[0]) + "," +
            std::to_string(s.p[1]) + "," + a + "," + b + "]");
  }

  // --------------------------------------------------------------- traces
  static void trace(const std::string& j) {
    if (std::getenv("SYM_TRACE")) std::printf("TRACE %s\n", j.c_str());
  }
  static bool rat(double v, std::string* o) {
    for (long d = 1; d <= 64; d *= 2) {
      if (v * d == std::floor(v * d) && std::fabs(v * d) <= 4096) {
        *o = "[\"const\"," + std::to_string(static_cast<long>(v * d)) + "," +
             std::to_string(d) + "]";
        return true;
      }
    }
    return false;
  }
  // the real tree as a term of the specification
  static bool tla(const Expression& e, std::string* o) {
    auto two = [&](const char* k, const Expression& x, const Expression& y) {
      std::string a, b;
      if (!tla(x, &a) || !tla(y, &b)) return false;
      *o = std::string("[\"") + k + "\"," + a + "," + b + "]";
      return true;
    };
    auto one = [&](const char* k) {
      std::string a;
      if (!tla(get_argument(e), &a)) return false;
      *o = std::string("[\"fn\",\"") + k + "\"," + a + "]";
      return true;
    };
    switch (e.get_kind()) {
      case ExpressionKind::Constant:
        return rat(get_constant_value(e), o);
      case ExpressionKind::Var: {
        auto it = var_of.find(get_variable(e).get_id());
        if (it == var_of.end()) return false;
        *o = "[\"var\"," + std::to_string(it->second.second) + "]";
        return true;
      }
      case ExpressionKind::Add: {
        std::string acc;
        if (!rat(get_constant_in_addition(e), &acc)) return false;
        for (const auto& p : get_expr_to_coeff_map_in_addition(e)) {
          std::string c, x;
          if (!rat(p.second, &c) || !tla(p.first, &x)) return false;
          acc = "[\"add\"," + acc + ",[\"mul\"," + c + "," + x + "]]";
        }
        *o = acc;
        return true;
      }
      case ExpressionKind::Mul: {
        std::string acc;
        if (!rat(get_constant_in_multiplication(e), &acc)) return false;
        for (const auto& p : get_base_to_exponent_map_in_multiplication(e)) {
          std::string c, x;
          if (!tla(p.second, &c) || !tla(p.first, &x)) return false;
          acc = "[\"mul\"," + acc + ",[\"pow\"," + x + "," + c + "]]";
        }
        *o = acc;
        return true;
      }
      case ExpressionKind::Div:
        return two("div", get_first_argument(e), get_second_argument(e));
      case ExpressionKind::Pow:
        return two("pow", get_first_argument(e), get_second_argument(e));
      case ExpressionKind::Min:
        return two("min", get_first_argument(e), get_second_argument(e));
      case ExpressionKind::Max:
        return two("max", get_first_argument(e), get_second_argument(e));
      case ExpressionKind::Atan2:
        return two("atan2", get_first_argument(e), get_second_argument(e));
      case ExpressionKind::Abs: return one("abs");
      case ExpressionKind::Sqrt: return one("sqrt");
      case ExpressionKind::Exp: return one("exp");
      case ExpressionKind::Log: return one("log");
      case ExpressionKind::Sin: return one("sin");
      case ExpressionKind::Cos: return one("cos");
      case ExpressionKind::Tan: return one("tan");
      case ExpressionKind::Asin: return one("asin");
      case ExpressionKind::Acos: return one("acos");
      case ExpressionKind::Atan: return one("atan");
      case ExpressionKind::Sinh: return one("sinh");
      case ExpressionKind::Cosh: return one("cosh");
      case ExpressionKind::Tanh: return one("tanh");
      case ExpressionKind::IfThenElse: {
        std::string c, a, b;
        if (!tla(get_conditional_formula(e), &c) ||
            !tla(get_then_expression(e), &a) ||
            !tla(get_else_expression(e), &b))
          return false;
        *o = "[\"ite\"," + c + "," + a + "," + b + "]";
        return true;
      }
      default:
        return false;
    }
  }
  static bool tla(const Formula& f, std::string* o) {
    auto r = [&](const char* k) {
      std::string a, b;
      if (!tla(get_lhs_expression(f), &a) || !tla(get_rhs_expression(f), &b))
        return false;
      *o = std::string("[\"") + k + "\"," + a + "," + b + "]";
      return true;
    };
    switch (f.get_kind()) {
      case FormulaKind::True: *o = "[\"true\"]"; return true;
      case FormulaKind::False: *o = "[\"false\"]"; return true;
      case FormulaKind::Var: {
        auto it = var_of.find(get_variable(f).get_id());
        if (it == var_of.end()) return false;
        *o = "[\"bvar\"," + std::to_string(it->second.second) + "]";
        return true;
      }
      case FormulaKind::Eq: return r("eq");
      case FormulaKind::Neq: return r("ne");
      case FormulaKind::Gt: return r("gt");
      case FormulaKind::Geq: return r("ge");
      case FormulaKind::Lt: return r("lt");
      case FormulaKind::Leq: return r("le");
      case FormulaKind::Not: {
        std::string a;
        if (!tla(get_operand(f), &a)) return false;
        *o = "[\"not\"," + a + "]";
        return true;
      }
      case FormulaKind::And:
      case FormulaKind::Or: {
        std::string acc = f.get_kind() == FormulaKind::And ? "[\"nand\"" : "[\"nor\"";
        for (const Formula& g : get_operands(f)) {
          std::string a;
          if (!tla(g, &a)) return false;
          acc += "," + a;
        }
        *o = acc + "]";
        return true;
      }
      case FormulaKind::Forall: {
        std::string a, n, b;
        if (!tla(get_quantified_formula(f), &a)) return false;
        for (const Variable& v : get_quantified_variables(f)) {
          auto it = var_of.find(v.get_id());
          if (it == var_of.end()) return false;
          std::string& x = it->second.first ? n : b;
          x += (x.empty() ? "" : ",") + std::to_string(it->second.second);
        }
        *o = "[\"forall\",[" + n + "],[" + b + "]," + a + "]";
        return true;
      }
    }
    return false;
  }

  void print(const Step& s);
  void shape(const Step& s);
  void shape_e(const Step& s);
};

// ------------------------------------------------- prefix and infix printing
template <typename T>
static std::string infix_text(const T& t) {
  std::ostringstream o;
  o.precision(17);
  o << t;
  return o.str();
}
void Machine::print(const Step& s) {
  const bool num = s.nm == "prE" || s.nm == "inE";
  const bool inf = s.nm[0] == 'i';
  const std::string txt =
      inf ? (num ? infix_text(E[s.a].e) : infix_text(F[s.a].f))
          : (num ? dreal::ToPrefix(E[s.a].e) : dreal::ToPrefix(F[s.a].f));
  if (inf && (txt.find("forall") != std::string::npos ||
              txt.find("NaN") != std::string::npos)) {
    return;
  }
  if (txt.find("inf") != std::string::npos ||
      txt.find("nan") != std::string::npos) {
    ++stats()["not_finite"];
    return;
  }
  sexpr::Node n;
  try {
    n = inf ? infix::parse(txt) : sexpr::parse(txt);
  } catch (const std::exception& ex) {
    diverge(s.nm, txt + " is not well-formed: " + ex.what());
  }
  ++stats()["printed"];
  // An interval of neighbouring numbers stands for one of them, the text does
  // not say which.
  const long intervals = inf ? std::count(txt.begin(), txt.end(), '[') : 0;
  sexpr::Node n2 = n;
  if (intervals == 1) {
    std::function<void(sexpr::Node*)> upper = [&](sexpr::Node* m) {
      if (m->atom == "interval") m->atom = "max";
      for (sexpr::Node& k : m->kids) upper(&k);
    };
    upper(&n2);
  }
  for (size_t i = 0; i < pts.size(); ++i) {
    sexpr::Env en;
    for (int v = 1; v <= 3; ++v) {
      en["x" + std::to_string(v)] = static_cast<double>(pts[i].x[v]);
      en["b" + std::to_string(v)] = pts[i].b[v];
    }
    double v;
    if (intervals > 1) break;
    try {
      v = sexpr::eval(n, en);
      if (intervals == 1) {
        const double u = sexpr::eval(n2, en);
        if (num ? close(E[s.a].want[i], u) : u == F[s.a].want[i]) continue;
      }
    } catch (const std::exception& ex) {
      diverge(s.nm, txt + " cannot be read back: " + ex.what());
    }
    if (num) {
      const RV& w = E[s.a].want[i];
      if (w.ok && !close(w, v))
        diverge(s.nm, txt + where(pts[i]) + ": specification " +
                          show(static_cast<double>(w.v)) + ", read back " +
                          show(v));
    } else {
      const int w = F[s.a].want[i];
      if (w != 2 && (v != 0) != (w == 1))
        diverge(s.nm, txt + where(pts[i]) + ": specification " +
                          std::to_string(w) + ", read back " + show(v));
    }
  }
  // Numerals are read back as exactly the constants of the tree.
  std::set<double> consts;
  std::function<void(const Expression&)> ge;
  std::function<void(const Formula&)> gf;
  auto put = [&](double d) { consts.insert(std::fabs(d)); };
  ge = [&](const Expression& e) {
    if (e.get_kind() == ExpressionKind::Constant) put(get_constant_value(e));
    if (e.get_kind() == ExpressionKind::RealConstant) {
      put(get_lb_of_real_constant(e));
      put(get_ub_of_real_constant(e));
    }
    if (e.get_kind() == ExpressionKind::Add) {
      put(get_constant_in_addition(e));
      for (const auto& p : get_expr_to_coeff_map_in_addition(e)) put(p.second);
    }
    if (e.get_kind() == ExpressionKind::Mul)
      put(get_constant_in_multiplication(e));
    children(e, ge, gf);
  };
  gf = [&](const Formula& f) { children(f, ge, gf); };
  if (num) {
    ge(E[s.a].e);
  } else {
    gf(F[s.a].f);
  }
  std::vector<double> nums;
  sexpr::numerals(n, &nums);
  for (double d : nums)
    if (!consts.count(d))
      diverge(s.nm, txt + ": numeral " + show(d) +
                        " is not a constant of the expression");
}

static std::string kinds(
    const std::vector<std::pair<const char*, bool>>& answers) {
  std::string r;
  for (const auto& a : answers) {
    if (a.second) r += std::string(r.empty() ? "" : ",") + "\"" + a.first + "\"";
  }
  return "[" + r + "]";
}
void Machine::shape_e(const Step& s) {
  const Expression& e = E[s.a].e;
  std::string a;
  if (!tla(e, &a)) return;
  std::ostringstream o;
  o << "[\"shapeE\"," << a << "," << e.is_polynomial() << ","
    << e.include_ite() << "," << dreal::IsDifferentiable(e) << ",[";
  std::string n, b;
  for (const Variable& v : e.GetVariables()) {
    auto it = var_of.find(v.get_id());
    if (it == var_of.end()) return;
    std::string& x = it->second.first ? n : b;
    x += (x.empty() ? "" : ",") + std::to_string(it->second.second);
  }
  o << "[" << n << "],[" << b << "]],"
    << kinds({{"constant", is_constant(e)},
              {"zero", is_zero(e)},
              {"one", is_one(e)},
              {"neg_one", is_neg_one(e)},
              {"two", is_two(e)},
              {"real_constant", is_real_constant(e)},
              {"nan", is_nan(e)},
              {"var", is_variable(e)},
              {"add", is_addition(e)},
              {"mul", is_multiplication(e)},
              {"div", is_division(e)},
              {"log", is_log(e)},
              {"abs", is_abs(e)},
              {"exp", is_exp(e)},
              {"sqrt", is_sqrt(e)},
              {"pow", is_pow(e)},
              {"sin", is_sin(e)},
              {"cos", is_cos(e)},
              {"tan", is_tan(e)},
              {"asin", is_asin(e)},
              {"acos", is_acos(e)},
              {"atan", is_atan(e)},
              {"atan2", is_atan2(e)},
              {"sinh", is_sinh(e)},
              {"cosh", is_cosh(e)},
              {"tanh", is_tanh(e)},
              {"min", is_min(e)},
              {"max", is_max(e)},
              {"ite", is_if_then_else(e)},
              {"uninterpreted", is_uninterpreted_function(e)}})
    << "]";
  ++stats()["shapes"];
  trace(o.str());
}
void Machine::shape(const Step& s) {
  const Formula& f = F[s.a].f;
  std::string a;
  if (!tla(f, &a)) return;
  std::ostringstream o;
  o << "[\"shape\"," << a << "," << dreal::is_atomic(f) << ",";
  if (is_negation(f)) {
    o << dreal::is_clause(f) << ",2,[]";
  } else {
    o << dreal::is_clause(f) << "," << dreal::is_cnf(f) << ",[";
    bool first = true;
    if (dreal::is_cnf(f)) {
      for (const Formula& g : dreal::get_clauses(f)) {
        std::string b;
        if (!tla(g, &b)) return;
        o << (first ? "" : ",") << b;
        first = false;
      }
    }
    o << "]";
  }
  o << "," << dreal::IsDifferentiable(f) << "," << f.include_ite() << ",[";
  std::string n, b;
  for (const Variable& v : f.GetFreeVariables()) {
    auto it = var_of.find(v.get_id());
    if (it == var_of.end()) return;
    std::string& x = it->second.first ? n : b;
    x += (x.empty() ? "" : ",") + std::to_string(it->second.second);
  }
  o << "[" << n << "],[" << b << "]],"
    << dreal::HaveIntersection(f.GetFreeVariables(), F[s.b].f.GetFreeVariables())
    << ",";
  std::string fb;
  if (!tla(F[s.b].f, &fb)) return;
  o << fb << ",";
  o << kinds({{"true", is_true(f)},
              {"false", is_false(f)},
              {"var", is_variable(f)},
              {"eq", is_equal_to(f)},
              {"ne", is_not_equal_to(f)},
              {"gt", is_greater_than(f)},
              {"ge", is_greater_than_or_equal_to(f)},
              {"lt", is_less_than(f)},
              {"le", is_less_than_or_equal_to(f)},
              {"relational", is_relational(f)},
              {"nand", is_conjunction(f)},
              {"nor", is_disjunction(f)},
              {"nary", is_nary(f)},
              {"not", is_negation(f)},
              {"forall", is_forall(f)}})
    << "]";
  ++stats()["shapes"];
  trace(o.str());
}

// ------------------------------------------- laws of equality, hash, order
template <class T>
struct Laws {
  std::vector<T> v;
  std::vector<std::string> d;
  void add(const T& x) {
    if (v.size() >= 40) return;
    const std::string s = dump(x);
    int same = 0;
    for (const auto& y : d) same += (y == s);
    if (same >= 2) return;
    v.push_back(x);
    d.push_back(s);
  }
  void check() {
    const size_t n = v.size();
    std::vector<std::vector<char>> lt(n, std::vector<char>(n)), eq = lt;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) {
        lt[i][j] = v[i].Less(v[j]);
        eq[i][j] = v[i].EqualTo(v[j]);
        ++stats()["pairs"];
        const std::string p = v[i].to_string() + " and " + v[j].to_string();
        if (eq[i][j] != (d[i] == d[j]))
          diverge("laws", "EqualTo is " + std::to_string(eq[i][j]) +
                              " for the structures of " + p);
        if (eq[i][j] && v[i].get_hash() != v[j].get_hash())
          diverge("laws", "equal values with different hashes: " + p);
      }
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) {
        const std::string p = v[i].to_string() + " and " + v[j].to_string();
        if (lt[i][j] && lt[j][i]) diverge("laws", "Less both ways: " + p);
        if ((!lt[i][j] && !lt[j][i]) != eq[i][j])
          diverge("laws", "incomparable is not equal: " + p);
        if (lt[i][j])
          for (size_t k = 0; k < n; ++k)
            if (lt[j][k] && !lt[i][k])
              diverge("laws", "Less is not transitive: " + p + " and " +
                                  v[k].to_string());
      }
  }
};

void gather(const Expression& e, Laws<Expression>* le, Laws<Formula>* lf);
void gather(const Formula& f, Laws<Expression>* le, Laws<Formula>* lf) {
  lf->add(f);
  children(f, [&](const Expression& x) { gather(x, le, lf); },
           [&](const Formula& x) { gather(x, le, lf); });
}
void gather(const Expression& e, Laws<Expression>* le, Laws<Formula>* lf) {
  le->add(e);
  children(e, [&](const Expression& x) { gather(x, le, lf); },
           [&](const Formula& x) { gather(x, le, lf); });
}

void dump_laws(const Laws<Expression>& l) {
  // the comparison matrix of the first elements, for TLC
  if (!std::getenv("SYM_TRACE")) return;
  const size_t n = std::min<size_t>(l.v.size(), 6);
  std::ostringstream o;
  o << "[\"order\"," << n << ",[";
  for (size_t i = 0; i < n; ++i) {
    o << (i ? ",[" : "[");
    for (size_t j = 0; j < n; ++j)
      o << (j ? "," : "") << (l.v[i].Less(l.v[j]) ? 1 : 0);
    o << "]";
  }
  o << "],[";
  for (size_t i = 0; i < n; ++i) {
    o << (i ? ",[" : "[");
    for (size_t j = 0; j < n; ++j)
      o << (j ? "," : "") << (l.v[i].EqualTo(l.v[j]) ? 1 : 0);
    o << "]";
  }
  o << "],[";
  for (size_t i = 0; i < n; ++i) {
    o << (i ? ",[" : "[");
    for (size_t j = 0; j < n; ++j)
      o << (j ? "," : "") << (l.v[i].get_hash() == l.v[j].get_hash() ? 1 : 0);
    o << "]";
  }
  o << "]]";
  std::printf("TRACE %s\n", o.str().c_str());
}

Step parse_step(const std::vector<std::string>& ls, size_t* i) {
  Step s;
  std::istringstream in(ls[(*i)++]);
  std::string w;
  in >> w >> s.k >> s.nm >> s.o >> s.m >> s.d >> s.a >> s.b >> s.c;
  int x;
  while (in >> x) s.p.push_back(x);
  s.t = parse(ls[(*i)++]);
  std::istringstream tb(ls[(*i)++]);
  std::string kind;
  tb >> kind;
  if (kind == "E") {
    long a, b;
    while (tb >> a >> b) s.etab.emplace_back(a, b);
  } else {
    int a;
    while (tb >> a) s.ftab.push_back(a);
  }
  return s;
}

void run_case(const std::vector<std::string>& ls) {
  try {
    std::vector<Step> steps;
    size_t i = 1;
    unsigned seed = static_cast<unsigned>(std::stoul(ls[0]));
    while (i < ls.size()) steps.push_back(parse_step(ls, &i));
    init_vars(seed);
    Machine m;
    m.start(seed);
    for (const Step& s : steps) {
      m.step(s);
      ++stats()["steps"];
    }
    if (std::getenv("SYM_LAWS")) {
      // The same operations again, everything copied, give equal values.
      Machine m2;
      m2.check = false;
      m2.copy_only = true;
      m2.start(seed);
      bool order_free = true;
      auto watch = [&](const Machine& x) {
        for (int r = 1; r <= NE; ++r)
          if (!x.E[r].dead && tower(x.E[r].e)) order_free = false;
        for (int r = 1; r <= NF; ++r)
          if (!x.F[r].dead && tower(x.F[r].f)) order_free = false;
      };
      for (const Step& s : steps) {
        m2.step(s);
        watch(m2);
      }
      watch(m);
      stats()["order_free"] += order_free;
      Laws<Expression> le;
      Laws<Formula> lf;
      for (int r = 1; r <= NE; ++r) {
        if (m.E[r].dead || m2.E[r].dead) continue;
        if (!finite(m.E[r].e)) m.E[r].dead = true;
        if (m.E[r].dead) continue;
        if (order_free && !m.E[r].e.EqualTo(m2.E[r].e))
          diverge("twin", m.E[r].e.to_string() + " rebuilt by copying is " +
                              m2.E[r].e.to_string());
        gather(m.E[r].e, &le, &lf);
        gather(m2.E[r].e, &le, &lf);
      }
      for (int r = 1; r <= NF; ++r) {
        if (m.F[r].dead || m2.F[r].dead) continue;
        if (!finite(m.F[r].f)) m.F[r].dead = true;
        if (m.F[r].dead) continue;
        if (order_free && !m.F[r].f.EqualTo(m2.F[r].f))
          diverge("twin", m.F[r].f.to_string() + " rebuilt by copying is " +
                              m2.F[r].f.to_string());
        gather(m.F[r].f, &le, &lf);
        gather(m2.F[r].f, &le, &lf);
      }
      // order of arguments
      auto comm = [&](const Expression& a, const Expression& b) {
        try {
          if (!finite(a + b) || !finite(a * b)) return;
          if (!(a + b).EqualTo(b + a))
            diverge("comm", a.to_string() + " + " + b.to_string());
          if (!tower(a) && !tower(b) && !(a * b).EqualTo(b * a))
            diverge("comm", a.to_string() + " * " + b.to_string());
        } catch (const std::exception& ex) {
          if (dynamic_cast<const replay::Divergence*>(&ex)) throw;
        }
      };
      for (int r = 1; r <= NE; ++r)
        for (int q = 1; q <= NE; ++q)
          if (!m.E[r].dead && !m.E[q].dead) comm(m.E[r].e, m.E[q].e);
      for (int r = 1; r <= NF; ++r)
        for (int q = 1; q <= NF; ++q) {
          if (m.F[r].dead || m.F[q].dead) continue;
          const Formula &a = m.F[r].f, &b = m.F[q].f;
          if (!(a && b).EqualTo(b && a))
            diverge("comm", a.to_string() + " and " + b.to_string());
          if (!(a || b).EqualTo(b || a))
            diverge("comm", a.to_string() + " or " + b.to_string());
        }
      le.check();
      lf.check();
      dump_laws(le);
    }
  } catch (const Foreign&) {
    ++stats()["foreign"];
  } catch (const replay::Divergence& e) {
    throw;
  }
}
}  // namespace symv

int main() {
  using namespace symv;  // NOLINT
  if (const char* o = std::getenv("SYM_OWN")) {
    std::istringstream in(o);
    std::string w;
    while (in >> w) own.insert(w);
  }
  {
    std::istringstream in(std::getenv("SYM_POINTS"));
    int n;
    in >> n;
    for (int i = 0; i < n; ++i) {
      Pt p;
      p.x[0] = 0;
      p.b[0] = 0;
      for (int v = 1; v <= 8; ++v) {
        long a, b;
        in >> a >> b;
        p.x[v] = static_cast<LD>(a) / static_cast<LD>(b);
      }
      for (int v = 1; v <= 8; ++v) in >> p.b[v];
      tlc_points.push_back(p);
    }
  }
  return replay::run(run_case);
}
