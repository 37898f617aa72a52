// Terms of the specification, their reference value with an error bound, and
// an evaluator that walks the real syntax trees through their public
// accessors.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "dreal/symbolic/symbolic.h"
#include "dreal/symbolic/symbolic_expression_cell.h"
#include "replay.h"

namespace symv {
using dreal::Expression;
using dreal::Formula;
using dreal::Variable;
using dreal::Variables;
using namespace dreal::drake::symbolic;  // NOLINT
typedef long double LD;

// ------------------------------------------------------------ spec terms
struct Term;
typedef std::shared_ptr<const Term> TP;
struct Term {
  std::string k, fn;
  long n{0}, d{1};
  std::vector<int> nv, bv;
  std::vector<TP> c;
};

struct Tok {
  std::istringstream in;
  explicit Tok(const std::string& s) : in(s) {}
  std::string word() {
    std::string w;
    if (!(in >> w)) throw std::logic_error("bad term");
    return w;
  }
  long num() { return std::stol(word()); }
};

inline TP parse(Tok* t) {
  auto r = std::make_shared<Term>();
  r->k = t->word();
  const std::string& k = r->k;
  int ar = 2;
  if (k == "var" || k == "bvar") {
    r->n = t->num();
    ar = 0;
  } else if (k == "const") {
    r->n = t->num();
    r->d = t->num();
    ar = 0;
  } else if (k == "true" || k == "false" || k == "undef") {
    ar = 0;
  } else if (k == "fn") {
    r->fn = t->word();
    ar = 1;
  } else if (k == "neg" || k == "not") {
    ar = 1;
  } else if (k == "ite") {
    ar = 3;
  } else if (k == "forall") {
    long m = t->num();
    while (m-- > 0) r->nv.push_back(static_cast<int>(t->num()));
    m = t->num();
    while (m-- > 0) r->bv.push_back(static_cast<int>(t->num()));
    ar = 1;
  }
  for (int i = 0; i < ar; ++i) r->c.push_back(parse(t));
  return r;
}
inline TP parse(const std::string& s) {
  Tok t(s);
  return parse(&t);
}
inline TP constant_term(long n) {
  auto r = std::make_shared<Term>();
  r->k = "const";
  r->n = n;
  return r;
}
inline TP true_term() {
  auto r = std::make_shared<Term>();
  r->k = "true";
  return r;
}
inline bool has_kind(const TP& t, const std::string& k) {
  if (t->k == k || t->fn == k) return true;
  for (const TP& c : t->c)
    if (has_kind(c, k)) return true;
  return false;
}
inline void fv(const TP& t, std::set<int>* n, std::set<int>* b) {
  if (t->k == "var") n->insert(static_cast<int>(t->n));
  if (t->k == "bvar") b->insert(static_cast<int>(t->n));
  if (t->k == "forall") {
    std::set<int> n2, b2;
    fv(t->c[0], &n2, &b2);
    for (int i : t->nv) n2.erase(i);
    for (int i : t->bv) b2.erase(i);
    n->insert(n2.begin(), n2.end());
    b->insert(b2.begin(), b2.end());
    return;
  }
  for (const TP& c : t->c) fv(c, n, b);
}

// ------------------------------------------------------ reference values
struct Pt {
  LD x[9];
  int b[9];
};
struct RV {
  bool ok;
  LD v, e;  // value, absolute error bound (0 = exact)
};
const LD kMag = 1e6L;
inline RV undef() { return RV{false, 0, 0}; }
inline bool nice(LD v) {
  return std::fabs(v) < 1048576.0L && v * 1024.0L == std::floor(v * 1024.0L);
}
// Value v computed from operands with propagated error e.
inline RV mk(LD v, LD e, bool may_be_exact) {
  if (!std::isfinite(v) || !std::isfinite(e) || std::fabs(v) > kMag)
    return undef();
  if (may_be_exact && e == 0 && nice(v)) return RV{true, v, 0};
  e += 1e-12L * std::max<LD>(std::fabs(v), 1e-3L);
  if (e > 1e-4L * std::max<LD>(1, std::fabs(v))) return undef();
  return RV{true, v, e};
}
inline bool is_int(LD v) { return v == std::floor(v); }

RV ev(const TP& t, Pt* p);
int fev(const TP& t, Pt* p);

inline RV ev_fn(const std::string& f, const RV& a) {
  const LD v = a.v, e = a.e;
  if (f == "abs") return mk(std::fabs(v), e, true);
  if (f == "exp") return mk(std::exp(v), std::exp(v) * std::expm1(e), false);
  if (f == "log")
    return v - e <= 0 ? undef() : mk(std::log(v), e / (v - e), false);
  if (f == "sqrt") {
    if (v == 0 && e == 0) return mk(0, 0, false);
    return v - e <= 0 ? undef()
                      : mk(std::sqrt(v), e / std::sqrt(v - e), false);
  }
  if (f == "sin") return mk(std::sin(v), e, false);
  if (f == "cos") return mk(std::cos(v), e, false);
  if (f == "tan") {
    LD c = std::fabs(std::cos(v)) - e;
    return c < 1e-4L ? undef() : mk(std::tan(v), e / (c * c), false);
  }
  if (f == "asin" || f == "acos") {
    LD s = 1 - (std::fabs(v) + e) * (std::fabs(v) + e);
    bool end = (e == 0 && std::fabs(v) == 1);
    if (!end && s < 1e-4L) return undef();
    LD er = end ? 0 : e / std::sqrt(s);
    return mk(f == "asin" ? std::asin(v) : std::acos(v), er, false);
  }
  if (f == "atan") return mk(std::atan(v), e, false);
  if (f == "sinh") return mk(std::sinh(v), e * std::cosh(std::fabs(v) + e),
                             false);
  if (f == "cosh") return mk(std::cosh(v), e * std::cosh(std::fabs(v) + e),
                             false);
  if (f == "tanh") return mk(std::tanh(v), e, false);
  throw std::logic_error("function " + f);
}

inline RV ev(const TP& t, Pt* p) {
  const std::string& k = t->k;
  if (k == "var") return RV{true, p->x[t->n], 0};
  if (k == "const")
    return mk(static_cast<LD>(t->n) / static_cast<LD>(t->d), 0, true);
  if (k == "undef") return undef();
  if (k == "ite") {
    int c = fev(t->c[0], p);
    return c == 2 ? undef() : ev(t->c[c == 1 ? 1 : 2], p);
  }
  RV a = ev(t->c[0], p);
  if (!a.ok) return undef();
  if (k == "neg") return RV{true, -a.v, a.e};
  if (k == "fn") return ev_fn(t->fn, a);
  RV b = ev(t->c[1], p);
  if (k == "guard") return b;
  if (!b.ok) return undef();
  if (k == "add") return mk(a.v + b.v, a.e + b.e, true);
  if (k == "sub") return mk(a.v - b.v, a.e + b.e, true);
  if (k == "mul")
    return mk(a.v * b.v,
              std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e, true);
  if (k == "div") {
    LD d = std::fabs(b.v) - b.e;
    if (d < 1e-4L) return undef();
    return mk(a.v / b.v, a.e / d + std::fabs(a.v) * b.e / (d * d), false);
  }
  if (k == "pow") {
    if (b.e == 0 && is_int(b.v)) {
      if (std::fabs(b.v) > 40) return undef();
      LD m = std::fabs(a.v);
      if (m - a.e < 1e-4L) {
        if (b.v <= 0) return undef();
        if (a.v != 0 || a.e != 0) {
          return mk(std::pow(a.v, b.v), a.e * std::fabs(b.v), false);
        }
        return mk(0, 0, false);
      }
      LD v = std::pow(a.v, b.v);
      return mk(v, std::fabs(v) * std::fabs(b.v) * a.e / (m - a.e) * 2, false);
    }
    if (a.v - a.e < 1e-4L) return undef();
    LD v = std::pow(a.v, b.v);
    return mk(v,
              std::fabs(v) * 2 *
                  (std::fabs(b.v) * a.e / (a.v - a.e) +
                   b.e * std::fabs(std::log(a.v))),
              false);
  }
  if (k == "min") return mk(std::min(a.v, b.v), std::max(a.e, b.e), true);
  if (k == "max") return mk(std::max(a.v, b.v), std::max(a.e, b.e), true);
  if (k == "atan2") {
    LD r = std::sqrt(a.v * a.v + b.v * b.v);
    if (r < 1e-3L) return undef();
    // the branch cut: the negative x axis
    if (b.v < 0 && std::fabs(a.v) <= a.e + 1e-9L && a.v != 0) return undef();
    if (b.v < 0 && a.v == 0) return undef();  // sign of zero decides
    return mk(std::atan2(a.v, b.v), (a.e + b.e) / r * 2, false);
  }
  throw std::logic_error("term " + k);
}

const int kQ[4] = {-1, 0, 1, 2};

inline int fev(const TP& t, Pt* p) {
  const std::string& k = t->k;
  if (k == "true") return 1;
  if (k == "false") return 0;
  if (k == "bvar") return p->b[t->n];
  if (k == "not") {
    int a = fev(t->c[0], p);
    return a == 2 ? 2 : 1 - a;
  }
  if (k == "and" || k == "or" || k == "imp" || k == "iff") {
    int a = fev(t->c[0], p), b = fev(t->c[1], p);
    if (a == 2 || b == 2) return 2;
    if (k == "and") return a & b;
    if (k == "or") return a | b;
    if (k == "imp") return a <= b;
    return a == b;
  }
  if (k == "forall") {
    Pt q = *p;
    int r = 1;
    size_t total = 1;
    for (size_t i = 0; i < t->nv.size(); ++i) total *= 4;
    for (size_t i = 0; i < t->bv.size(); ++i) total *= 2;
    for (size_t m = 0; m < total; ++m) {
      size_t w = m;
      for (int v : t->nv) {
        q.x[v] = kQ[w % 4];
        w /= 4;
      }
      for (int v : t->bv) {
        q.b[v] = static_cast<int>(w % 2);
        w /= 2;
      }
      int a = fev(t->c[0], &q);
      if (a == 2) return 2;
      if (a == 0) r = 0;
    }
    return r;
  }
  RV a = ev(t->c[0], p), b = ev(t->c[1], p);
  if (!a.ok || !b.ok) return 2;
  LD d = a.v - b.v, e = a.e + b.e;
  if (e == 0 ? false : std::fabs(d) <= e * 2 + 1e-9L) return 2;
  if (k == "lt") return d < 0;
  if (k == "le") return d <= 0;
  if (k == "gt") return d > 0;
  if (k == "ge") return d >= 0;
  if (k == "eq") return d == 0;
  if (k == "ne") return d != 0;
  throw std::logic_error("formula " + k);
}

// ----------------------------------------- walking the real syntax trees
typedef std::map<Variable::Id, double> VEnv;
struct Walk {
  VEnv env;
  // domain of quantified variables that are not in `known`
  std::set<Variable::Id> known;
  bool use_known{false};
  std::vector<double> aux_dom;

  double E(const Expression& e) {
    switch (e.get_kind()) {
      case ExpressionKind::Constant:
        return get_constant_value(e);
      case ExpressionKind::RealConstant:
        return to_real_constant(e)->get_value();
      case ExpressionKind::Var: {
        auto it = env.find(get_variable(e).get_id());
        if (it == env.end()) throw std::runtime_error("unbound variable");
        return it->second;
      }
      case ExpressionKind::Add: {
        double r = get_constant_in_addition(e);
        for (const auto& p : get_expr_to_coeff_map_in_addition(e))
          r += p.second * E(p.first);
        return r;
      }
      case ExpressionKind::Mul: {
        double r = get_constant_in_multiplication(e);
        for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
          r *= std::pow(E(p.first), E(p.second));
        return r;
      }
      case ExpressionKind::Div:
        return E(get_first_argument(e)) / E(get_second_argument(e));
      case ExpressionKind::Log:
        return std::log(E(get_argument(e)));
      case ExpressionKind::Abs:
        return std::fabs(E(get_argument(e)));
      case ExpressionKind::Exp:
        return std::exp(E(get_argument(e)));
      case ExpressionKind::Sqrt:
        return std::sqrt(E(get_argument(e)));
      case ExpressionKind::Pow:
        return std::pow(E(get_first_argument(e)), E(get_second_argument(e)));
      case ExpressionKind::Sin:
        return std::sin(E(get_argument(e)));
      case ExpressionKind::Cos:
        return std::cos(E(get_argument(e)));
      case ExpressionKind::Tan:
        return std::tan(E(get_argument(e)));
      case ExpressionKind::Asin:
        return std::asin(E(get_argument(e)));
      case ExpressionKind::Acos:
        return std::acos(E(get_argument(e)));
      case ExpressionKind::Atan:
        return std::atan(E(get_argument(e)));
      case ExpressionKind::Atan2:
        return std::atan2(E(get_first_argument(e)), E(get_second_argument(e)));
      case ExpressionKind::Sinh:
        return std::sinh(E(get_argument(e)));
      case ExpressionKind::Cosh:
        return std::cosh(E(get_argument(e)));
      case ExpressionKind::Tanh:
        return std::tanh(E(get_argument(e)));
      case ExpressionKind::Min:
        return std::min(E(get_first_argument(e)), E(get_second_argument(e)));
      case ExpressionKind::Max:
        return std::max(E(get_first_argument(e)), E(get_second_argument(e)));
      case ExpressionKind::IfThenElse:
        return F(get_conditional_formula(e)) ? E(get_then_expression(e))
                                             : E(get_else_expression(e));
      case ExpressionKind::NaN:
        return std::numeric_limits<double>::quiet_NaN();
      default:
        throw std::runtime_error("uninterpreted");
    }
  }

  bool F(const Formula& f) {
    switch (f.get_kind()) {
      case FormulaKind::False:
        return false;
      case FormulaKind::True:
        return true;
      case FormulaKind::Var: {
        auto it = env.find(get_variable(f).get_id());
        if (it == env.end()) throw std::runtime_error("unbound variable");
        return it->second != 0;
      }
      case FormulaKind::Eq:
        return E(get_lhs_expression(f)) == E(get_rhs_expression(f));
      case FormulaKind::Neq:
        return E(get_lhs_expression(f)) != E(get_rhs_expression(f));
      case FormulaKind::Gt:
        return E(get_lhs_expression(f)) > E(get_rhs_expression(f));
      case FormulaKind::Geq:
        return E(get_lhs_expression(f)) >= E(get_rhs_expression(f));
      case FormulaKind::Lt:
        return E(get_lhs_expression(f)) < E(get_rhs_expression(f));
      case FormulaKind::Leq:
        return E(get_lhs_expression(f)) <= E(get_rhs_expression(f));
      case FormulaKind::And:
        for (const Formula& g : get_operands(f))
          if (!F(g)) return false;
        return true;
      case FormulaKind::Or:
        for (const Formula& g : get_operands(f))
          if (F(g)) return true;
        return false;
      case FormulaKind::Not:
        return !F(get_operand(f));
      case FormulaKind::Forall: {
        std::vector<Variable> vs;
        for (const Variable& v : get_quantified_variables(f)) vs.push_back(v);
        return all(vs, 0, get_quantified_formula(f));
      }
    }
    throw std::runtime_error("formula kind");
  }

  bool all(const std::vector<Variable>& vs, size_t i, const Formula& f) {
    if (i == vs.size()) return F(f);
    const Variable::Id id = vs[i].get_id();
    auto it = env.find(id);
    const bool had = it != env.end();
    const double old = had ? it->second : 0;
    std::vector<double> dom;
    if (vs[i].get_type() == Variable::Type::BOOLEAN) {
      dom = {0, 1};
    } else if (use_known && !known.count(id)) {
      dom = aux_dom;
    } else {
      dom = {-1, 0, 1, 2};
    }
    bool r = true;
    for (double d : dom) {
      env[id] = d;
      if (!all(vs, i + 1, f)) {
        r = false;
        break;
      }
    }
    if (had) {
      env[id] = old;
    } else {
      env.erase(id);
    }
    return r;
  }
};

// ------------------------------------------------ structure of the trees
template <class FE, class FF>
void children(const Expression& e, FE fe, FF ff) {
  switch (e.get_kind()) {
    case ExpressionKind::Constant:
    case ExpressionKind::RealConstant:
    case ExpressionKind::Var:
    case ExpressionKind::NaN:
    case ExpressionKind::UninterpretedFunction:
      return;
    case ExpressionKind::Add:
      for (const auto& p : get_expr_to_coeff_map_in_addition(e)) fe(p.first);
      return;
    case ExpressionKind::Mul:
      for (const auto& p : get_base_to_exponent_map_in_multiplication(e)) {
        fe(p.first);
        fe(p.second);
      }
      return;
    case ExpressionKind::Div:
    case ExpressionKind::Pow:
    case ExpressionKind::Atan2:
    case ExpressionKind::Min:
    case ExpressionKind::Max:
      fe(get_first_argument(e));
      fe(get_second_argument(e));
      return;
    case ExpressionKind::IfThenElse:
      ff(get_conditional_formula(e));
      fe(get_then_expression(e));
      fe(get_else_expression(e));
      return;
    default:
      fe(get_argument(e));
  }
}
template <class FE, class FF>
void children(const Formula& f, FE fe, FF ff) {
  switch (f.get_kind()) {
    case FormulaKind::False:
    case FormulaKind::True:
    case FormulaKind::Var:
      return;
    case FormulaKind::And:
    case FormulaKind::Or:
      for (const Formula& g : get_operands(f)) ff(g);
      return;
    case FormulaKind::Not:
      ff(get_operand(f));
      return;
    case FormulaKind::Forall:
      ff(get_quantified_formula(f));
      return;
    default:
      fe(get_lhs_expression(f));
      fe(get_rhs_expression(f));
  }
}

inline std::set<Variable::Id> free_ids(const Formula& f);
inline std::set<Variable::Id> free_ids(const Expression& e) {
  std::set<Variable::Id> r;
  if (e.get_kind() == ExpressionKind::Var) {
    r.insert(get_variable(e).get_id());
  } else if (e.get_kind() == ExpressionKind::UninterpretedFunction) {
    for (const Variable& v : e.GetVariables()) r.insert(v.get_id());
  }
  children(
      e,
      [&](const Expression& x) {
        auto s = free_ids(x);
        r.insert(s.begin(), s.end());
      },
      [&](const Formula& x) {
        auto s = free_ids(x);
        r.insert(s.begin(), s.end());
      });
  return r;
}
inline std::set<Variable::Id> free_ids(const Formula& f) {
  std::set<Variable::Id> r;
  if (f.get_kind() == FormulaKind::Var) r.insert(get_variable(f).get_id());
  children(
      f,
      [&](const Expression& x) {
        auto s = free_ids(x);
        r.insert(s.begin(), s.end());
      },
      [&](const Formula& x) {
        auto s = free_ids(x);
        r.insert(s.begin(), s.end());
      });
  if (f.get_kind() == FormulaKind::Forall)
    for (const Variable& v : get_quantified_variables(f)) r.erase(v.get_id());
  return r;
}
// every variable, bound ones included
inline void all_vars(const Formula& f, std::map<Variable::Id, Variable>* r);
inline void all_vars(const Expression& e, std::map<Variable::Id, Variable>* r) {
  if (e.get_kind() == ExpressionKind::Var)
    r->emplace(get_variable(e).get_id(), get_variable(e));
  children(e, [&](const Expression& x) { all_vars(x, r); },
           [&](const Formula& x) { all_vars(x, r); });
}
inline void all_vars(const Formula& f, std::map<Variable::Id, Variable>* r) {
  if (f.get_kind() == FormulaKind::Var)
    r->emplace(get_variable(f).get_id(), get_variable(f));
  if (f.get_kind() == FormulaKind::Forall)
    for (const Variable& v : get_quantified_variables(f))
      r->emplace(v.get_id(), v);
  children(f, [&](const Expression& x) { all_vars(x, r); },
           [&](const Formula& x) { all_vars(x, r); });
}
inline bool has_ite(const Formula& f);
inline bool has_ite(const Expression& e) {
  bool r = e.get_kind() == ExpressionKind::IfThenElse;
  children(e, [&](const Expression& x) { r = r || has_ite(x); },
           [&](const Formula& x) { r = r || has_ite(x); });
  return r;
}
inline bool has_ite(const Formula& f) {
  bool r = false;
  children(f, [&](const Expression& x) { r = r || has_ite(x); },
           [&](const Formula& x) { r = r || has_ite(x); });
  return r;
}
inline size_t tree_size(const Formula& f);
inline size_t tree_size(const Expression& e) {
  size_t r = 1;
  children(e, [&](const Expression& x) { r += tree_size(x); },
           [&](const Formula& x) { r += tree_size(x); });
  return r;
}
inline size_t tree_size(const Formula& f) {
  size_t r = 1;
  children(f, [&](const Expression& x) { r += tree_size(x); },
           [&](const Formula& x) { r += tree_size(x); });
  return r;
}

// Somewhere a power of a power: (p^q)^r is its own base and also a power of
// p, so how its product with p^q is merged depends on the order of merging
// (the value does not).
inline bool tower(const Formula& f);
inline bool tower(const Expression& e) {
  bool r = is_pow(e) && is_pow(get_first_argument(e));
  if (is_multiplication(e)) {
    for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
      r = r || is_pow(p.first);
  }
  children(e, [&](const Expression& x) { r = r || tower(x); },
           [&](const Formula& x) { r = r || tower(x); });
  return r;
}
inline bool tower(const Formula& f) {
  bool r = false;
  children(f, [&](const Expression& x) { r = r || tower(x); },
           [&](const Formula& x) { r = r || tower(x); });
  return r;
}

// No infinite or not-a-number constant anywhere.
inline bool finite(const Formula& f);
inline bool finite(const Expression& e) {
  bool r = true;
  auto c = [&](double d) { r = r && std::isfinite(d); };
  if (e.get_kind() == ExpressionKind::NaN) return false;
  if (e.get_kind() == ExpressionKind::Constant) c(get_constant_value(e));
  if (e.get_kind() == ExpressionKind::Add) {
    c(get_constant_in_addition(e));
    for (const auto& p : get_expr_to_coeff_map_in_addition(e)) c(p.second);
  }
  if (e.get_kind() == ExpressionKind::Mul)
    c(get_constant_in_multiplication(e));
  children(e, [&](const Expression& x) { r = r && finite(x); },
           [&](const Formula& x) { r = r && finite(x); });
  return r;
}
inline bool finite(const Formula& f) {
  bool r = true;
  children(f, [&](const Expression& x) { r = r && finite(x); },
           [&](const Formula& x) { r = r && finite(x); });
  return r;
}

// Canonical text: equal exactly for structurally equal trees.
inline void num(double d, std::ostream* o) {
  char buf[64];
  std::snprintf(buf, sizeof(buf), "%a", d == 0 ? 0.0 : d);
  *o << buf;
}
inline std::string dump(const Formula& f);
inline std::string dump(const Expression& e) {
  std::ostringstream o;
  o << "(" << static_cast<int>(e.get_kind());
  std::vector<std::string> cs;
  switch (e.get_kind()) {
    case ExpressionKind::Constant:
      o << " ";
      num(get_constant_value(e), &o);
      break;
    case ExpressionKind::RealConstant:
      o << " ";
      num(get_lb_of_real_constant(e), &o);
      o << " ";
      num(get_ub_of_real_constant(e), &o);
      o << " ";
      num(to_real_constant(e)->get_value(), &o);
      break;
    case ExpressionKind::Var:
      o << " v" << get_variable(e).get_id();
      break;
    case ExpressionKind::Add:
      num(get_constant_in_addition(e), &o);
      for (const auto& p : get_expr_to_coeff_map_in_addition(e)) {
        std::ostringstream c;
        num(p.second, &c);
        cs.push_back(c.str() + dump(p.first));
      }
      break;
    case ExpressionKind::Mul:
      num(get_constant_in_multiplication(e), &o);
      for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
        cs.push_back(dump(p.first) + dump(p.second));
      break;
    case ExpressionKind::UninterpretedFunction:
      o << e.to_string();
      break;
    default: {
      std::vector<std::string> xs;
      children(e, [&](const Expression& x) { xs.push_back(dump(x)); },
               [&](const Formula& x) { xs.push_back(dump(x)); });
      for (const auto& x : xs) o << x;
    }
  }
  std::sort(cs.begin(), cs.end());
  for (const auto& c : cs) o << "[" << c << "]";
  o << ")";
  return o.str();
}
inline std::string dump(const Formula& f) {
  std::ostringstream o;
  o << "{" << static_cast<int>(f.get_kind());
  if (f.get_kind() == FormulaKind::Var) o << " v" << get_variable(f).get_id();
  if (f.get_kind() == FormulaKind::Forall)
    for (const Variable& v : get_quantified_variables(f))
      o << " q" << v.get_id();
  std::vector<std::string> cs;
  children(f, [&](const Expression& x) { cs.push_back(dump(x)); },
           [&](const Formula& x) { cs.push_back(dump(x)); });
  if (f.get_kind() == FormulaKind::And || f.get_kind() == FormulaKind::Or)
    std::sort(cs.begin(), cs.end());
  for (const auto& c : cs) o << c;
  o << "}";
  return o.str();
}

inline std::string show(double d) {
  std::ostringstream o;
  o.precision(17);
  o << d;
  return o.str();
}

}  // namespace symv
