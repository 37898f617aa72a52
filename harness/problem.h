// Variables, terms and formulas of Solve.tla and Prune.tla.
#pragma once
#include <stdexcept>
#include <string>
#include <vector>

#include "dreal/symbolic/symbolic.h"
#include "sx.h"

using dreal::Expression;
using dreal::Formula;
using dreal::Variable;
using sx::Node;
using std::string;
using std::vector;

struct Problem {
  vector<Variable> v;  // 1-based
  string types;
  Variable q{"q", Variable::Type::CONTINUOUS};
};

static double origin(const Problem& p, int v) {
  return origin_of(p.types.at(v));
}
static bool translated(const Problem& p, const Node& n) {
  return n.tag == "v" && origin(p, n.num(0)) != 0;
}

static Expression term(const Problem& p, const Node& n);
static Formula formula(const Problem& p, const Node& n);

static Expression term(const Problem& p, const Node& n) {
  const string& t = n.tag;
  if (t == "c") return Expression{n.num(0) / 4.0};
  if (t == "v") {
    return translated(p, n) ? p.v[n.num(0)] - origin(p, n.num(0))
                            : Expression{p.v.at(n.num(0))};
  }
  const auto a = [&](size_t i) { return term(p, n.args.at(i)); };
  if (t == "add") return a(0) + a(1);
  if (t == "sub") return a(0) - a(1);
  if (t == "neg") return -a(0);
  if (t == "mul") return a(0) * a(1);
  if (t == "sq") return pow(a(0), 2);
  if (t == "abs") return abs(a(0));
  if (t == "min") return min(a(0), a(1));
  if (t == "max") return max(a(0), a(1));
  if (t == "ite") {
    return if_then_else(formula(p, n.args.at(0)), a(1), a(2));
  }
  if (t == "fn" || t == "fnt") {
    const string& f = n.args.at(0).tag;
    const Expression x{t == "fnt" ? term(p, n.args.at(1))
                                  : p.v.at(n.num(1)) - origin(p, n.num(1))};
    if (f == "sin") return sin(x);
    if (f == "cos") return cos(x);
    if (f == "tan") return tan(x);
    if (f == "exp") return exp(x);
    if (f == "log") return log(x);
    if (f == "sqrt") return sqrt(x);
    if (f == "atan") return atan(x);
    if (f == "asin") return asin(x);
    if (f == "acos") return acos(x);
    if (f == "sinh") return sinh(x);
    if (f == "cosh") return cosh(x);
    if (f == "tanh") return tanh(x);
    if (f == "cube") return pow(x, 3);
    if (f == "inv") return 1 / x;
    if (f == "atan2y") return atan2(x, 0.5);
    if (f == "atan2x") return atan2(0.5, x);
    if (f == "pow") return pow(x + 3, 1.5);
    if (f == "abs3") return abs(x - 0.5);
    if (f == "min1") return min(x, 0.5);
    if (f == "max1") return max(x, -0.5);
    if (f == "quot") return (x + 1) / (pow(x, 2) + 1);
    if (f == "pinv3") return pow(x, -3);
    if (f == "pneg2") return pow(x, -2);
    if (f == "quart") return pow(x, 4);
    if (f == "exp2") return pow(Expression{2.0}, x);
    if (f == "sinsq") return sin(pow(x, 2));
    if (f == "expsin") return exp(sin(x));
    if (f == "logsq") return log(pow(x, 2) + 1);
    if (f == "sqrtabs") return sqrt(abs(x));
    if (f == "tanhcos") return tanh(cos(x));
    if (f == "powself") return pow(x + 3, x);
    throw std::runtime_error("function " + f);
  }
  throw std::runtime_error("term " + t);
}
static Formula rel(const string& o, const Expression& a, const Expression& b) {
  if (o == "lt") return a < b;
  if (o == "le") return a <= b;
  if (o == "eq") return a == b;
  if (o == "ne") return a != b;
  if (o == "ge") return a >= b;
  if (o == "gt") return a > b;
  throw std::runtime_error("relation " + o);
}
static Formula formula(const Problem& p, const Node& n) {
  const string& t = n.tag;
  const auto a = [&](size_t i) { return formula(p, n.args.at(i)); };
  if (t == "true") return Formula::True();
  if (t == "false") return Formula::False();
  if (t == "b") return Formula{p.v.at(n.num(0))};
  if (t == "rel") {
    const Node &l = n.args[1], &r = n.args[2];
    if (translated(p, l) && r.tag == "c") {
      return rel(n.args[0].tag, p.v[l.num(0)], r.num(0) / 4.0 + origin(p, l.num(0)));
    }
    if (translated(p, r) && l.tag == "c") {
      return rel(n.args[0].tag, l.num(0) / 4.0 + origin(p, r.num(0)), p.v[r.num(0)]);
    }
    return rel(n.args[0].tag, term(p, n.args[1]), term(p, n.args[2]));
  }
  if (t == "cmp") {
    const Formula f =
        rel(n.args[0].tag, n.num(1) * term(p, n.args[2]) + term(p, n.args[3]),
            n.num(4) / 4.0);
    return n.num(5) ? !f : f;
  }
  if (t == "neg") return !a(0);
  if (t == "not") return !a(0);
  if (t == "and") return a(0) && a(1);
  if (t == "or") return a(0) || a(1);
  if (t == "imp") return dreal::imply(a(0), a(1));
  if (t == "iff") return dreal::iff(a(0), a(1));
  if (t == "all") {
    const Expression q{p.q};
    const Formula dom = n.num(0) / 4.0 <= q && q <= n.num(1) / 4.0;
    return dreal::forall({p.q},
                  dreal::imply(dom, rel(n.args[2].tag,
                                 n.num(3) / 4.0 * q + term(p, n.args[4]), 0)));
  }
  throw std::runtime_error("formula " + t);
}

static void declare(Problem* q) {
  Problem& p = *q;
  p.v.push_back(Variable{});
  for (size_t i = 1; i < p.types.size(); ++i) {
    const char c = p.types[i];
    p.v.push_back(Variable{
        string(1, "xyzuvwst"[i % 8]) + std::to_string(i),
        c == 'B'   ? Variable::Type::BOOLEAN
        : c == 'I' || c == 'J' || c == 'K' ? Variable::Type::INTEGER
        : c == 'N' ? Variable::Type::BINARY
                   : Variable::Type::CONTINUOUS});
  }
}
