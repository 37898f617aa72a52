// The weakened truth of a formula of Solve.tla at a point.  A point has one
// value per variable (from 1) and, last, room for a quantified variable.
#pragma once
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>

#include "sx.h"

using sx::Node;
using std::string;
using std::vector;

// ------------------------------------------------ weakened truth at a point
// Terms are set-valued: where the condition of an if-then-else may be taken
// either way within the tolerance, both branches count.
using Vals = vector<double>;
static bool weak(const Node& n, bool pos, const vector<double>& x, double tol);
static double fn(const string& f, double x) {
  if (f == "sin") return std::sin(x);
  if (f == "cos") return std::cos(x);
  if (f == "tan") return std::tan(x);
  if (f == "exp") return std::exp(x);
  if (f == "log") return std::log(x);
  if (f == "sqrt") return std::sqrt(x);
  if (f == "atan") return std::atan(x);
  if (f == "asin") return std::asin(x);
  if (f == "acos") return std::acos(x);
  if (f == "sinh") return std::sinh(x);
  if (f == "cosh") return std::cosh(x);
  if (f == "tanh") return std::tanh(x);
  if (f == "cube") return x * x * x;
  if (f == "inv") return 1 / x;
  if (f == "atan2y") return std::atan2(x, 0.5);
  if (f == "atan2x") return std::atan2(0.5, x);
  if (f == "pow") return std::pow(x + 3, 1.5);
  if (f == "abs3") return std::fabs(x - 0.5);
  if (f == "min1") return std::min(x, 0.5);
  if (f == "max1") return std::max(x, -0.5);
  if (f == "quot") return (x + 1) / (x * x + 1);
  if (f == "pinv3") return 1 / (x * x * x);
  if (f == "pneg2") return 1 / (x * x);
  if (f == "quart") return x * x * x * x;
  if (f == "exp2") return std::pow(2.0, x);
  if (f == "sinsq") return std::sin(x * x);
  if (f == "expsin") return std::exp(std::sin(x));
  if (f == "logsq") return std::log(x * x + 1);
  if (f == "sqrtabs") return std::sqrt(std::fabs(x));
  if (f == "tanhcos") return std::tanh(std::cos(x));
  if (f == "powself") return std::pow(x + 3, x);
  throw std::runtime_error("function " + f);
}
static Vals vals(const Node& n, const vector<double>& x, double tol) {
  const string& t = n.tag;
  if (t == "c") return {n.num(0) / 4.0};
  if (t == "v") return {x.at(n.num(0))};
  if (t == "ite") {
    Vals r;
    for (int s = 0; s < 2; ++s) {
      if (weak(n.args[0], s == 0, x, tol)) {
        for (double v : vals(n.args[1 + s], x, tol)) r.push_back(v);
      }
    }
    return r;
  }
  const Vals a = vals(n.args.at(0), x, tol);
  Vals r;
  if (n.args.size() == 1) {
    for (double v : a) {
      r.push_back(t == "neg" ? -v : t == "sq" ? v * v : std::fabs(v));
    }
    return r;
  }
  const Vals b = vals(n.args.at(1), x, tol);
  for (double v : a) {
    for (double w : b) {
      r.push_back(t == "add"   ? v + w
                  : t == "sub" ? v - w
                  : t == "mul" ? v * w
                  : t == "min" ? std::min(v, w)
                               : std::max(v, w));
    }
  }
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static bool weak_rel(string o, bool pos, double d, double tol) {
  if (!pos) {
    o = o == "lt"   ? "ge"
        : o == "le" ? "gt"
        : o == "eq" ? "ne"
        : o == "ne" ? "eq"
        : o == "ge" ? "lt"
                    : "le";
  }
  if (o == "lt" || o == "le") return d <= tol;
  if (o == "ge" || o == "gt") return d >= -tol;
  if (o == "eq") return std::fabs(d) <= tol;
  return true;
}
static bool weak(const Node& n, bool pos, const vector<double>& x,
                 double tol) {
  const string& t = n.tag;
  const auto w = [&](size_t i, bool s) { return weak(n.args.at(i), s, x, tol); };
  if (t == "true") return pos;
  if (t == "false") return !pos;
  if (t == "b") return (x.at(n.num(0)) != 0) == pos;
  if (t == "not") return w(0, !pos);
  if (t == "and" || t == "or") {
    return (t == "and") == pos ? w(0, pos) && w(1, pos)
                               : w(0, pos) || w(1, pos);
  }
  if (t == "imp") return pos ? w(0, false) || w(1, true)
                             : w(0, true) && w(1, false);
  if (t == "iff") {
    return (w(0, true) && w(1, pos)) || (w(0, false) && w(1, !pos));
  }
  if (t == "rel") {
    for (double a : vals(n.args[1], x, tol)) {
      for (double b : vals(n.args[2], x, tol)) {
        if (weak_rel(n.args[0].tag, pos, a - b, tol)) return true;
      }
    }
    return false;
  }
  if (t == "cmp") {
    const Node& g = n.args[2];
    for (double u : g.tag == "fnt" ? vals(g.args[1], x, tol)
                                   : Vals{x.at(g.num(1))}) {
      const double v = fn(g.args[0].tag, u);
      // Next to a pole or to the end of the domain of the function the code
      // accepts a box it cannot divide any further.
      if (!(std::fabs(v) < 1e6)) return true;
      for (double a : vals(n.args[3], x, tol)) {
        if (weak_rel(n.args[0].tag, pos == (n.num(5) == 0),
                     n.num(1) * v + a - n.num(4) / 4.0, tol)) {
          return true;
        }
      }
    }
    return false;
  }
  if (t == "all") {
    int good = 0;
    for (int e = 0; e < 2; ++e) {
      const double q = n.num(e) / 4.0;
      bool any = false;
      for (double a : vals(n.args[4], x, tol)) {
        any = any ||
              weak_rel(n.args[2].tag, pos, n.num(3) / 4.0 * q + a, 10 * tol);
      }
      good += any;
    }
    return pos ? good == 2 : good > 0;
  }
  if (t == "fa") {
    // linear in the last variable: the ends decide
    int good = 0;
    for (int e = 0; e < 2; ++e) {
      vector<double> y{x};
      y.back() = n.num(e) / 4.0;
      good += weak(n.args[2], pos, y, 10 * tol);
    }
    return pos ? good == 2 : good > 0;
  }
  throw std::runtime_error("formula " + t);
}
static bool has(const Node& n, const char* tag) {
  if (n.tag == tag) return true;
  for (const Node& a : n.args) {
    if (has(a, tag)) return true;
  }
  return false;
}

