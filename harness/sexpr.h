// Reads and evaluates the prefix (SMT-LIB) form, independently of the code.
#pragma once
#include <cmath>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace sexpr {
struct Node {
  std::string atom;
  std::vector<Node> kids;
  bool list{false};
};
typedef std::map<std::string, double> Env;

inline Node parse_at(const std::string& s, size_t* i) {
  while (*i < s.size() && s[*i] == ' ') ++*i;
  if (*i >= s.size()) throw std::runtime_error("unexpected end");
  Node n;
  if (s[*i] == '(') {
    ++*i;
    n.list = true;
    while (true) {
      while (*i < s.size() && s[*i] == ' ') ++*i;
      if (*i >= s.size()) throw std::runtime_error("missing )");
      if (s[*i] == ')') {
        ++*i;
        return n;
      }
      n.kids.push_back(parse_at(s, i));
    }
  }
  if (s[*i] == ')') throw std::runtime_error("unexpected )");
  while (*i < s.size() && s[*i] != ' ' && s[*i] != '(' && s[*i] != ')')
    n.atom += s[(*i)++];
  return n;
}
inline Node parse(const std::string& s) {
  size_t i = 0;
  Node n = parse_at(s, &i);
  while (i < s.size() && s[i] == ' ') ++i;
  if (i != s.size()) throw std::runtime_error("trailing text");
  return n;
}
inline bool numeral(const std::string& a, double* d) {
  if (a.empty() || !(a[0] >= '0' && a[0] <= '9')) return false;
  char* e = nullptr;
  *d = std::strtod(a.c_str(), &e);
  return *e == 0;
}
inline void numerals(const Node& n, std::vector<double>* r) {
  double d;
  if (!n.list && numeral(n.atom, &d)) r->push_back(d);
  for (const Node& k : n.kids) numerals(k, r);
}
inline double eval(const Node& n, const Env& env) {
  double d;
  if (!n.list) {
    if (numeral(n.atom, &d)) return d;
    if (n.atom == "true") return 1;
    if (n.atom == "false") return 0;
    auto it = env.find(n.atom);
    if (it == env.end()) throw std::runtime_error("unknown symbol " + n.atom);
    return it->second;
  }
  if (n.kids.empty() || n.kids[0].list) throw std::runtime_error("no operator");
  const std::string& o = n.kids[0].atom;
  const size_t k = n.kids.size() - 1;
  auto need = [&](size_t m) {
    if (k != m) throw std::runtime_error("arity of " + o);
  };
  if (o == "ite") {
    need(3);
    return eval(n.kids[1], env) != 0 ? eval(n.kids[2], env)
                                     : eval(n.kids[3], env);
  }
  std::vector<double> a;
  for (size_t i = 1; i <= k; ++i) a.push_back(eval(n.kids[i], env));
  if (k == 0) throw std::runtime_error("arity of " + o);
  if (o == "+") {
    double r = 0;
    for (double x : a) r += x;
    return r;
  }
  if (o == "*") {
    double r = 1;
    for (double x : a) r *= x;
    return r;
  }
  if (o == "-") {
    if (k == 1) return -a[0];
    need(2);
    return a[0] - a[1];
  }
  if (o == "and") {
    for (double x : a)
      if (x == 0) return 0;
    return 1;
  }
  if (o == "or") {
    for (double x : a)
      if (x != 0) return 1;
    return 0;
  }
  if (k == 1) {
    const double x = a[0];
    if (o == "not") return x == 0;
    if (o == "abs") return std::fabs(x);
    if (o == "sqrt") return std::sqrt(x);
    if (o == "exp") return std::exp(x);
    if (o == "log") return std::log(x);
    if (o == "sin") return std::sin(x);
    if (o == "cos") return std::cos(x);
    if (o == "tan") return std::tan(x);
    if (o == "asin") return std::asin(x);
    if (o == "acos") return std::acos(x);
    if (o == "atan") return std::atan(x);
    if (o == "sinh") return std::sinh(x);
    if (o == "cosh") return std::cosh(x);
    if (o == "tanh") return std::tanh(x);
  }
  if (k == 2) {
    const double x = a[0], y = a[1];
    if (o == "/") return x / y;
    if (o == "^" || o == "pow") return std::pow(x, y);
    if (o == "interval") return x;
    if (o == "min") return std::min(x, y);
    if (o == "max") return std::max(x, y);
    if (o == "atan2") return std::atan2(x, y);
    if (o == "=") return x == y;
    if (o == "<") return x < y;
    if (o == ">") return x > y;
    if (o == "<=") return x <= y;
    if (o == ">=") return x >= y;
    if (o == "distinct") return x != y;
  }
  throw std::runtime_error("operator " + o);
}
}  // namespace sexpr
