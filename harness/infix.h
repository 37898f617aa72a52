// Reads the infix text of expressions and formulas with the conventional
// precedences, into the tree that sexpr.h evaluates.
#pragma once
#include <cctype>
#include <set>
#include <string>

#include "sexpr.h"

namespace infix {
using sexpr::Node;
struct Reader {
  explicit Reader(const std::string& t) : s(t) {}
  const std::string& s;
  size_t i{0};
  void ws() {
    while (i < s.size() && s[i] == ' ') ++i;
  }
  [[noreturn]] void bad(const std::string& w) {
    throw std::runtime_error(w + " expected at " + std::to_string(i));
  }
  bool op(const std::string& t) {
    ws();
    if (s.compare(i, t.size(), t) != 0) return false;
    if (std::isalpha(t[0]) && i + t.size() < s.size() &&
        (std::isalnum(s[i + t.size()]) || s[i + t.size()] == '_'))
      return false;
    i += t.size();
    return true;
  }
  void need(const std::string& t) {
    if (!op(t)) bad(t);
  }
  static Node leaf(const std::string& a) {
    Node n;
    n.atom = a;
    return n;
  }
  static Node app(const std::string& o, std::vector<Node> a) {
    Node n;
    n.list = true;
    n.kids.push_back(leaf(o));
    for (Node& x : a) n.kids.push_back(std::move(x));
    return n;
  }
  Node prim() {
    ws();
    if (i >= s.size()) bad("operand");
    if (op("(")) {
      if (op("if")) {
        Node c = disj();
        need("then");
        Node a = disj();
        need("else");
        Node b = disj();
        need(")");
        return app("ite", {c, a, b});
      }
      Node n = disj();
      need(")");
      return n;
    }
    if (op("[")) {  // an interval of neighbouring numbers: its lower end
      Node a = sum();
      need(",");
      Node b = sum();
      need("]");
      return app("interval", {a, b});
    }
    if (op("!")) return app("not", {prim()});
    if (op("-")) return app("-", {prim()});
    if (std::isdigit(s[i])) {
      char* e = nullptr;
      std::strtod(s.c_str() + i, &e);
      const size_t n = e - (s.c_str() + i);
      Node r = leaf(s.substr(i, n));
      i += n;
      return r;
    }
    std::string name;
    while (i < s.size() && (std::isalnum(s[i]) || s[i] == '_')) name += s[i++];
    if (name.empty()) bad("operand");
    if (name == "True") return leaf("true");
    if (name == "False") return leaf("false");
    if (i < s.size() && s[i] == '(') {
      ++i;
      std::vector<Node> a{disj()};
      while (op(",")) a.push_back(disj());
      need(")");
      return app(name, a);
    }
    return leaf(name);
  }
  Node prod() {
    Node a = prim();
    while (true) {
      if (op("*")) {
        a = app("*", {a, prim()});
      } else if (op("/")) {
        a = app("/", {a, prim()});
      } else {
        return a;
      }
    }
  }
  Node sum() {
    ws();
    Node a = op("- ") ? app("-", {prod()}) : prod();
    while (true) {
      if (op("+")) {
        a = app("+", {a, prod()});
      } else if (op("-")) {
        a = app("-", {a, prod()});
      } else {
        return a;
      }
    }
  }
  Node comp() {
    Node a = sum();
    for (const char* o : {"==", "!=", "<=", ">=", "<", ">"}) {
      if (op(o)) {
        const std::string t(o);
        return app(t == "==" ? "=" : t == "!=" ? "distinct" : t, {a, sum()});
      }
    }
    return a;
  }
  Node conj() {
    Node a = comp();
    while (op("and")) a = app("and", {a, comp()});
    return a;
  }
  Node disj() {
    Node a = conj();
    while (op("or")) a = app("or", {a, conj()});
    return a;
  }
};
inline Node parse(const std::string& s) {
  Reader r(s);
  Node n = r.disj();
  r.ws();
  if (r.i != s.size()) r.bad("end");
  return n;
}
}  // namespace infix
