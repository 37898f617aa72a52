// S-expressions in which specification terms reach the harnesses.
#pragma once
#include <string>
#include <vector>

#include "replay.h"

namespace sx {
struct Node {
  std::string tag;         // atom text, or the head of a list
  std::vector<Node> args;  // rest of a list
  bool list{false};
  long num(size_t i) const { return std::stol(args.at(i).tag); }
};
inline Node parse(const std::vector<std::string>& w, size_t* i) {
  Node n;
  if (*i >= w.size()) throw std::runtime_error("short expression");
  if (w[*i] != "(") {
    n.tag = w[(*i)++];
    return n;
  }
  ++*i;
  n.list = true;
  bool first = true;
  while (w.at(*i) != ")") {
    Node c = parse(w, i);
    if (first && !c.list) {
      n.tag = c.tag;
    } else {
      n.args.push_back(c);
    }
    first = false;
  }
  ++*i;
  return n;
}
inline std::vector<std::string> words(const std::string& s) {
  std::istringstream is(s);
  std::vector<std::string> w;
  std::string x;
  while (is >> x) w.push_back(x);
  return w;
}
inline Node parse(const std::string& s) {
  const auto w = words(s);
  size_t i = 0;
  return parse(w, &i);
}
}  // namespace sx

// Translated integers: the number which the specification calls 0.
static inline double origin_of(char type) {
  return type == 'J' ? 3e9 : type == 'K' ? -5e10 : 0;
}
