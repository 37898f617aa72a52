// Replays behaviours of Boxes.tla in the real Box and FilterAssertion.
#include <cmath>
#include <limits>

#include "dreal/solver/filter_assertion.h"
#include "dreal/symbolic/symbolic.h"
#include "dreal/util/box.h"
#include "replay.h"
#include "sx.h"

using dreal::Box;
using dreal::Expression;
using dreal::FilterAssertionResult;
using dreal::Formula;
using dreal::Variable;
using replay::expect_eq;
using replay::fail;
using sx::Node;
using std::string;
using std::vector;

static const char kTypes[] = " RINRBI";
static vector<Variable> g_v;

static vector<Node> items(const Node& n) {
  vector<Node> r;
  if (!n.tag.empty()) {
    Node a;
    a.tag = n.tag;
    r.push_back(a);
  }
  r.insert(r.end(), n.args.begin(), n.args.end());
  return r;
}
static long ival(const Node& n) { return std::stol(n.tag); }

static double value(long n, long e, int v) {
  const double inf = std::numeric_limits<double>::infinity();
  double x = n / 64.0;
  if (n == 100000000) x = inf;
  if (n == -100000000) x = -inf;
  if (kTypes[v] == 'I' && n == 33554431) x = std::numeric_limits<int>::max();
  if (kTypes[v] == 'I' && n == -33554431) x = -std::numeric_limits<int>::max();
  for (; e > 0; --e) x = std::nextafter(x, inf);
  for (; e < 0; ++e) x = std::nextafter(x, -inf);
  return x;
}

struct Want {
  bool em{false};
  vector<int> vs;
  vector<std::pair<double, double>> iv;
  bool operator==(const Want& w) const {
    return em == w.em && vs == w.vs && (em || iv == w.iv);
  }
};
static Want want(const Node& n) {
  const auto it = items(n);  // r em vs iv
  Want w;
  w.em = ival(it.at(1)) != 0;
  for (const Node& a : items(it.at(2))) w.vs.push_back(ival(a));
  size_t k = 0;
  for (const Node& a : items(it.at(3))) {
    const auto b = items(a);
    const auto lo = items(b.at(0)), hi = items(b.at(1));
    const int v = w.vs.at(k++);
    w.iv.emplace_back(value(ival(lo[0]), ival(lo[1]), v),
                      value(ival(hi[0]), ival(hi[1]), v));
  }
  return w;
}

static void compare(const Want& w, const Box& b, const string& what) {
  ++replay::stats()["boxes"];
  expect_eq(static_cast<int>(w.vs.size()), b.size(), what + ": size");
  expect_eq(w.vs.size(), b.variables().size(), what + ": variables");
  expect_eq(w.em, b.empty(), what + ": empty");
  for (size_t k = 0; k < w.vs.size(); ++k) {
    const Variable& v = g_v[w.vs[k]];
    if (!b.variables()[k].equal_to(v)) fail(what + ": order of variables");
    if (!b.variable(k).equal_to(v)) fail(what + ": variable(i)");
    expect_eq(static_cast<int>(k), b.index(v), what + ": index");
    if (w.em) continue;
    expect_eq(w.iv[k].first, b[static_cast<int>(k)].lb(), what + ": lower");
    expect_eq(w.iv[k].second, b[static_cast<int>(k)].ub(), what + ": upper");
    if (!(b[v] == b[static_cast<int>(k)])) fail(what + ": [v] and [i] differ");
    if (!(b.interval_vector()[k] == b[v])) fail(what + ": interval_vector");
  }
  for (size_t v = 1; v < g_v.size(); ++v) {
    bool in = false;
    for (int x : w.vs) in = in || x == static_cast<int>(v);
    expect_eq(in, b.has_variable(g_v[v]), what + ": has_variable");
  }
}

static Formula rel(const string& o, const Expression& a, const Expression& b) {
  if (o == "lt") return a < b;
  if (o == "le") return a <= b;
  if (o == "eq") return a == b;
  if (o == "ne") return a != b;
  if (o == "ge") return a >= b;
  return a > b;
}

static void body(const vector<string>& ls) {
  const int nb = std::stoi(sx::words(ls.at(0)).at(1));
  g_v.clear();
  g_v.push_back(Variable{});
  for (int i = 1; i <= 6; ++i) {
    const char c = kTypes[i];
    g_v.push_back(Variable{"v" + std::to_string(i),
                           c == 'B'   ? Variable::Type::BOOLEAN
                           : c == 'I' ? Variable::Type::INTEGER
                           : c == 'N' ? Variable::Type::BINARY
                                      : Variable::Type::CONTINUOUS});
  }
  vector<Box> b(nb + 1);
  vector<Want> w(nb + 1);
  for (size_t l = 1; l < ls.size(); ++l) {
    const auto step = items(sx::parse(ls[l]));
    const auto op = items(step.at(0));
    const string t = op[0].tag;
    const string what = "step " + std::to_string(l) + " " + t;
    const auto a = [&](size_t i) { return ival(op.at(i)); };
    vector<int> changed;
    vector<Want> next = w;
    if (step.size() > 1) {
      for (const Node& n : items(step[1])) {
        const int r = ival(items(n)[0]);
        next.at(r) = want(n);
        changed.push_back(r);
      }
    }
    if (t == "skip") continue;
    if (t == "new") {
      vector<Variable> vs;
      for (const Node& n : items(op.at(2))) vs.push_back(g_v[ival(n)]);
      b[a(1)] = Box{vs};
    } else if (t == "add") {
      b[a(1)].Add(g_v[a(2)]);
    } else if (t == "addb") {
      b[a(1)].Add(g_v[a(2)], a(3) / 64.0, a(4) / 64.0);
    } else if (t == "copy") {
      if (l % 2) {
        b[a(2)] = b[a(1)];
      } else {
        Box c{b[a(1)]};
        b[a(2)] = std::move(c);
      }
    } else if (t == "set") {
      const Box::Interval iv{a(4) / 64.0, a(5) / 64.0};
      const int k = a(2) - 1;
      if (a(3)) {
        b[a(1)][g_v[w[a(1)].vs.at(k)]] = iv;
      } else {
        b[a(1)][k] = iv;
      }
    } else if (t == "empty") {
      b[a(1)].set_empty();
    } else if (t == "bisect") {
      const int r = a(1), k = a(2) - 1;
      const Variable& v = g_v[w[r].vs.at(k)];
      const auto p = a(3) ? b[r].bisect(v) : b[r].bisect(k);
      // The halves: where exactly to split is not part of the property.
      const auto o = w[r].iv.at(k);
      const auto& x = p.first[k];
      const auto& y = p.second[k];
      const bool I = v.get_type() != Variable::Type::CONTINUOUS;
      if (x.lb() != o.first || y.ub() != o.second) fail(what + ": outer bounds");
      if (I ? y.lb() != x.ub() + 1 : y.lb() != x.ub()) {
        fail(what + ": the halves do not share exactly the boundary");
      }
      if (x.ub() < o.first || y.lb() > o.second || !(x.ub() < o.second) ||
          !(y.lb() > o.first)) {
        fail(what + ": a half is not smaller");
      }
      compare(w[r], b[r], what + ": the bisected box");
      b[a(4)] = p.first;
      b[a(5)] = p.second;
      for (int e = 4; e < 6; ++e) {
        const auto& iv = next[a(e)].iv.at(k);
        b[a(e)][k] = Box::Interval{iv.first, iv.second};
      }
    } else if (t == "union") {
      Box& res = b[a(1)].InplaceUnion(b[a(2)]);
      if (&res != &b[a(1)]) fail(what + ": not itself returned");
    } else if (t == "diam") {
      const auto p = b[a(1)].MaxDiam();
      expect_eq(a(2) / 64.0, p.first, what + ": width");
      expect_eq(static_cast<int>(a(3)) - 1, p.second, what + ": dimension");
    } else if (t == "other") {
      Box c{b[a(1)]};
      const Expression x{g_v[1]}, y{g_v[4]};
      const Variable bv{"b", Variable::Type::BOOLEAN};
      c = b[a(1)];
      for (int v : {1, 4}) {
        if (!c.has_variable(g_v[v])) c.Add(g_v[v], -1, 1);
      }
      const Box d{c};
      const Formula f = a(2) == 0   ? Formula{bv}
                        : a(2) == 1 ? x + y >= 1
                        : a(2) == 2 ? !(x * y > 1)
                        : a(2) == 3 ? (x >= 1 || y <= -1)
                        : a(2) == 4 ? !Formula{bv}
                                    : dreal::forall({g_v[4]}, x + y > 0);
      if (FilterAssertion(f, &c) != FilterAssertionResult::NotFiltered) {
        fail(what + ": dropped a constraint which the box does not express");
      }
      if (!(c == d)) fail(what + ": the box changed");
    } else if (t == "filter") {
      const int r = a(1), k = a(2) - 1;
      const Expression v{g_v[w[r].vs.at(k)]};
      const Expression c =
          a(7) == 0 ? Expression{a(6) / 64.0}
                    : dreal::drake::symbolic::real_constant(
                          value(a(6), a(7) == 1 ? 0 : -1, 1),
                          value(a(6), a(7) == 1 ? 1 : 0, 1), l % 2);
      Formula f = a(4) == 1 ? rel(op[3].tag, c, v) : rel(op[3].tag, v, c);
      if (a(5)) f = !f;
      const Want& o = w[r];
      const Want& n = next[r];
      const auto res = FilterAssertion(f, &b[r]);
      std::ostringstream s;
      s << what << " " << f << " on [" << o.iv[k].first << ", "
        << o.iv[k].second << "]";
      const bool ne = op.at(8).tag == "ne";
      const auto hull = n.iv.at(k);
      if (!n.em || ne) {
        if (b[r].empty()) fail(s.str() + ": solutions lost (empty box)");
        const auto& iv = b[r][k];
        if (iv.lb() > hull.first || iv.ub() < hull.second) {
          fail(s.str() + ": solutions lost");
        }
        if (iv.lb() < o.iv[k].first || iv.ub() > o.iv[k].second) {
          fail(s.str() + ": the box grew");
        }
      }
      if (res != FilterAssertionResult::NotFiltered) {
        if (ne) fail(s.str() + ": dropped though the box does not express it");
        if (n.em != b[r].empty() ||
            (!n.em && (b[r][k].lb() != hull.first ||
                       b[r][k].ub() != hull.second))) {
          fail(s.str() + ": dropped but the box has other points");
        }
      }
      if (res == FilterAssertionResult::FilteredWithoutChange && !(n == o)) {
        fail(s.str() + ": change not reported");
      }
      ++replay::stats()["filtered"];
      if (n.em) {
        b[r].set_empty();
      } else if (!b[r].empty()) {
        b[r][k] = Box::Interval{hull.first, hull.second};
      }
    } else {
      throw std::runtime_error("op " + t);
    }
    w = next;
    for (int r = 1; r <= nb; ++r) {
      compare(w[r], b[r], what + ": box " + std::to_string(r));
      for (int q = 1; q <= nb; ++q) {
        if (w[r].vs == w[q].vs && !w[r].vs.empty()) {
          expect_eq(w[r] == w[q], b[r] == b[q], what + ": equality");
          expect_eq(!(w[r] == w[q]), b[r] != b[q], what + ": inequality");
        }
      }
    }
  }
}

int main() { return replay::run(body); }
