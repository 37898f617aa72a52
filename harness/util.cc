// Replays behaviours of Options.tla, VarSets.tla, Smt2Values.tla, Guards.tla
// and the cases of Conv.tla in the real code.
#include <atomic>
#include <cfenv>
#include <cmath>
#include <csignal>
#include <limits>
#include <memory>
#include <set>

#include "replay.h"
#include "infix.h"
#include "sexpr.h"

#include "dreal/smt2/command.h"
#include "dreal/smt2/logic.h"
#include "dreal/smt2/sort.h"
#include "dreal/smt2/term.h"
#include "dreal/symbolic/symbolic.h"
#include "dreal/util/math.h"
#include "dreal/util/option_value.h"
#include "dreal/util/precision_guard.h"
#include "dreal/util/rounding_mode_guard.h"
#include "dreal/symbolic/prefix_printer.h"
#include "dreal/util/signal_handler_guard.h"

using dreal::Environment;
using dreal::Expression;
using dreal::Formula;
using dreal::Term;
using dreal::Variable;
using dreal::Variables;
using replay::expect_eq;
using replay::fail;
using std::string;
using std::vector;

namespace {
using Line = vector<string>;
vector<Line> parse(const vector<string>& ls) {
  vector<Line> r;
  for (const string& s : ls) {
    std::istringstream i(s);
    Line l;
    string w;
    while (i >> w) l.push_back(w);
    r.push_back(l);
  }
  return r;
}
int num(const Line& l, size_t k) { return std::stoi(l.at(k)); }
string at(size_t step, const Line& l) {
  std::ostringstream o;
  o << "step " << step << " (";
  for (size_t i = 0; i < l.size() && i < 5; ++i) o << (i ? " " : "") << l[i];
  o << ")";
  return o.str();
}

// ------------------------------------------------------------------ options
template <class T>
T value(int v);
template <>
double value<double>(int v) { return 0.5 * v; }
template <>
int value<int>(int v) { return v; }
template <>
string value<string>(int v) { return string(40, 'a' + v); }
template <>
vector<int> value<vector<int>>(int v) { return vector<int>(v, v); }

template <class T>
void options(const vector<Line>& ls) {
  using O = dreal::OptionValue<T>;
  const size_t no = num(ls[0], 2);
  vector<std::unique_ptr<O>> o;
  for (size_t i = 0; i < no; ++i) o.emplace_back(new O(value<T>(1)));
  for (size_t s = 1; s < ls.size(); ++s) {
    const Line& l = ls[s];
    const string& nm = l[0];
    const int i = num(l, 1) - 1, j = num(l, 2) - 1;
    const T v = value<T>(num(l, 3));
    if (nm == "file") {
      o[i]->set_from_file(v);
    } else if (nm == "cmd") {
      o[i]->set_from_command_line(v);
    } else if (nm == "code") {
      *o[i] = v;
    } else if (nm == "codemove") {
      T w{v};
      *o[i] = std::move(w);
    } else if (nm == "new") {
      o[i].reset(new O(v));
    } else if (nm == "copy") {
      *o[i] = *o[j];
    } else if (nm == "copynew") {
      o[i].reset(new O(*o[j]));
    } else if (nm == "move" || nm == "movenew") {
      if (i != j) {
        if (nm == "move") {
          *o[i] = std::move(*o[j]);
        } else {
          o[i].reset(new O(std::move(*o[j])));
        }
        o[j].reset(new O(v));
      }
    } else {
      fail("unknown operation " + nm);
    }
    for (size_t k = 0; k < no; ++k) {
      const int want = num(l, 4 + k);
      if (!(o[k]->get() == value<T>(want))) {
        fail(at(s, l) + ": option " + std::to_string(k + 1) +
             " should have value #" + l[4 + k]);
      }
      replay::stats()["values"]++;
    }
  }
}

// ----------------------------------------------------------------- var sets
void varsets(const vector<Line>& ls) {
  const size_t ns = num(ls[0], 1), ne = num(ls[0], 2), nv = num(ls[0], 3);
  const unsigned seed = num(ls[0], 4);
  const int kNone = -99999;
  vector<Variable> vs(nv);
  vector<string> names(nv);
  const Variable::Type types[] = {
      Variable::Type::CONTINUOUS, Variable::Type::INTEGER,
      Variable::Type::BINARY, Variable::Type::BOOLEAN};
  for (size_t k = 0; k < nv; ++k) {  // creation order differs from the index
    const size_t i = (k * (seed % 2 ? nv - 1 : 1) + seed) % nv;
    names[i] = seed % 3 == 0 ? "same" : "v" + std::to_string(k);
    vs[i] = Variable(names[i], types[(i + seed) % 4]);
  }
  const Variable dummy;
  vector<Variables> S(ns);
  vector<Environment> E(ne);
  unsigned alt = seed;
  for (size_t s = 1; s < ls.size(); ++s) {
    const Line& l = ls[s];
    const string& nm = l[0];
    const int a = num(l, 1) - 1, b = num(l, 2) - 1;
    const int c = num(l, 3);
    const int want = num(l, 4);
    int got = 0;
    ++alt;
    const bool x = (alt * 2654435761u >> 13) % 2;
    if (nm == "sinsert") {
      if (x) {
        S[a].insert(vs[b]);
      } else {
        S[a] += vs[b];
      }
    } else if (nm == "serase") {
      got = S[a].erase(vs[b]);
    } else if (nm == "sinserts") {
      if (x && a != b) {
        S[a].insert(S[b].begin(), S[b].end());
      } else {
        S[a].insert(S[b]);
      }
    } else if (nm == "serases") {
      got = S[a].erase(S[b]);
    } else if (nm == "plus") {
      S[c - 1] = S[a] + S[b];
    } else if (nm == "minus") {
      S[c - 1] = S[a] - S[b];
    } else if (nm == "pluseq") {
      S[a] += S[b];
    } else if (nm == "minuseq") {
      S[a] -= S[b];
    } else if (nm == "plusv") {
      S[c - 1] = x ? S[a] + vs[b] : vs[b] + S[a];
    } else if (nm == "minusv") {
      if (x || a != c - 1) {
        S[c - 1] = S[a] - vs[b];
      } else {
        S[a] -= vs[b];
      }
    } else if (nm == "inter") {
      S[c - 1] = intersect(S[a], S[b]);
    } else if (nm == "slist") {
      S[a] = Variables{vs[b], vs[(b + 1) % nv], vs[b]};
    } else if (nm == "scopy") {
      if (x) {
        S[a] = S[b];
      } else {
        Variables t{S[b]};
        S[a] = t;
      }
    } else if (nm == "smove") {
      if (a != b) {
        S[a] = std::move(S[b]);
        S[b] = Variables();
      }
    } else if (nm == "domain") {
      S[a] = E[b].domain();
    } else if (nm == "include") {
      got = S[a].include(vs[b]);
    } else if (nm == "rel") {
      const Variables &p = S[a], &q = S[b];
      got = p.IsSubsetOf(q) + 2 * p.IsSupersetOf(q) + 4 * p.IsStrictSubsetOf(q) +
            8 * p.IsStrictSupersetOf(q) + 16 * (p == q) +
            32 * dreal::HaveIntersection(p, q);
      if (p == q) expect_eq(p.get_hash(), q.get_hash(), at(s, l) + " hash");
      expect_eq(1, (p < q) + (q < p) + (p == q), at(s, l) + " trichotomy");
      for (const Variables& r : S) {
        if (p < q && q < r && !(p < r)) fail(at(s, l) + " transitivity");
      }
      if (intersect(p, q).empty() != !(got & 32)) fail(at(s, l) + " intersect");
    } else if (nm[0] == 'e' && (nm == "einsert" || nm == "einsertnan" ||
                                nm == "eset" || nm == "eget" ||
                                nm == "etouch" || nm == "einit" ||
                                nm == "evars")) {
      const Variable& v = b < 0 ? dummy : vs[b];
      try {
        if (nm == "einsert") {
          E[a].insert(v, c);
        } else if (nm == "einsertnan") {
          if (x) {
            E[a].insert(v, std::numeric_limits<double>::quiet_NaN());
          } else {
            Environment t{{v, std::nan("")}};
            E[a] = t;
          }
        } else if (nm == "eset") {
          E[a][v] = c;
        } else if (nm == "einit") {
          const Variable& u = vs[(b + 1) % nv];
          const double d = c;
          if (nv == 1) {
            E[a] = Environment{{v, d}, {v, d + 3}};
          } else if (x) {
            E[a] = Environment{{v, d}, {u, d + 1}, {v, d + 3}};
          } else {
            E[a] = Environment{{u, d + 1}, {v, d}, {v, d + 3}, {u, d + 5}};
          }
        } else if (nm == "evars") {
          E[a] = Environment{v, vs[(b + 1) % nv], v};
        } else if (nm == "etouch") {
          const double d = E[a][v];
          (void)d;
        } else {
          const Environment& e = E[a];
          const double d = e[v];
          got = static_cast<int>(d);
          if (d != got) fail(at(s, l) + " value");
          if (e.find(v) == e.end() || e.find(v)->second != d) {
            fail(at(s, l) + " find");
          }
          if (num(l, 5 + ns + a * nv + b) == kNone) {
            fail(at(s, l) + ": a missing variable is given a value");
          }
        }
      } catch (const std::runtime_error&) {
        got = -1;
        if (nm == "eget" && b >= 0 &&
            num(l, 5 + ns + a * nv + b) != kNone) {
          fail(at(s, l) + ": a known variable is refused");
        }
      }
    } else if (nm == "ecopy") {
      if (x) {
        E[a] = E[b];
      } else {
        Environment::map m{E[b].begin(), E[b].end()};
        E[a] = Environment(m);
      }
    } else if (nm == "emove") {
      if (a != b) {
        E[a] = std::move(E[b]);
        E[b] = Environment();
      }
    } else if (nm == "edom") {
      const Variables d = E[a].domain();
      for (size_t k = 0; k < nv; ++k) got += d.include(vs[k]) << k;
      int n = 0;
      for (size_t k = 0; k < nv; ++k) n += (got >> k) & 1;
      expect_eq(static_cast<size_t>(n), d.size(), at(s, l) + " domain size");
    } else if (nm == "esize") {
      got = E[a].size();
      expect_eq(got == 0, E[a].empty(), at(s, l) + " empty");
    } else {
      fail("unknown operation " + nm);
    }
    expect_eq(want, got, at(s, l) + " result");
    for (size_t k = 0; k < ns; ++k) {
      const int m = num(l, 5 + k);
      const string w = at(s, l) + " set " + std::to_string(k + 1);
      size_t n = 0;
      for (size_t v = 0; v < nv; ++v) {
        expect_eq(static_cast<bool>(m >> v & 1), S[k].include(vs[v]),
                  w + " holds variable " + std::to_string(v + 1));
        if ((S[k].find(vs[v]) != S[k].end()) != static_cast<bool>(m >> v & 1)) {
          fail(w + " find");
        }
        n += m >> v & 1;
      }
      expect_eq(n, S[k].size(), w + " size");
      expect_eq(n == 0, S[k].empty(), w + " empty");
      string txt = "{";
      const Variable* prev = nullptr;
      for (const Variable& v : S[k]) {
        if (prev && !prev->less(v)) fail(w + " iteration order");
        if (prev) txt += ", ";
        txt += v.get_name();
        prev = &v;
      }
      expect_eq(txt + "}", S[k].to_string(), w + " text");
    }
    for (size_t k = 0; k < ne; ++k) {
      size_t n = 0;
      for (size_t v = 0; v < nv; ++v) {
        const int m = num(l, 5 + ns + k * nv + v);
        const string w = at(s, l) + " environment " + std::to_string(k + 1) +
                         " variable " + std::to_string(v + 1);
        const auto it = E[k].find(vs[v]);
        expect_eq(m != kNone, it != E[k].end(), w);
        if (m != kNone) {
          ++n;
          expect_eq(static_cast<double>(m), it->second, w);
        }
      }
      expect_eq(n, E[k].size(), at(s, l) + " environment size");
    }
    replay::stats()["steps"]++;
  }
  std::set<Variable::Id> ids;
  for (size_t k = 0; k < nv; ++k) {
    expect_eq(names[k], vs[k].get_name(), "variable name");
    if (vs[k].get_type() != types[(k + seed) % 4]) fail("variable type");
    if (vs[k].is_dummy()) fail("a variable is the dummy one");
    ids.insert(vs[k].get_id());
    const Variable copy{vs[k]};
    if (!copy.equal_to(vs[k]) || copy.get_hash() != vs[k].get_hash() ||
        copy.less(vs[k])) {
      fail("copy of a variable");
    }
  }
  expect_eq(nv, ids.size(), "distinct identifiers");
  if (!dummy.is_dummy()) fail("dummy");
}

// -------------------------------------------------------------- smt2 values
const int kPts[6][2] = {{-2, 0}, {0, 1}, {3, 0}, {1, 1}, {-1, 1}, {2, 0}};

void terms(const vector<Line>& ls) {
  const size_t nt = num(ls[0], 1);
  const Variable::Type ty =
      num(ls[0], 2) % 3 == 0   ? Variable::Type::CONTINUOUS
      : num(ls[0], 2) % 3 == 1 ? Variable::Type::INTEGER
                               : Variable::Type::BINARY;
  const Variable x{"x", ty}, p{"p", Variable::Type::BOOLEAN};
  vector<Term> r(nt);
  for (size_t s = 1; s < ls.size(); ++s) {
    const Line& l = ls[s];
    const string& nm = l[0];
    const int i = num(l, 1) - 1, j = num(l, 2) - 1, a = num(l, 3),
              b = num(l, 4);
    const int want = num(l, 5);
    const Expression lin = a * Expression(x) + b;
    int got = 0;
    try {
      if (nm == "newE") {
        r[i] = Term{lin};
      } else if (nm == "setE") {
        r[i] = lin;
      } else if (nm == "mutE") {
        r[i].mutable_expression() = lin;
      } else if (nm == "newP") {
        r[i] = Term{Formula(p)};
      } else if (nm == "setP") {
        r[i] = Formula(p);
      } else if (nm == "mutP") {
        r[i].mutable_formula() = Formula(p);
      } else if (nm == "default") {
        r[i] = Term();
      } else if (nm == "copy") {
        r[i] = r[j];
      } else if (nm == "copynew") {
        Term t{r[j]};
        r[i] = std::move(t);
      } else if (nm == "le") {
        r[i] = Term{r[j].expression() <= 3};
      } else if (nm == "not") {
        r[i] = Term{!r[j].formula()};
      } else if (nm == "add") {
        r[i] = Term{r[j].expression() + lin};
      } else if (nm == "and") {
        r[i] = Term{r[j].formula() && r[b - 1].formula()};
      } else if (nm == "ite") {
        r[i] = Term{if_then_else(r[j].formula(), r[i].expression(), lin)};
      } else if (nm == "type") {
        got = r[i].type() == Term::Type::EXPRESSION;
      } else if (nm == "sort" || nm == "vtype") {
        try {
          if (nm == "sort") {
            const dreal::Sort q[] = {dreal::Sort::Binary, dreal::Sort::Bool,
                                     dreal::Sort::Int, dreal::Sort::Real};
            r[i].Check(q[a]);
          } else {
            const Variable::Type q[] = {
                Variable::Type::BINARY, Variable::Type::BOOLEAN,
                Variable::Type::INTEGER, Variable::Type::CONTINUOUS};
            r[i].Check(q[a]);
          }
          got = 1;
        } catch (const std::runtime_error&) {
          got = 0;
        }
      } else if (nm == "subx") {
        r[i] = r[j].Substitute(x, Term{lin});
      } else if (nm == "subp") {
        r[i] = r[j].Substitute(p, r[a - 1]);
      } else if (nm != "noop") {
        fail("unknown operation " + nm);
      }
    } catch (const replay::Divergence&) {
      throw;
    } catch (const std::runtime_error&) {
      got = -1;
    }
    expect_eq(want, got, at(s, l) + " result");
    for (size_t k = 0; k < nt; ++k) {
      const string w = at(s, l) + " term " + std::to_string(k + 1);
      const bool is_e = num(l, 6 + 7 * k);
      expect_eq(is_e, r[k].type() == Term::Type::EXPRESSION, w + " type");
      bool refused = false;
      try {
        if (is_e) {
          r[k].formula();
        } else {
          r[k].expression();
        }
      } catch (const std::runtime_error&) {
        refused = true;
      }
      if (!refused) fail(w + ": the wrong kind of value is handed out");
      std::ostringstream o1, o2;
      o1 << r[k];
      if (is_e) {
        o2 << r[k].expression();
      } else {
        o2 << r[k].formula();
      }
      expect_eq(o2.str(), o1.str(), w + " text");
      for (int q = 0; q < 6; ++q) {
        Environment env;
        env.insert(x, kPts[q][0]);
        env.insert(p, kPts[q][1]);
        const double v = is_e ? r[k].expression().Evaluate(env)
                              : r[k].formula().Evaluate(env);
        expect_eq(static_cast<double>(num(l, 6 + 7 * k + 1 + q)), v,
                  w + " at point " + std::to_string(q + 1));
      }
      replay::stats()["terms"]++;
    }
  }
}

// One name: <sort index> <logic index> <name in brackets>
void names(const vector<string>& raw) {
  using dreal::Logic;
  using dreal::Sort;
  const Sort sorts[] = {Sort::Binary, Sort::Bool, Sort::Int, Sort::Real};
  const Variable::Type types[] = {
      Variable::Type::BINARY, Variable::Type::BOOLEAN, Variable::Type::INTEGER,
      Variable::Type::CONTINUOUS};
  const Logic logics[] = {Logic::ALL,      Logic::QF_LIA, Logic::QF_LIRA,
                          Logic::QF_LRA,   Logic::QF_NIA, Logic::QF_NIAT,
                          Logic::QF_NIRA,  Logic::QF_NIRAT, Logic::QF_NRA,
                          Logic::QF_NRAT,  Logic::QF_RDL};
  for (size_t k = 1; k < raw.size(); ++k) {
    std::istringstream in(raw[k]);
    int ws, wl;
    in >> ws >> wl;
    const string nm =
        raw[k].substr(raw[k].find('[') + 1,
                      raw[k].rfind(']') - raw[k].find('[') - 1);
    int gs = 0, gl = 0;
    try {
      const Sort so = dreal::ParseSort(nm);
      for (int i = 0; i < 4; ++i) {
        if (sorts[i] == so) {
          gs = i + 1;
          if (dreal::SortToType(so) != types[i]) fail(nm + ": variable type");
        }
      }
      std::ostringstream o;
      o << so;
      expect_eq(nm, o.str(), "sort prints back");
    } catch (const replay::Divergence&) {
      throw;
    } catch (const std::runtime_error&) {
    }
    try {
      const Logic lo = dreal::parse_logic(nm);
      for (int i = 0; i < 11; ++i) {
        if (logics[i] == lo) gl = i + 1;
      }
      std::ostringstream o;
      o << lo;
      expect_eq(nm, o.str(), "logic prints back");
    } catch (const replay::Divergence&) {
      throw;
    } catch (const std::runtime_error&) {
    }
    expect_eq(ws, gs, "sort named [" + nm + "]");
    expect_eq(wl, gl, "logic named [" + nm + "]");
    replay::stats()["names"]++;
  }
}

// One command: <number> <text>
void commands(const vector<string>& raw) {
  for (size_t k = 1; k < raw.size(); ++k) {
    const size_t sp = raw[k].find(' ');
    const int v = std::stoi(raw[k].substr(0, sp));
    const string text = raw[k].substr(sp + 1);
    std::istringstream in(text.substr(1, text.size() - 2));
    string nm, a, b;
    in >> nm >> a >> b;
    std::ostringstream o;
    if (nm == "check-sat") {
      o << dreal::check_sat_command();
    } else if (nm == "exit") {
      o << dreal::exit_command();
    } else if (nm == "reset") {
      o << dreal::reset_command();
    } else if (nm == "push") {
      o << dreal::push_command(v);
    } else if (nm == "pop") {
      o << dreal::pop_command(v);
    } else if (nm == "set-logic") {
      o << dreal::set_logic_command(dreal::parse_logic(a));
    } else if (nm == "set-option") {
      o << dreal::set_option_command(a, b);
    } else if (nm == "set-info") {
      o << dreal::set_info_command(a, b);
    } else {
      fail("unknown command " + nm);
    }
    expect_eq(text, o.str(), "command text");
    // The command keeps its own copy of what it was given.
    Variable x{"x"};
    Formula f = Expression(x) > 1;
    const string ft = f.to_string();
    dreal::Command c = dreal::assert_command(f);
    f = f && (Expression(x) < 5);
    dreal::Command d{c};
    std::ostringstream o2, o3;
    o2 << c;
    o3 << d;
    expect_eq("(assert " + ft + ")", o2.str(), "assert command");
    expect_eq(o2.str(), o3.str(), "copied command");
    replay::stats()["commands"]++;
  }
}

// ------------------------------------------------------------------- guards
struct Leave {};
const int kModes[4] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
const int kSignals[2] = {SIGUSR1, SIGUSR2};
volatile std::atomic_bool flags[2];
volatile int last_handler[2];
void ran(int h, int sig) {
  const int k = sig == SIGUSR1 ? 0 : 1;
  flags[k] = true;
  last_handler[k] = h;
}
void h1(int s) { ran(1, s); }
void h2(int s) { ran(2, s); }
void h3(int s) { ran(3, s); }
void (*const kHandlers[4])(int) = {SIG_IGN, h1, h2, h3};

// The setting with handler h % 4; with flags and a mask of its own if h >= 4.
struct sigaction make_action(int h) {
  struct sigaction sa {};
  sa.sa_handler = kHandlers[h % 4];
  sigemptyset(&sa.sa_mask);
  sa.sa_flags = h < 4 ? SA_RESTART : SA_NODEFER;
  if (h >= 4) sigaddset(&sa.sa_mask, SIGWINCH);
  return sa;
}
// Flags, and the members of the mask (as bits, after a leading one).
std::pair<int, unsigned long> attributes(const struct sigaction& sa) {
  unsigned long m = 1ul << 63;
  for (int g = 1; g < 32; ++g) {
    if (sigismember(&sa.sa_mask, g) == 1) m |= 1ul << g;
  }
  // SA_RESTORER is the C library's business.
  return {sa.sa_flags & (SA_RESTART | SA_NODEFER | SA_SIGINFO | SA_RESETHAND |
                         SA_NOCLDSTOP | SA_ONSTACK),
          m};
}
std::pair<int, unsigned long> of_guard[2];

struct GuardRun {
  const vector<Line>& ls;
  size_t no, ng;
  vector<std::unique_ptr<std::ostringstream>> os;
  size_t pos{1};

  void observe(size_t s) {
    const Line& l = ls[s];
    const int mode = fegetround();
    const int want = num(l, 3);
    const string w = at(s, l);
    // Compare with the arithmetic really done, too.
    volatile double one = 1.0, ten = 10.0;
    const double q = one / ten, nq = -one / ten;
    fesetround(FE_TONEAREST);
    expect_eq(kModes[want], mode, w + " rounding mode");
    const bool up = q == 0.1, nup = nq == -0.1;  // 0.1 is rounded upwards
    expect_eq(want == 0 || want == 2, up, w + " rounding of 1/10");
    expect_eq(want == 0 || want == 1, nup, w + " rounding of -1/10");
    fesetround(mode);
    for (size_t k = 0; k < no; ++k) {
      expect_eq(static_cast<std::streamsize>(num(l, 4 + k)),
                os[k]->precision(), w + " precision");
    }
    for (size_t k = 0; k < ng; ++k) {
      struct sigaction sa {};
      sigaction(kSignals[k], nullptr, &sa);
      const int h = num(l, 4 + no + k);
      expect_eq(true, kHandlers[h % 4] == sa.sa_handler,
                w + " handler of signal " + std::to_string(k + 1));
      const auto attr = attributes(sa);
      if (h >= 8 && !of_guard[k].second) of_guard[k] = attr;
      const auto wa = h >= 8 ? of_guard[k]
                      : attributes(make_action(h));
      expect_eq(wa.first, attr.first,
                w + " flags of signal " + std::to_string(k + 1));
      expect_eq(wa.second, attr.second,
                w + " mask of signal " + std::to_string(k + 1));
      const int f = num(l, 4 + no + ng + k);
      expect_eq(f != 0, static_cast<bool>(flags[k]),
                w + " flag of signal " + std::to_string(k + 1));
      if (f) expect_eq(f, static_cast<int>(last_handler[k]), w + " handler run");
    }
    replay::stats()["steps"]++;
  }

  // Runs until the scope ends; throws Leave if it is to end by an exception.
  void scope(bool top) {
    while (pos < ls.size()) {
      const size_t s = pos++;
      const Line& l = ls[s];
      const string& nm = l[0];
      const int i = num(l, 1) - 1, v = num(l, 2);
      if (nm == "end") {
        if (top) fail("bad case");
        return;
      } else if (nm == "endthrow") {
        throw Leave();
      } else if (nm == "ground" || nm == "gprec" || nm == "gsig") {
        try {
          if (nm == "ground") {
            dreal::RoundingModeGuard g(kModes[v]);
            observe(s);
            scope(false);
          } else if (nm == "gprec") {
            if (v == 17) {
              dreal::PrecisionGuard g(os[i].get());
              observe(s);
              scope(false);
            } else {
              dreal::PrecisionGuard g(os[i].get(), v);
              observe(s);
              scope(false);
            }
          } else {
            dreal::SignalHandlerGuard g(kSignals[i], kHandlers[v], &flags[i]);
            observe(s);
            scope(false);
          }
        } catch (const Leave&) {
        }
        if (pos <= ls.size() && ls[pos - 1][0].compare(0, 3, "end") == 0 &&
            !closed.count(pos - 1)) {
          closed.insert(pos - 1);
          observe(pos - 1);
        }
        continue;
      } else if (nm == "setround") {
        fesetround(kModes[v]);
      } else if (nm == "setprec") {
        os[i]->precision(v);
      } else if (nm == "setsig") {
        const struct sigaction sa = make_action(v);
        sigaction(kSignals[i], &sa, nullptr);
      } else if (nm == "raise") {
        raise(kSignals[i]);
      } else {
        fail("unknown operation " + nm);
      }
      observe(s);
    }
  }
  std::set<size_t> closed;
};

void guards(const vector<Line>& ls) {
  GuardRun r{ls, static_cast<size_t>(num(ls[0], 1)),
             static_cast<size_t>(num(ls[0], 2)), {}, 1, {}};
  for (size_t k = 0; k < r.no; ++k) {
    r.os.emplace_back(new std::ostringstream);
    r.os.back()->precision(6);
  }
  fesetround(FE_TONEAREST);
  for (int k = 0; k < 2; ++k) {
    const struct sigaction sa = make_action(0);
    sigaction(kSignals[k], &sa, nullptr);
    of_guard[k] = {0, 0};
    flags[k] = false;
  }
  try {
    r.scope(true);
  } catch (...) {
    fesetround(FE_TONEAREST);
    throw;
  }
  fesetround(FE_TONEAREST);
}

// ----------------------------------------------------------------- numerals
void numerals(const vector<Line>& ls, bool infix) {
  const Variable x{"x"}, y{"y"};
  for (size_t k = 1; k < ls.size(); ++k) {
    const Line& l = ls[k];
    const double m = num(l, 1) * 134217728.0 + num(l, 2);
    const double v = num(l, 0) * std::ldexp(m, num(l, 3));
    const int pos = num(l, 4);
    const string w = at(k, l);
    Expression e;
    Formula f;
    double px = 1, py = 1, want = v;
    bool value = true;  // compare the value at (px, py) with want
    switch (pos) {
      case 0: e = v; break;
      case 1: e = x + v; px = 0; break;
      case 2: e = v * x + y; py = 0; break;
      case 3: e = v * (x * y); break;
      case 4: e = pow(x, v); want = 1; break;
      case 5: e = sin(v * x); value = false; break;
      case 6: f = Formula{x <= v}; want = 1 <= v; break;
      case 7: e = if_then_else(x <= v, v, v * x + 0 * y); break;
      case 8:
        if (std::isinf(std::nextafter(v, HUGE_VAL))) continue;
        e = dreal::drake::symbolic::real_constant(
            v, std::nextafter(v, HUGE_VAL), true);
        value = false;
        break;
      case 9: e = v / x; break;
      default: f = !Formula{v == x} || Formula{y >= v};
        want = 1 != v || 1 >= v; break;
    }
    std::ostringstream os;
    os.precision(infix ? 17 : 3);
    if (infix) {
      if (pos == 8) continue;  // an interval has no infix numeral
      if (pos == 6 || pos == 10) {
        os << f;
      } else {
        os << e;
      }
    } else {
      dreal::PrefixPrinter pp{os};
      if (pos == 6 || pos == 10) {
        pp.Print(f);
      } else {
        pp.Print(e);
      }
    }
    expect_eq(std::streamsize{infix ? 17 : 3}, os.precision(), w + " precision");
    const string txt = os.str();
    try {
      const sexpr::Node n = infix ? infix::parse(txt) : sexpr::parse(txt);
      vector<double> nums;
      sexpr::numerals(n, &nums);
      const bool fixed = pos == 4 && v == 1;  // pow(x, 1) is x
      bool has = fixed || std::fabs(v) == 1;
      for (const double d : nums) {
        has = has || d == std::fabs(v);
        // An interval between neighbours may be printed as either.
        has = has || (pos == 8 && d == std::fabs(std::nextafter(v, HUGE_VAL)));
      }
      if (!has) fail(w + ": " + txt + " does not have the number");
      if (value) {
        const double got = sexpr::eval(n, {{"x", px}, {"y", py}});
        if (got != want) fail(w + ": " + txt + " is read as another number");
      }
    } catch (const replay::Divergence&) {
      throw;
    } catch (const std::exception& ex) {
      fail(w + ": " + txt + " cannot be read back: " + ex.what());
    }
    replay::stats()["numerals"]++;
  }
}

// -------------------------------------------------------------- conversions
void conv(const vector<Line>& ls) {
  for (size_t s = 1; s < ls.size(); ++s) {
    const Line& l = ls[s];
    const int sg = num(l, 0), p = num(l, 1), d = num(l, 2), q = num(l, 3);
    const __int128 big =
        (p < 0 ? __int128(0) : (__int128(1) << p)) + __int128(d);
    const int64_t v = static_cast<int64_t>(sg * big);
    const string w = "value " + std::to_string(v);
    bool ok = false;
    int got = 0;
    try {
      got = dreal::convert_int64_to_int(v);
      ok = true;
    } catch (const std::runtime_error&) {
    }
    expect_eq(num(l, 4) == 1, ok, w + " fits int");
    if (ok) expect_eq(v, static_cast<int64_t>(got), w + " as int");
    ok = false;
    double dv = 0;
    try {
      dv = dreal::convert_int64_to_double(v);
      ok = true;
    } catch (const std::runtime_error&) {
    }
    if (num(l, 5) == 1 && !ok) fail(w + ": refused as double");
    if (ok && (std::fabs(dv) > 9.3e18 || static_cast<__int128>(dv) != v)) {
      fail(w + ": not exact as double");
    }
    const double h = static_cast<double>(v) / (q ? 2 : 1);
    expect_eq(num(l, 6) == 1, dreal::is_integer(h),
              "is_integer(" + std::to_string(h) + ")");
    replay::stats()["numbers"]++;
  }
  for (double v : {std::nan(""), std::numeric_limits<double>::infinity(),
                   -std::numeric_limits<double>::infinity(), 1e300, -1e300,
                   1e-300, 4.9e-324, 0.1, 2147483646.5, -2147483647.5}) {
    if (dreal::is_integer(v)) fail("is_integer of a special value");
  }
}

void body(const vector<string>& raw) {
  const vector<Line> ls = parse(raw);
  const string& k = ls.at(0).at(0);
  if (k == "options") {
    const string& t = ls[0][1];
    if (t == "double") {
      options<double>(ls);
    } else if (t == "int") {
      options<int>(ls);
    } else if (t == "string") {
      options<string>(ls);
    } else {
      options<vector<int>>(ls);
    }
  } else if (k == "varsets") {
    varsets(ls);
  } else if (k == "terms") {
    terms(ls);
  } else if (k == "names") {
    names(raw);
  } else if (k == "commands") {
    commands(raw);
  } else if (k == "guards") {
    guards(ls);
  } else if (k == "numerals") {
    numerals(ls, false);
  } else if (k == "infix-numerals") {
    numerals(ls, true);
  } else if (k == "conv") {
    conv(ls);
  } else {
    fail("unknown kind " + k);
  }
}
}  // namespace

int main() { return replay::run(body); }
