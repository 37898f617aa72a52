// Replays scripts of Script.tla through the real SMT-LIB driver, command by
// command and as a whole.
#include <signal.h>
#include <sys/time.h>

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <set>

#include "dreal/smt2/driver.h"
#include "dreal/solver/config.h"
#include "dreal/solver/context.h"
#include "judge.h"
#include "replay.h"
#include "sx.h"

using dreal::Box;
using dreal::Config;
using dreal::Context;
using dreal::Smt2Driver;
using dreal::Variable;
using replay::expect_eq;
using replay::fail;
using sx::Node;
using std::string;
using std::vector;

bool run_dr(const string& text, const Config& config);

static long g_case = -1;
static void on_alarm(int) {
  char buf[64];
  const int n = std::snprintf(buf, sizeof buf, "OK %ld\nSTAT slow 1\n", g_case);
  if (write(1, buf, n) != n) _exit(5);
  _exit(4);
}

// Everything printed while the body runs, on either kind of stream.
struct Capture {
  char* text{nullptr};
  size_t size{0};
  FILE* old{stdout};
  FILE* mem{open_memstream(&text, &size)};
  struct Buf : std::streambuf {
    FILE* f{nullptr};
    int overflow(int c) override { return c == EOF ? 0 : std::fputc(c, f); }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
      return std::fwrite(s, 1, n, f);
    }
  } buf;
  std::streambuf* oldbuf{nullptr};
  std::streambuf* olderr{nullptr};
  std::ostringstream err;
  Capture() {
    buf.f = mem;
    stdout = mem;
    oldbuf = std::cout.rdbuf(&buf);
    olderr = std::cerr.rdbuf(err.rdbuf());
  }
  void stop() {
    if (!mem) return;
    std::cout.rdbuf(oldbuf);
    std::cerr.rdbuf(olderr);
    stdout = old;
    std::fclose(mem);
    mem = nullptr;
  }
  string str() {
    stop();
    return string(text, size);
  }
  ~Capture() {
    stop();
    std::free(text);
  }
};

static vector<string> lines(const string& s) {
  vector<string> r;
  std::istringstream is(s);
  string x;
  while (std::getline(is, x)) r.push_back(x);
  return r;
}
static vector<string> items(const Node& n) {
  vector<string> r;
  if (!n.tag.empty()) r.push_back(n.tag);
  for (const Node& a : n.args) r.push_back(a.tag);
  return r;
}
// a number as the driver prints one: 3, (- 3), (/ 1 2), (/ (- 1) 2)
static double number(const string& s) {
  string t;
  for (char c : s) {
    if (c == '(' || c == ')') {
      t += ' ';
      t += c;
      t += ' ';
    } else {
      t += c;
    }
  }
  const Node n = sx::parse(t);
  struct R {
    static long double val(const Node& k) {
      if (k.tag == "-") return -val(k.args.at(0));
      if (k.tag == "/") return val(k.args.at(0)) / val(k.args.at(1));
      return std::strtold(k.tag.c_str(), nullptr);
    }
  };
  return static_cast<double>(R::val(n));
}
static const char* const kNames[] = {"",  "x",     "y",   "z", "u",
                                     "w", "|a b|", "k!0", "p"};

struct Run {
  string types;
  vector<std::pair<double, double>> dom;
  vector<Node> asr{Node{}};
  std::map<string, Node> defs;
  std::map<string, string> defcl;
  bool loose{false};  // names stand for variables: equations may be weakened
  vector<vector<double>> pts;  // corners of the last model
  bool point{false};
};

static int dim(const Box& b, const string& name) {
  int r = -1;
  for (int i = 0; i < b.size(); ++i) {
    if (b.variable(i).get_name() == name) r = i;
  }
  return r;
}

// The lines of an answer after the first: the box, when it is asked for.
static void printed_box(const vector<string>& ls, const Box& m, bool asked,
                        const string& what) {
  expect_eq(asked ? static_cast<size_t>(m.size()) + 1 : size_t{1}, ls.size(),
            what + ": lines of an answer");
  if (!asked) return;
  for (int i = 0; i < m.size(); ++i) {
    const string pre = m.variable(i).get_name() + " : ";
    const string& l = ls[i + 1];
    if (l.compare(0, pre.size(), pre)) fail(what + ": printed " + l);
    const string v = l.substr(pre.size());
    if (m.variable(i).get_type() == Variable::Type::BOOLEAN) {
      expect_eq(string(m[i].ub() == 0.0 ? "False" : m[i].lb() == 1.0
                                                        ? "True"
                                                        : "Unassigned"),
                v, what + ": printed " + pre);
    } else {
      char* rest = nullptr;
      const bool open = v.at(0) == '[';
      const double lo = std::strtod(v.c_str() + open, &rest);
      const double hi = *rest == ',' ? std::strtod(rest + 1, nullptr) : lo;
      if (lo != m[i].lb() || hi != m[i].ub()) {
        std::ostringstream o;
        o << m[i];
        fail(what + ": printed " + l + " for " + o.str());
      }
    }
    ++replay::stats()["box_lines"];
  }
}

static void judge(Run* run, const Node& n, const string& what,
                  const string& out, const Context& ctx) {
  ++replay::stats()["checks"];
  const vector<string> ls = lines(out);
  if (ls.empty()) fail(what + ": no answer");
  const double delta = std::stod(n.args.at(4).tag);
  std::ostringstream want;
  const bool compliant = ctx.config().smtlib2_compliant();
  want << "delta-sat";
  if (!compliant) want << " with delta = " << delta;
  run->pts.clear();
  if (ls[0] == "unsat") {
    ++replay::stats()["unsat"];
    expect_eq(1, static_cast<int>(ls.size()), what + ": lines of an answer");
    if (n.num(0)) fail(what + ": answered unsat although a solution exists");
    return;
  }
  expect_eq(want.str(), ls[0], what + ": the answer");
  ++replay::stats()["delta_sat"];
  const Box& m = ctx.get_model();
  printed_box(ls, m, n.args.at(5).tag == "true" && !compliant, what);
  std::set<int> vs;
  for (const string& v : items(n.args.at(1))) vs.insert(std::stoi(v));
  const vector<string> ds = items(n.args.at(3));
  expect_eq(static_cast<int>(vs.size() + ds.size()), m.size(),
            what + ": number of variables of the model");
  auto& pts = run->pts;
  pts.assign(1, vector<double>(run->types.size() + 1, 0.0));
  run->point = true;
  for (int v : vs) {
    const int i = dim(m, kNames[v]);
    if (i < 0) fail(what + ": no value for " + kNames[v]);
    if (m[i].is_empty()) fail(what + ": empty value in a model");
    const double far = origin_of(run->types[v]);
    const Box::Interval iv(m[i].lb() - far, m[i].ub() - far);
    if (!(run->dom[v].first <= iv.lb() && iv.ub() <= run->dom[v].second) &&
        run->types[v] != 'B') {
      fail(what + ": model outside the domain of " + kNames[v]);
    }
    if (run->types[v] != 'R' &&
        !(iv.lb() == iv.ub() && iv.lb() == std::floor(iv.lb()))) {
      fail(what + ": not an integer: " + kNames[v]);
    }
    vector<double> c{iv.lb()};
    if (iv.lb() != iv.ub()) {
      run->point = false;
      c.push_back(iv.ub());
      c.push_back(iv.mid());
    }
    const size_t k = pts.size();
    for (size_t j = 0; j < k; ++j) {
      for (size_t e = 1; e < c.size(); ++e) {
        pts.push_back(pts[j]);
        pts.back()[v] = c[e];
      }
      pts[j][v] = c[0];
    }
  }
  const auto show = [&](const vector<double>& x) {
    std::ostringstream o;
    for (int v : vs) o << " " << kNames[v] << "=" << x[v];
    return o.str();
  };
  for (const string& k : items(n.args.at(2))) {
    const Node& f = run->asr.at(std::stoi(k));
    const double tol = run->loose || has(f, "ite")
                           ? 100 * delta
                           : delta * (1 + 1e-6) + 1e-12;
    for (const auto& x : pts) {
      ++replay::stats()["model_points"];
      if (!weak(f, true, x, tol)) {
        fail(what + ": the model violates assertion " + k +
             " by more than delta at" + show(x));
      }
    }
  }
  for (const string& d : ds) {
    const int i = dim(m, d);
    if (i < 0) fail(what + ": no value for " + d);
    for (const auto& x : pts) {
      ++replay::stats()["definitions"];
      const Node& c = run->defs[d];
      bool good = false;
      if (run->defcl[d] == "F") {
        good = weak(c, m[i].lb() != 0, x, 100 * delta);
      } else {
        for (double v : vals(c, x, 100 * delta)) {
          good = good || std::fabs(v - m[i].mid()) <= 100 * delta;
        }
      }
      if (!good) fail(what + ": " + d + " has not its value at" + show(x));
    }
  }
}

static void model_text(const Run& run, const string& what, const string& out,
                       const Context& ctx) {
  const Box& m = ctx.get_model();
  const vector<string> ls = lines(out);
  if (run.pts.empty()) {
    expect_eq(string("(error \"model is not available\")"), ls.at(0), what);
    return;
  }
  expect_eq(m.size() + 2, static_cast<int>(ls.size()), what + ": lines");
  for (int i = 0; i < m.size(); ++i) {
    const Variable& v = m.variable(i);
    std::ostringstream o;
    o.precision(17);
    const auto t = v.get_type();
    o << "  (define-fun " << v.get_name() << " () "
      << (t == Variable::Type::BOOLEAN    ? "Bool"
          : t == Variable::Type::INTEGER  ? "Int"
          : t == Variable::Type::BINARY   ? "Binary"
                                          : "Real")
      << " ";
    if (t == Variable::Type::BOOLEAN) {
      o << (m[i].lb() == 1 ? "true" : "false");
    } else if (m[i].lb() == m[i].ub()) {
      o << m[i].lb();
    } else {
      o << m[i];
    }
    o << ")";
    expect_eq(o.str(), ls[1 + i], what + ": line");
    ++replay::stats()["model_lines"];
  }
}

static void values(const Run& run, const Node& n, const string& what,
                   const string& out) {
  const vector<string> ls = lines(out);
  if (run.pts.empty()) {
    expect_eq(string("(error \"model is not available\")"), ls.at(0), what);
    return;
  }
  const auto& cs = n.args.at(0).args;
  expect_eq(cs.size() + 2, ls.size(), what + ": lines");
  for (size_t i = 0; i < cs.size(); ++i) {
    // "\t(TERM VALUE)": the last expression inside
    const string& l = ls[i + 1];
    const size_t end = l.size() - 1;
    size_t b = end;
    int depth = 0;
    while (b > 0) {
      --b;
      if (l[b] == ')') ++depth;
      if (l[b] == '(') --depth;
      if (depth == 0 && (l[b] == ' ')) break;
    }
    string v = l.substr(b + 1, end - b - 1);
    double lo, hi;
    const string pre = "(interval (closed ";
    if (v.compare(0, pre.size(), pre) == 0) {
      const size_t k = v.find(" (closed ", pre.size());
      lo = number(v.substr(pre.size(), k - pre.size() - 1));
      hi = number(v.substr(k + 9, v.size() - (k + 9) - 2));
    } else {
      lo = hi = number(v);
    }
    double a = INFINITY, z = -INFINITY;
    for (const auto& x : run.pts) {
      for (double w : vals(cs[i], x, 0)) {
        a = std::min(a, w);
        z = std::max(z, w);
      }
    }
    ++replay::stats()["values"];
    if (!(lo <= a + 1e-9 && z <= hi + 1e-9)) {
      fail(what + ": value " + v + " does not hold " + std::to_string(a) +
           " .. " + std::to_string(z));
    }
    if (run.point && hi - lo > 1e-6) fail(what + ": coarse value " + v);
  }
}

// The .dr language: one text, whose answer comes with its model.
static void dr_body(const vector<string>& in) {
  Run run;
  run.types = " " + sx::words(in.at(0)).at(1);
  run.dom.resize(run.types.size());
  for (size_t l = 1; l < in.size(); ++l) {
    const size_t cut = in[l].find(" ;; ");
    const Node n = sx::parse(in[l].substr(0, cut));
    if (n.tag == "decl") {
      run.dom.at(n.num(0)) = {static_cast<double>(n.num(1)),
                              static_cast<double>(n.num(2))};
    } else if (n.tag == "assert") {
      run.asr.push_back(n.args.at(0));
    } else {
      string text = in[l].substr(cut + 4);
      for (size_t k; (k = text.find("\\n")) != string::npos;) {
        text.replace(k, 2, "\n");
      }
      Config config;
      // The text of the models is what is judged; a few answers without.
      const bool models = text.size() % 8 != 0;
      config.mutable_produce_models() = models;
      string out;
      {
        Capture c;
        if (!run_dr(text, config)) {
          c.stop();
          fail("not accepted: " + c.err.str());
        }
        out = c.str();
      }
      ++replay::stats()["dr"];
      const vector<string> ls = lines(out);
      if (ls.empty()) fail("no answer");
      if (ls[0] == "unsat") {
        expect_eq(size_t{1}, ls.size(), "lines of an answer");
        if (n.num(0)) fail("answered unsat although a solution exists");
        return;
      }
      expect_eq(string("delta-sat with delta = 0.001"), ls[0], "the answer");
      expect_eq(models ? run.types.size() : size_t{1}, ls.size(),
                "lines of an answer");
      if (!models) return;
      vector<vector<double>> pts(1, vector<double>(run.types.size() + 1, 0.0));
      for (size_t v = 1; v < run.types.size(); ++v) {
        const string pre = string(kNames[v]) + " : [";
        bool found = false;
        for (const string& s : ls) {
          if (s.compare(0, pre.size(), pre) != 0) continue;
          found = true;
          char* rest = nullptr;
          const double lo = std::strtod(s.c_str() + pre.size(), &rest);
          const double hi = std::strtod(rest + 1, nullptr);
          if (!(run.dom[v].first <= lo && hi <= run.dom[v].second)) {
            fail("model outside the domain: " + s);
          }
          const size_t k = pts.size();
          for (size_t j = 0; j < k; ++j) {
            pts.push_back(pts[j]);
            pts.back()[v] = hi;
            pts[j][v] = lo;
          }
        }
        if (!found) fail("no value for " + string(kNames[v]));
      }
      for (size_t k = 1; k < run.asr.size(); ++k) {
        for (const auto& x : pts) {
          // (the digits printed do not give the bounds exactly)
          if (!weak(run.asr[k], true, x, 0.0011)) {
            fail("the model violates constraint " + std::to_string(k));
          }
        }
      }
    }
  }
}

static bool refused(const std::exception& e) {
  // A free Boolean variable under a quantifier is refused, too.
  return std::strstr(e.what(), "not supported") ||
         std::strstr(e.what(), "Boolean variable is detected");
}

// head: script types jobs number
static void body(const vector<string>& in) {
  const vector<string> h = sx::words(in.at(0));
  if (h.at(0) == "dr") return dr_body(in);
  g_case = std::stol(h.at(3));
  const int jobs = std::stoi(h.at(2));
  struct itimerval tv;
  std::memset(&tv, 0, sizeof tv);
  const char* lim = std::getenv("SOLVE_SECONDS");
  tv.it_value.tv_sec = lim ? std::atoi(lim) : 4;
  setitimer(ITIMER_REAL, &tv, nullptr);
  Config config;
  config.mutable_number_of_jobs() = 1 + jobs % 3;
  config.mutable_smtlib2_compliant() = g_case % 8 == 5;
  Run run;
  run.types = " " + h.at(1);
  run.dom.resize(run.types.size());
  string whole, err;
  vector<Node> checks;
  {
    Smt2Driver driver{Context{config}};
    for (size_t l = 1; l < in.size(); ++l) {
      const size_t cut = in[l].find(" ;; ");
      const Node n = sx::parse(in[l].substr(0, cut));
      string text = in[l].substr(cut + 4);
      for (size_t k; (k = text.find("\\n")) != string::npos;) {
        text.replace(k, 2, "\n");
      }
      whole += text + "\n";
      const string what = "command " + std::to_string(l) + " " + n.tag;
      string out;
      bool ok = false;
      {
        Capture c;
        try {
          ok = driver.parse_string(text, "s");
        } catch (const std::exception& e) {
          c.stop();
          if (!refused(e)) fail(what + ": " + e.what());
          ++replay::stats()["refused"];
          goto done;
        }
        out = c.str();
        err = c.err.str();
      }
      if (!ok) fail(what + ": not accepted: " + err);
      const Context& ctx = driver.mutable_context();
      if (n.tag == "decl") {
        run.dom.at(n.num(0)) = {static_cast<double>(n.num(1)),
                                static_cast<double>(n.num(2))};
      } else if (n.tag == "assert") {
        run.asr.push_back(n.args.at(0));
      } else if (n.tag == "def") {
        run.defs[n.args.at(0).tag] = n.args.at(2);
        run.defcl[n.args.at(0).tag] = n.args.at(1).tag;
      } else if (n.tag == "check") {
        checks.push_back(n);
        judge(&run, n, what, out, ctx);
        continue;
      } else if (n.tag == "value") {
        values(run, n, what, out);
        continue;
      } else if (n.tag == "model") {
        model_text(run, what, out, ctx);
        continue;
      } else if (n.tag == "getopt") {
        expect_eq(n.args.at(1).tag + "\n", out, what);
        continue;
      }
      if (!out.empty()) fail(what + ": printed " + out);
      if (text.find("(let ") != string::npos ||
          text.find("(define-fun ") != string::npos) {
        run.loose = true;
      }
    }
  }
  {
    // As a whole; nothing after (exit) is read.
    const bool leave = g_case % 2;
    if (leave) whole += "(exit)\n(assert false)\n(check-sat)\n";
    Smt2Driver driver{Context{config}};
    Capture c;
    try {
      if (!driver.parse_string(whole, "whole")) {
        c.stop();
        fail("the whole script is not accepted: " + c.err.str());
      }
    } catch (const std::exception& e) {
      c.stop();
      if (!refused(e)) fail(string("whole script: ") + e.what());
      goto done;
    }
    size_t k = 0;
    for (const string& l : lines(c.str())) {
      const bool un = l == "unsat";
      if (!un && l.compare(0, 9, "delta-sat") != 0) continue;
      if (k >= checks.size()) fail("whole script: too many answers");
      if (un && checks[k].num(0)) {
        fail("whole script: answer " + std::to_string(k) +
             " is unsat although a solution exists");
      }
      ++k;
    }
    expect_eq(checks.size(), k, "whole script: answers");
    ++replay::stats()["whole"];
  }
done:
  struct itimerval off;
  std::memset(&off, 0, sizeof off);
  setitimer(ITIMER_REAL, &off, nullptr);
}

int main() {
  signal(SIGALRM, on_alarm);
  return replay::run(body);
}
