// Replays behaviours of Uf.tla: registers of expressions and formulas with
// uninterpreted functions.
#include <algorithm>
#include <cstdlib>
#include <set>

#include "replay.h"

#include "dreal/symbolic/symbolic.h"

using namespace dreal;  // NOLINT
using replay::expect_eq;
using std::string;
using std::vector;

namespace {
struct Foreign {};
std::set<string> own;

[[noreturn]] void diverge(const string& kind, const string& what) {
  if (own.empty() || own.count(kind))
    throw replay::Divergence("[" + kind + "] " + what);
  throw Foreign{};
}

struct Vars {
  int nv;
  vector<Variable> v;
  Vars(int n, unsigned seed) : nv{n}, v(2 * n + 1) {
    vector<int> ord;
    for (int i = 1; i <= 2 * n; ++i) ord.push_back(i);
    unsigned long long s = seed;
    for (int i = 2 * n; seed && i > 1; --i) {
      s = s * 6364136223846793005ULL + 1442695040888963407ULL;
      std::swap(ord[i - 1], ord[(s >> 33) % i]);
    }
    for (int i : ord)
      v[i] = Variable{(i <= n ? "x" : "b") + std::to_string(i),
                      i <= n ? Variable::Type::CONTINUOUS
                             : Variable::Type::BOOLEAN};
  }
  Variables set(int mask) const {
    Variables r;
    for (int i = 1; i <= 2 * nv; ++i)
      if (mask >> (i - 1) & 1) r.insert(v[i]);
    return r;
  }
  int mask(const Variables& s) const {
    int r = 0;
    for (const Variable& x : s) {
      int k = 0;
      for (int i = 1; i <= 2 * nv; ++i)
        if (v[i].get_id() == x.get_id()) k = i;
      r |= k ? 1 << (k - 1) : 1 << 20;
    }
    return r;
  }
};

template <class T>
void laws(const vector<T>& r, const vector<int>& cls, const char* what) {
  const int n = static_cast<int>(r.size()) - 1;
  for (int i = 1; i <= n; ++i) {
    for (int j = 1; j <= n; ++j) {
      const string ij =
          string(what) + std::to_string(i) + "," + std::to_string(j);
      const bool eq = cls[i] == cls[j];
      if (r[i].EqualTo(r[j]) != eq)
        diverge("equal", "EqualTo of " + ij + " is " + (eq ? "false" : "true") +
                             ": " + r[i].to_string() + " and " +
                             r[j].to_string());
      if (eq && r[i].get_hash() != r[j].get_hash())
        diverge("equal", "equal values, different hashes: " + ij);
      const bool lt = r[i].Less(r[j]), gt = r[j].Less(r[i]);
      if (lt && gt) diverge("equal", "each less than the other: " + ij);
      if ((lt || gt) == eq)
        diverge("equal", "incomparability is not equality: " + ij + ": " +
                             r[i].to_string() + " and " + r[j].to_string());
      for (int k = 1; lt && k <= n; ++k)
        if (r[j].Less(r[k]) && !r[i].Less(r[k]))
          diverge("equal", "the order is not transitive: " + ij + "," +
                               std::to_string(k));
    }
  }
  replay::stats()["pairs"] += n * n;
}

void run_case(const vector<string>& raw) {
  std::istringstream h(raw.at(0));
  string tag;
  int ne, nf, nv;
  unsigned seed;
  h >> tag >> ne >> nf >> nv >> seed;
  const Vars V(nv, seed);
  vector<Expression> E(ne + 1, Expression{0.0});
  vector<Formula> F(nf + 1, Formula::True());
  for (size_t s = 1; s < raw.size(); ++s) {
    std::istringstream in(raw[s]);
    string nm;
    int d, a, b, c, p[6], res;
    in >> nm >> d >> a >> b >> c;
    for (int& x : p) in >> x;
    in >> res;
    vector<int> em(ne + 1), fm(nf + 1), ec(ne + 1), fc(nf + 1);
    for (int i = 1; i <= ne; ++i) in >> em[i];
    for (int i = 1; i <= nf; ++i) in >> fm[i];
    for (int i = 1; i <= ne; ++i) in >> ec[i];
    for (int i = 1; i <= nf; ++i) in >> fc[i];
    const string at = "step " + std::to_string(s) + " " + nm + ": ";
    string kind = "build";
    const vector<Expression> E0(E);
    const vector<Formula> F0(F);
    ExpressionSubstitution es;
    FormulaSubstitution fs;
    if (nm == "subE" || nm == "subF") {
      kind = "sub";
      if (p[0]) es.emplace(V.v[p[0]], E[p[1]]);
      if (p[2]) es.emplace(V.v[p[2]], E[p[3]]);
      if (p[4]) fs.emplace(V.v[p[4]], F[p[5]]);
    }
    try {
      if (nm == "uf") {
        E[d] = uninterpreted_function(b == 1 ? "f" : "g", V.set(c));
      } else if (nm == "var") {
        E[d] = Expression{V.v[c]};
      } else if (nm == "con") {
        E[d] = Expression{static_cast<double>(c)};
      } else if (nm == "add") {
        E[d] = E[a] + E[b];
      } else if (nm == "sub") {
        E[d] = E[a] - E[b];
      } else if (nm == "scale") {
        E[d] = E[a] * static_cast<double>(c);
      } else if (nm == "copy") {
        E[d] = E[a];
      } else if (nm == "expand") {
        kind = "sub";
        E[d] = E[a].Expand();
      } else if (nm == "subE") {
        E[d] = fs.empty() && s % 2 ? E[a].Substitute(es)
               : es.empty() && s % 2 ? E[a].Substitute(fs)
                                     : E[a].Substitute(es, fs);
      } else if (nm == "part") {
        kind = "sub";
        Environment env;
        for (int i = 1; i <= nv; ++i)
          if (b >> (i - 1) & 1) env.insert(V.v[i], c);
        E[d] = E[a].EvaluatePartial(env);
      } else if (nm == "bvar") {
        F[d] = Formula{V.v[c]};
      } else if (nm == "gt") {
        F[d] = E[a] > E[b];
      } else if (nm == "subF") {
        F[d] = fs.empty() && s % 2 ? F[a].Substitute(es)
                                   : F[a].Substitute(es, fs);
      } else if (nm == "poly") {
        expect_eq(res, E[a].is_polynomial() ? 1 : 0, at + "is_polynomial");
      }
    } catch (const replay::Divergence&) {
      throw;
    } catch (const std::exception& e) {
      diverge(kind, at + "exception " + e.what());
    }
    if (nm == "diff") {
      int got = -99;
      try {
        const Expression r = E[a].Differentiate(V.v[c]);
        got = is_constant(r) ? static_cast<int>(get_constant_value(r)) : -98;
      } catch (const std::exception&) {
      }
      if (got != res)
        diverge("diff", at + "derivative of " + E[a].to_string() + " by " +
                            V.v[c].to_string() + ": specification " +
                            std::to_string(res) + ", code " +
                            std::to_string(got) + " (-99: refused)");
    }
    if (nm == "eval") {
      Environment env;
      for (int i = 1; i <= nv; ++i) env.insert(V.v[i], i * c);
      int got = -99;
      try {
        got = static_cast<int>(E[a].Evaluate(env));
      } catch (const std::exception&) {
      }
      if (got != res)
        diverge("build", at + "value: specification " + std::to_string(res) +
                             ", code " + std::to_string(got) +
                             " (-99: refused)");
    }
    if (kind == "sub") {
      for (int i = 1; i <= ne; ++i)
        if (i != d && !E[i].EqualTo(E0[i]))
          diverge("sub", at + "register E" + std::to_string(i) + " changed");
      if (E[a].EqualTo(E0[a]) == false && nm != "subF" && a != d)
        diverge("sub", at + "the operand changed");
    }
    for (int i = 1; i <= ne; ++i)
      if (V.mask(E[i].GetVariables()) != em[i])
        diverge(kind, at + "variables of E" + std::to_string(i) + " = " +
                          E[i].to_string() + ": specification " +
                          std::to_string(em[i]) + ", code " +
                          std::to_string(V.mask(E[i].GetVariables())));
    for (int i = 1; i <= nf; ++i)
      if (V.mask(F[i].GetFreeVariables()) != fm[i])
        diverge(kind, at + "free variables of F" + std::to_string(i) + " = " +
                          F[i].to_string() + ": specification " +
                          std::to_string(fm[i]) + ", code " +
                          std::to_string(V.mask(F[i].GetFreeVariables())));
    laws(E, ec, "E");
    laws(F, fc, "F");
  }
}
}  // namespace

int main() {
  if (const char* o = std::getenv("SYM_OWN")) {
    std::istringstream in(o);
    string k;
    while (std::getline(in, k, ',')) own.insert(k);
  }
  return replay::run([](const vector<string>& raw) {
    try {
      run_case(raw);
    } catch (const Foreign&) {
    }
  });
}
