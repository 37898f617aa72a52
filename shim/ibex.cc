#include "ibex.h"

#include <xmmintrin.h>

#include <algorithm>
#include <cfenv>
#include <cfloat>
#include <sstream>

namespace ibex {
namespace {
const double kInf = std::numeric_limits<double>::infinity();

// Rounding of SSE arithmetic, restored at the end of the scope.
struct Round {
  explicit Round(unsigned m) : old(_mm_getcsr()) {
    _mm_setcsr((old & ~_MM_ROUND_MASK) | m);
  }
  ~Round() { _mm_setcsr(old); }
  unsigned old;
};
#define OPS(name, op)                                 \
  __attribute__((noinline)) double name##_dn(double a, double b) { \
    Round r(_MM_ROUND_DOWN);                          \
    volatile double x = a, y = b;                     \
    volatile double z = x op y;                       \
    return z;                                         \
  }                                                   \
  __attribute__((noinline)) double name##_up(double a, double b) { \
    Round r(_MM_ROUND_UP);                            \
    volatile double x = a, y = b;                     \
    volatile double z = x op y;                       \
    return z;                                         \
  }
OPS(add, +)
OPS(sub, -)
OPS(mul0, *)
OPS(div, /)
#undef OPS
double mul_dn(double a, double b) {
  return a == 0 || b == 0 ? 0 : mul0_dn(a, b);
}
double mul_up(double a, double b) {
  return a == 0 || b == 0 ? 0 : mul0_up(a, b);
}
double below(double v, int n = 3) {
  for (int i = 0; i < n; ++i) v = std::nextafter(v, -kInf);
  return v;
}
double above(double v, int n = 3) {
  for (int i = 0; i < n; ++i) v = std::nextafter(v, kInf);
  return v;
}
const double kPi = 3.14159265358979323846;

// A monotone library function, widened, exact where it is known to be.
template <class F>
double lo(F f, double x, double exact_at, double value) {
  if (x == exact_at) return value;
  Round r(_MM_ROUND_NEAREST);
  return below(f(x));
}
template <class F>
double hi(F f, double x, double exact_at, double value) {
  if (x == exact_at) return value;
  Round r(_MM_ROUND_NEAREST);
  return above(f(x));
}
Interval clip(double l, double u, double a, double b) {
  return Interval(std::max(l, a), std::min(u, b));
}
}  // namespace

const Interval Interval::EMPTY_SET{1, 0};
const Interval Interval::ALL_REALS;
const Interval Interval::ZERO{0.0};
const Interval Interval::ONE{1.0};
const Interval Interval::POS_REALS{0, kInf};
const Interval Interval::NEG_REALS{-kInf, 0};
const Interval Interval::PI{below(kPi, 1), above(kPi, 1)};
const Interval Interval::TWO_PI{below(2 * kPi, 1), above(2 * kPi, 1)};
const Interval Interval::HALF_PI{below(kPi / 2, 1), above(kPi / 2, 1)};

double Interval::mid() const {
  if (is_empty()) return lb_;
  if (lb_ == -kInf) return ub_ == kInf ? 0 : -DBL_MAX;
  if (ub_ == kInf) return DBL_MAX;
  if (lb_ == ub_) return lb_;
  Round r(_MM_ROUND_NEAREST);
  volatile double l = 0.5 * lb_, u = 0.5 * ub_;
  double m = l + u;
  if (m < lb_) m = lb_;
  if (m > ub_) m = ub_;
  return m;
}
double Interval::diam() const { return is_empty() ? 0 : sub_up(ub_, lb_); }
double Interval::rad() const { return is_empty() ? 0 : diam() / 2; }
double Interval::mag() const {
  return is_empty() ? lb_ : std::max(std::fabs(lb_), std::fabs(ub_));
}
double Interval::mig() const {
  if (is_empty()) return lb_;
  if (contains(0)) return 0;
  return std::min(std::fabs(lb_), std::fabs(ub_));
}
bool Interval::is_bisectable() const {
  if (is_empty()) return false;
  const double m = mid();
  return lb_ < m && m < ub_;
}
Interval& Interval::inflate(double rad) {
  if (!is_empty()) set(sub_dn(lb_, rad), add_up(ub_, rad));
  return *this;
}
std::pair<Interval, Interval> Interval::bisect(double ratio) const {
  double m = mid();
  if (ratio != 0.5 && !is_unbounded()) {
    m = lb_ + ratio * (ub_ - lb_);
    if (!(lb_ < m && m < ub_)) m = mid();
  }
  return {Interval(lb_, m), Interval(m, ub_)};
}
Interval& Interval::operator&=(const Interval& x) {
  if (is_empty() || x.is_empty()) {
    set_empty();
  } else {
    set(std::max(lb_, x.lb_), std::min(ub_, x.ub_));
  }
  return *this;
}
Interval& Interval::operator|=(const Interval& x) {
  if (x.is_empty()) return *this;
  if (is_empty()) return *this = x;
  set(std::min(lb_, x.lb_), std::max(ub_, x.ub_));
  return *this;
}
Interval& Interval::operator+=(const Interval& x) { return *this = *this + x; }
Interval& Interval::operator-=(const Interval& x) { return *this = *this - x; }
Interval& Interval::operator*=(const Interval& x) { return *this = *this * x; }
Interval& Interval::operator/=(const Interval& x) { return *this = *this / x; }

Interval operator&(const Interval& x, const Interval& y) {
  Interval r(x);
  return r &= y;
}
Interval operator|(const Interval& x, const Interval& y) {
  Interval r(x);
  return r |= y;
}
Interval operator-(const Interval& x) {
  return x.is_empty() ? x : Interval(-x.ub(), -x.lb());
}
#define EMPTY2 \
  if (x.is_empty() || y.is_empty()) return Interval::EMPTY_SET;
#define EMPTY1 \
  if (x.is_empty()) return Interval::EMPTY_SET;
Interval operator+(const Interval& x, const Interval& y) {
  EMPTY2
  return Interval(add_dn(x.lb(), y.lb()), add_up(x.ub(), y.ub()));
}
Interval operator-(const Interval& x, const Interval& y) {
  EMPTY2
  return Interval(sub_dn(x.lb(), y.ub()), sub_up(x.ub(), y.lb()));
}
Interval operator*(const Interval& x, const Interval& y) {
  EMPTY2
  const double a = x.lb(), b = x.ub(), c = y.lb(), d = y.ub();
  return Interval(std::min(std::min(mul_dn(a, c), mul_dn(a, d)),
                           std::min(mul_dn(b, c), mul_dn(b, d))),
                  std::max(std::max(mul_up(a, c), mul_up(a, d)),
                           std::max(mul_up(b, c), mul_up(b, d))));
}
Interval operator/(const Interval& x, const Interval& y) {
  EMPTY2
  if (y.lb() == 0 && y.ub() == 0) return Interval::EMPTY_SET;
  if (x.lb() == 0 && x.ub() == 0) return Interval(0.0);
  if (y.contains(0)) {
    if (y.lb() < 0 && y.ub() > 0) return Interval();
    if (x.lb() < 0 && x.ub() > 0) return Interval();
    if (y.lb() == 0) {  // y in [0, d]
      if (x.lb() >= 0) {
        return Interval(
            std::isinf(y.ub()) ? 0 : div_dn(x.lb(), y.ub()), kInf);
      }
      return Interval(-kInf,
                      std::isinf(y.ub()) ? 0 : div_up(x.ub(), y.ub()));
    }
    if (x.lb() >= 0) {
      return Interval(-kInf,
                      std::isinf(y.lb()) ? 0 : div_up(x.lb(), y.lb()));
    }
    return Interval(std::isinf(y.lb()) ? 0 : div_dn(x.ub(), y.lb()), kInf);
  }
  double l = kInf, u = -kInf;
  for (double a : {x.lb(), x.ub()}) {
    for (double b : {y.lb(), y.ub()}) {
      if (std::isinf(b)) {
        l = std::min(l, 0.0);
        u = std::max(u, 0.0);
        if (std::isinf(a)) {
          // anything between 0 and the sign's infinity
          if ((a > 0) == (b > 0)) {
            u = kInf;
          } else {
            l = -kInf;
          }
        }
      } else {
        l = std::min(l, div_dn(a, b));
        u = std::max(u, div_up(a, b));
      }
    }
  }
  return Interval(l, u);
}
Interval sqr(const Interval& x) { return pow(x, 2); }
Interval sqrt(const Interval& x0) {
  const Interval x = x0 & Interval::POS_REALS;
  EMPTY1
  double l, u;
  {
    Round r(_MM_ROUND_DOWN);
    volatile double v = x.lb();
    l = std::sqrt(v);
  }
  {
    Round r(_MM_ROUND_UP);
    volatile double v = x.ub();
    u = std::sqrt(v);
  }
  // The compiler's sqrt may ignore the mode: verify.
  while (l > 0 && mul_up(l, l) > x.lb()) l = std::nextafter(l, 0);
  while (!std::isinf(u) && mul_dn(u, u) < x.ub()) u = std::nextafter(u, kInf);
  return Interval(l, u);
}
namespace {
double pow_dn(double a, int n) {  // a >= 0
  double r = 1;
  for (int i = 0; i < n; ++i) r = mul_dn(r, a);
  return r;
}
double pow_up(double a, int n) {
  double r = 1;
  for (int i = 0; i < n; ++i) r = mul_up(r, a);
  return r;
}
}  // namespace
Interval pow(const Interval& x, int n) {
  EMPTY1
  if (n == 0) return Interval(1.0);
  if (n < 0) return Interval(1.0) / pow(x, -n);
  if (n > 200) {
    Interval h = pow(x, n / 2);
    return n % 2 ? h * h * x : sqr(h);
  }
  if (n % 2 == 0) {
    return Interval(pow_dn(x.mig(), n), pow_up(x.mag(), n));
  }
  return Interval(
      x.lb() >= 0 ? pow_dn(x.lb(), n) : -pow_up(-x.lb(), n),
      x.ub() >= 0 ? pow_up(x.ub(), n) : -pow_dn(-x.ub(), n));
}
Interval pow(const Interval& x, double d) {
  if (d == std::floor(d) && std::fabs(d) < 1e6) {
    return pow(x, static_cast<int>(d));
  }
  if (d == 0.5) return sqrt(x);
  return pow(x, Interval(d));
}
Interval pow(const Interval& x, const Interval& y) {
  EMPTY2
  if (y.is_degenerated() && y.lb() == std::floor(y.lb()) &&
      std::fabs(y.lb()) < 1e6) {
    return pow(x, static_cast<int>(y.lb()));
  }
  const Interval p = x & Interval::POS_REALS;
  if (p.is_empty()) return p;
  if (p.lb() == 0) {
    // 0^y is 0 for positive y; the rest is approached by small bases.
    Interval r = Interval(0.0, kInf);
    if (y.lb() > 0) {
      const Interval top = exp(y * log(Interval(std::max(p.ub(), DBL_MIN))));
      const double one = std::max(1.0, top.ub());
      return Interval(0, p.ub() <= 1 ? 1 : one);
    }
    return r;
  }
  return exp(y * log(p));
}
Interval exp(const Interval& x) {
  EMPTY1
  const auto f = [](double v) { return std::exp(v); };
  return clip(lo(f, x.lb(), 0, 1), hi(f, x.ub(), 0, 1), 0, kInf);
}
Interval log(const Interval& x0) {
  const Interval x = x0 & Interval::POS_REALS;
  EMPTY1
  if (x.ub() == 0) return Interval::EMPTY_SET;
  const auto f = [](double v) { return std::log(v); };
  return Interval(x.lb() == 0 ? -kInf : lo(f, x.lb(), 1, 0),
                  std::isinf(x.ub()) ? kInf : hi(f, x.ub(), 1, 0));
}
Interval abs(const Interval& x) {
  EMPTY1
  return Interval(x.mig(), x.mag());
}
Interval cos(const Interval& x) { return sin(x + Interval::HALF_PI); }
Interval sin(const Interval& x) {
  EMPTY1
  if (x.is_unbounded() || x.mag() > 1e9 || x.diam() >= 6.3) {
    return Interval(-1, 1);
  }
  if (x.lb() == 0 && x.ub() == 0) return Interval(0.0);
  double l, u;
  {
    Round r(_MM_ROUND_NEAREST);
    const double a = std::sin(x.lb()), b = std::sin(x.ub());
    l = std::min(a, b) - 1e-15;
    u = std::max(a, b) + 1e-15;
    // Extrema strictly inside, with a margin for the reduction's error.
    const double m = 1e-6 * std::max(1.0, x.mag() * 1e-9) + 1e-9;
    for (double k = std::floor(x.lb() / kPi) - 2;
         k <= std::ceil(x.ub() / kPi) + 2; ++k) {
      const double p = (k + 0.5) * kPi;
      if (p >= x.lb() - m && p <= x.ub() + m) {
        if (std::fmod(std::fabs(k), 2.0) == 0) {
          u = 1;
        } else {
          l = -1;
        }
      }
    }
  }
  return clip(l, u, -1, 1);
}
Interval tan(const Interval& x) {
  EMPTY1
  if (x.lb() == 0 && x.ub() == 0) return Interval(0.0);
  if (x.is_unbounded() || x.mag() > 1e6 || x.diam() >= 3.1) return Interval();
  Round r(_MM_ROUND_NEAREST);
  for (double k = std::floor(x.lb() / kPi) - 2;
       k <= std::ceil(x.ub() / kPi) + 2; ++k) {
    const double p = (k + 0.5) * kPi;
    if (p >= x.lb() - 1e-9 && p <= x.ub() + 1e-9) return Interval();
  }
  const double a = std::tan(x.lb()), b = std::tan(x.ub());
  return Interval(a - std::fabs(a) * 1e-12 - 1e-15,
                  b + std::fabs(b) * 1e-12 + 1e-15);
}
Interval asin(const Interval& x0) {
  const Interval x = x0 & Interval(-1, 1);
  EMPTY1
  const auto f = [](double v) { return std::asin(v); };
  return Interval(lo(f, x.lb(), 0, 0), hi(f, x.ub(), 0, 0));
}
Interval acos(const Interval& x0) {
  const Interval x = x0 & Interval(-1, 1);
  EMPTY1
  const auto f = [](double v) { return std::acos(v); };
  return Interval(lo(f, x.ub(), 1, 0), hi(f, x.lb(), 1, 0));
}
Interval atan(const Interval& x) {
  EMPTY1
  const auto f = [](double v) { return std::atan(v); };
  return Interval(lo(f, x.lb(), 0, 0), hi(f, x.ub(), 0, 0));
}
Interval sinh(const Interval& x) {
  EMPTY1
  const auto f = [](double v) { return std::sinh(v); };
  return Interval(lo(f, x.lb(), 0, 0), hi(f, x.ub(), 0, 0));
}
Interval cosh(const Interval& x) {
  EMPTY1
  const auto f = [](double v) { return std::cosh(v); };
  return clip(lo(f, x.mig(), 0, 1), hi(f, x.mag(), 0, 1), 1, kInf);
}
Interval tanh(const Interval& x) {
  EMPTY1
  const auto f = [](double v) { return std::tanh(v); };
  return clip(lo(f, x.lb(), 0, 0), hi(f, x.ub(), 0, 0), -1, 1);
}
Interval atan2(const Interval& y, const Interval& x) {
  EMPTY2
  Round r(_MM_ROUND_NEAREST);
  if (x.is_degenerated() && y.is_degenerated()) {
    const double v = std::atan2(y.lb(), x.lb());
    return v == 0 ? Interval(0.0) : Interval(below(v), above(v));
  }
  if (x.lb() > 0) return atan(y / x);
  const double p = above(kPi, 2);
  if (x.ub() < 0 && y.lb() < 0 && y.ub() >= 0) return Interval(-p, p);
  if ((y.lb() > 0 || y.ub() < 0) || (x.ub() < 0 && y.lb() >= 0)) {
    // Off the cut and the origin: monotone in each argument per quadrant.
    double lo = p, hi = -p;
    const double ys[2] = {y.lb(), y.ub()}, xs[3] = {x.lb(), x.ub(), 0.0};
    for (double b : ys) {
      for (double a : xs) {
        if (!x.contains(a)) continue;
        const double v = std::atan2(b, a);
        lo = std::min(lo, below(v));
        hi = std::max(hi, above(v));
      }
    }
    if (!std::isinf(x.lb()) && !std::isinf(x.ub()) && !std::isinf(y.lb()) &&
        !std::isinf(y.ub())) {
      return Interval(lo, hi);
    }
  }
  if (y.lb() >= 0) return Interval(0, p);
  if (y.ub() < 0) return Interval(-p, 0);
  return Interval(-p, p);
}
Interval min(const Interval& x, const Interval& y) {
  EMPTY2
  return Interval(std::min(x.lb(), y.lb()), std::min(x.ub(), y.ub()));
}
Interval max(const Interval& x, const Interval& y) {
  EMPTY2
  return Interval(std::max(x.lb(), y.lb()), std::max(x.ub(), y.ub()));
}
std::ostream& operator<<(std::ostream& os, const Interval& x) {
  if (x.is_empty()) return os << "[ empty ]";
  return os << "[" << x.lb() << ", " << x.ub() << "]";
}

IntervalVector& IntervalVector::operator|=(const IntervalVector& x) {
  if (x.is_empty()) return *this;
  if (is_empty()) return *this = x;
  for (size_t i = 0; i < v_.size(); ++i) v_[i] |= x.v_[i];
  return *this;
}
IntervalVector& IntervalVector::operator&=(const IntervalVector& x) {
  for (size_t i = 0; i < v_.size(); ++i) {
    v_[i] &= x.v_[i];
    if (v_[i].is_empty()) {
      set_empty();
      break;
    }
  }
  return *this;
}
bool IntervalVector::operator==(const IntervalVector& x) const {
  if (v_.size() != x.v_.size()) return false;
  if (is_empty() || x.is_empty()) return is_empty() && x.is_empty();
  for (size_t i = 0; i < v_.size(); ++i) {
    if (v_[i] != x.v_[i]) return false;
  }
  return true;
}
double IntervalVector::max_diam() const {
  double d = 0;
  for (const Interval& i : v_) d = std::max(d, i.diam());
  return d;
}
std::ostream& operator<<(std::ostream& os, const IntervalVector& x) {
  os << "(";
  for (int i = 0; i < x.size(); ++i) os << (i ? " ; " : "") << x[i];
  return os << ")";
}

// ---------------------------------------------------------- expressions
const ExprSymbol& ExprSymbol::new_(const char* name, const Dim&) {
  auto* s = new ExprSymbol();
  s->name_ = name;
  return *s;
}
const ExprConstant& ExprConstant::new_scalar(const Interval& v) {
  auto* s = new ExprConstant();
  s->c_ = v;
  return *s;
}
namespace {
const ExprNode& mk(ExprNode::Op op, std::vector<const ExprNode*> args) {
  return *new ExprNode(op, std::move(args));
}
bool is_zero(const ExprNode& e) {
  return e.op_ == ExprNode::CST && e.c_ == Interval(0.0);
}
const ExprCtr& ctr(const ExprNode& a, CmpOp op, const ExprNode& b) {
  return *new ExprCtr(is_zero(b) ? a : a - b, op);
}
}  // namespace
#define BIN(name, OP)                                             \
  const ExprNode& name(const ExprNode& a, const ExprNode& b) {    \
    return mk(ExprNode::OP, {&a, &b});                            \
  }
#define UN(name, OP) \
  const ExprNode& name(const ExprNode& a) { return mk(ExprNode::OP, {&a}); }
BIN(operator+, ADD)
BIN(operator-, SUB)
BIN(operator*, MUL)
BIN(operator/, DIV)
BIN(pow, POW)
BIN(atan2, ATAN2)
BIN(min, MIN)
BIN(max, MAX)
UN(operator-, NEG)
UN(sqr, SQR)
UN(sqrt, SQRT)
UN(exp, EXP)
UN(log, LOG)
UN(abs, ABS)
UN(sin, SIN)
UN(cos, COS)
UN(tan, TAN)
UN(asin, ASIN)
UN(acos, ACOS)
UN(atan, ATAN)
UN(sinh, SINH)
UN(cosh, COSH)
UN(tanh, TANH)
const ExprNode& pow(const ExprNode& a, int n) {
  auto* e = new ExprNode(ExprNode::POWI, {&a});
  e->n_ = n;
  return *e;
}
const ExprNode& pow(const ExprNode& a, double d) {
  return pow(a, static_cast<const ExprNode&>(ExprConstant::new_scalar(d)));
}
const ExprNode& pow(double a, const ExprNode& b) {
  return pow(static_cast<const ExprNode&>(ExprConstant::new_scalar(a)), b);
}
const ExprCtr& ExprNode::operator=(const ExprNode& r) const {
  return ctr(*this, EQ, r);
}
const ExprCtr& ExprNode::operator=(double r) const {
  return ctr(*this, EQ, ExprConstant::new_scalar(r));
}
const ExprCtr& operator<(const ExprNode& a, const ExprNode& b) {
  return ctr(a, LT, b);
}
const ExprCtr& operator<=(const ExprNode& a, const ExprNode& b) {
  return ctr(a, LEQ, b);
}
const ExprCtr& operator>(const ExprNode& a, const ExprNode& b) {
  return ctr(a, GT, b);
}
const ExprCtr& operator>=(const ExprNode& a, const ExprNode& b) {
  return ctr(a, GEQ, b);
}
std::ostream& operator<<(std::ostream& os, const ExprNode& e) {
  static const char* const names[] = {
      "", "", "+", "-", "*", "/", "-", "^", "^", "^", "sqr", "sqrt", "exp",
      "log", "abs", "sin", "cos", "tan", "asin", "acos", "atan", "atan2",
      "sinh", "cosh", "tanh", "min", "max"};
  if (e.op_ == ExprNode::SYMBOL) return os << e.name_;
  if (e.op_ == ExprNode::CST) {
    return e.c_.is_degenerated() ? os << e.c_.lb() : os << e.c_;
  }
  if (e.op_ == ExprNode::POWI) {
    return os << "(" << *e.args_[0] << ")^" << e.n_;
  }
  if (e.args_.size() == 1) return os << names[e.op_] << "(" << *e.args_[0] << ")";
  if (e.op_ <= ExprNode::POW) {
    return os << "(" << *e.args_[0] << names[e.op_] << *e.args_[1] << ")";
  }
  return os << names[e.op_] << "(" << *e.args_[0] << "," << *e.args_[1] << ")";
}
namespace {
const char* text(CmpOp op) {
  static const char* const t[] = {"<", "<=", "=", ">=", ">"};
  return t[op];
}
}  // namespace
std::ostream& operator<<(std::ostream& os, const ExprCtr& c) {
  return os << c.e << text(c.op) << "0";
}

// ------------------------------------------------------------- functions
Function::Function(const Array<const ExprSymbol>& vars, const ExprNode& e) {
  std::vector<const ExprNode*> v;
  for (int i = 0; i < vars.size(); ++i) v.push_back(&vars[i]);
  nvar_ = vars.size();
  add(e, v);
}
Function::Function(const ExprSymbol& x, const ExprSymbol& y,
                   const ExprSymbol& z, const ExprNode& e) {
  nvar_ = 3;
  add(e, {&x, &y, &z});
}
int Function::add(const ExprNode& e, const std::vector<const ExprNode*>& vars) {
  Node n;
  n.op = e.op_;
  n.c = e.c_;
  n.n = e.n_;
  if (e.op_ == ExprNode::SYMBOL) {
    for (size_t i = 0; i < vars.size(); ++i) {
      if (vars[i] == &e) n.n = static_cast<int>(i);
    }
  }
  if (e.args_.size() > 0) n.a = add(*e.args_[0], vars);
  if (e.args_.size() > 1) n.b = add(*e.args_[1], vars);
  nodes_.push_back(n);
  return static_cast<int>(nodes_.size()) - 1;
}
void Function::forward(const IntervalVector& box,
                       std::vector<Interval>* out) const {
  std::vector<Interval>& d = *out;
  d.resize(nodes_.size());
  for (size_t i = 0; i < nodes_.size(); ++i) {
    const Node& n = nodes_[i];
    const Interval x = n.a >= 0 ? d[n.a] : Interval();
    const Interval y = n.b >= 0 ? d[n.b] : Interval();
    switch (n.op) {
      case ExprNode::SYMBOL: d[i] = box[n.n]; break;
      case ExprNode::CST: d[i] = n.c; break;
      case ExprNode::ADD: d[i] = x + y; break;
      case ExprNode::SUB: d[i] = x - y; break;
      case ExprNode::MUL: d[i] = x * y; break;
      case ExprNode::DIV: d[i] = x / y; break;
      case ExprNode::NEG: d[i] = -x; break;
      case ExprNode::POWI: d[i] = pow(x, n.n); break;
      case ExprNode::POWD:
      case ExprNode::POW: d[i] = pow(x, y); break;
      case ExprNode::SQR: d[i] = sqr(x); break;
      case ExprNode::SQRT: d[i] = sqrt(x); break;
      case ExprNode::EXP: d[i] = exp(x); break;
      case ExprNode::LOG: d[i] = log(x); break;
      case ExprNode::ABS: d[i] = abs(x); break;
      case ExprNode::SIN: d[i] = sin(x); break;
      case ExprNode::COS: d[i] = cos(x); break;
      case ExprNode::TAN: d[i] = tan(x); break;
      case ExprNode::ASIN: d[i] = asin(x); break;
      case ExprNode::ACOS: d[i] = acos(x); break;
      case ExprNode::ATAN: d[i] = atan(x); break;
      case ExprNode::ATAN2: d[i] = atan2(x, y); break;
      case ExprNode::SINH: d[i] = sinh(x); break;
      case ExprNode::COSH: d[i] = cosh(x); break;
      case ExprNode::TANH: d[i] = tanh(x); break;
      case ExprNode::MIN: d[i] = min(x, y); break;
      case ExprNode::MAX: d[i] = max(x, y); break;
    }
  }
}
Interval Function::eval(const IntervalVector& box) const {
  std::vector<Interval> d;
  forward(box, &d);
  return d.back();
}
namespace {
// The n-th root of v >= 0, bounded from below and above.
double root_dn(double v, int n) {
  if (v == 0 || std::isinf(v)) return v;
  if (n == 2) return sqrt(Interval(v)).lb();
  Round r(_MM_ROUND_NEAREST);
  return std::max(0.0, below(std::pow(v, 1.0 / n), 4));
}
double root_up(double v, int n) {
  if (v == 0 || std::isinf(v)) return v;
  if (n == 2) return sqrt(Interval(v)).ub();
  Round r(_MM_ROUND_NEAREST);
  return above(std::pow(v, 1.0 / n), 4);
}
// Solutions of x^n in y, as a contraction of x.
Interval unpow(const Interval& y0, const Interval& x, int n) {
  if (n <= 0) return x;
  if (n % 2) {
    const Interval y = y0;
    EMPTY2
    const double l = y.lb() >= 0 ? root_dn(y.lb(), n) : -root_up(-y.lb(), n);
    const double u = y.ub() >= 0 ? root_up(y.ub(), n) : -root_dn(-y.ub(), n);
    return x & Interval(l, u);
  }
  const Interval y = y0 & Interval::POS_REALS;
  EMPTY2
  const Interval p(root_dn(y.lb(), n), root_up(y.ub(), n));
  return (x & p) | (x & -p);
}
// {q : q * z in y for some z}: division that keeps everything when both hold 0.
Interval undo_mul(const Interval& y, const Interval& z) {
  if (z.contains(0) && y.contains(0)) return Interval();
  return y / z;
}
}  // namespace
// The values of x whose sine lies in v, if x spans few enough periods.
static Interval unsin(const Interval& v, const Interval& x) {
  if (x.is_empty() || x.is_unbounded()) return x;
  const double first = std::floor(x.lb() / 3.14159) - 1;
  const double last = std::ceil(x.ub() / 3.14159) + 1;
  if (last - first > 40 || std::fabs(x.lb()) > 1e3 || std::fabs(x.ub()) > 1e3) {
    return x;
  }
  const Interval a = asin(v & Interval(-1, 1));
  Interval r = Interval::EMPTY_SET;
  for (double k = first; k <= last; ++k) {
    const bool odd = std::fmod(std::fabs(k), 2) == 1;
    r |= x & (Interval(k) * Interval::PI + (odd ? -a : a));
  }
  return r;
}

bool Function::backward(const Interval& y, IntervalVector& box) const {
  if (box.is_empty()) return false;
  std::vector<Interval> d;
  forward(box, &d);
  if (!d.back().is_empty() && d.back().is_subset(y)) return true;
  d.back() &= y;
  bool empty = d.back().is_empty();
  for (size_t k = nodes_.size(); k-- > 0 && !empty;) {
    const Node& n = nodes_[k];
    const Interval v = d[k];
    const Interval x = n.a >= 0 ? d[n.a] : Interval();
    const Interval z = n.b >= 0 ? d[n.b] : Interval();
    Interval nx = x, nz = z;
    switch (n.op) {
      case ExprNode::SYMBOL:
        box[n.n] &= v;
        if (box[n.n].is_empty()) empty = true;
        break;
      case ExprNode::ADD:
        nx = x & (v - z);
        nz = z & (v - x);
        break;
      case ExprNode::SUB:
        nx = x & (v + z);
        nz = z & (x - v);
        break;
      case ExprNode::MUL:
        nx = x & undo_mul(v, z);
        nz = z & undo_mul(v, x);
        break;
      case ExprNode::DIV:
        nx = x & (v * z);
        nz = z & undo_mul(x, v);
        break;
      case ExprNode::NEG: nx = x & -v; break;
      case ExprNode::POWI: nx = unpow(v, x, n.n); break;
      case ExprNode::SQR: nx = unpow(v, x, 2); break;
      case ExprNode::SQRT: nx = x & sqr(v & Interval::POS_REALS); break;
      case ExprNode::EXP: nx = x & log(v); break;
      case ExprNode::LOG: nx = x & exp(v); break;
      case ExprNode::ABS: {
        const Interval p = v & Interval::POS_REALS;
        nx = (x & p) | (x & -p);
        break;
      }
      case ExprNode::MIN:
        nx = x & Interval(v.lb(), kInf);
        nz = z & Interval(v.lb(), kInf);
        break;
      case ExprNode::MAX:
        nx = x & Interval(-kInf, v.ub());
        nz = z & Interval(-kInf, v.ub());
        break;
      case ExprNode::SIN: nx = unsin(v, x); break;
      case ExprNode::COS:
        if (!x.is_unbounded()) {
          nx = x & (unsin(v, x + Interval::HALF_PI) - Interval::HALF_PI);
        }
        break;
      case ExprNode::ASIN: nx = x & sin(v & Interval(-1.6, 1.6)); break;
      case ExprNode::ACOS: nx = x & cos(v & Interval(0, 3.2)); break;
      default: break;
    }
    if (n.a >= 0) {
      d[n.a] = nx;
      empty = empty || nx.is_empty();
    }
    if (n.b >= 0) {
      d[n.b] = nz;
      empty = empty || nz.is_empty();
    }
  }
  if (empty) box.set_empty();
  return false;
}

NumConstraint::NumConstraint(const Array<const ExprSymbol>& vars,
                             const ExprCtr& c)
    : f(vars, c.e), op(c.op) {
  std::ostringstream o;
  o << c;
  text = o.str();
}
namespace {
Interval rhs(CmpOp op) {
  switch (op) {
    case LT:
    case LEQ: return Interval::NEG_REALS;
    case EQ: return Interval(0.0);
    default: return Interval::POS_REALS;
  }
}
}  // namespace
Interval NumConstraint::right_hand_side() const { return rhs(op); }
std::ostream& operator<<(std::ostream& os, const NumConstraint& c) {
  return os << c.text;
}
void CtcFwdBwd::contract(IntervalVector& box) { f_.backward(rhs(op_), box); }
System::System(const SystemFactory& f)
    : nb_ctr(static_cast<int>(f.ctrs.size())) {
  for (const ExprCtr* c : f.ctrs) {
    ctrs.push_back(std::make_shared<NumConstraint>(f.vars, *c));
  }
}
void CtcPolytopeHull::contract(IntervalVector& box) {
  for (const auto& c : sys_.ctrs) {
    if (box.is_empty()) return;
    c->f.backward(c->right_hand_side(), box);
  }
}
}  // namespace ibex
