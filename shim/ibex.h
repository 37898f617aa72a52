// A stand-in for the part of the IBEX interval library dReal uses.  IBEX is
// not available where the checks run.  Enclosures are sound: arithmetic is
// rounded outwards exactly, elementary functions are widened by a few units
// in the last place.  Contraction is forward-backward over the expression
// tree (HC4), the identity for the operations it cannot invert.
#pragma once
#include <cmath>
#include <iosfwd>
#include <limits>
#include <memory>
#include <ostream>
#include <string>
#include <utility>
#include <vector>

namespace ibex {

class Interval {
 public:
  Interval()
      : lb_(-std::numeric_limits<double>::infinity()),
        ub_(std::numeric_limits<double>::infinity()) {}
  Interval(double v) { set(v, v); }  // NOLINT
  Interval(double lb, double ub) { set(lb, ub); }

  double lb() const { return lb_; }
  double ub() const { return ub_; }
  double mid() const;
  double diam() const;
  double rad() const;
  double mag() const;
  double mig() const;
  bool is_empty() const { return !(lb_ <= ub_); }
  bool is_degenerated() const { return is_empty() || lb_ == ub_; }
  bool is_unbounded() const {
    return !is_empty() && (std::isinf(lb_) || std::isinf(ub_));
  }
  bool is_bisectable() const;
  bool contains(double v) const { return lb_ <= v && v <= ub_; }
  bool is_subset(const Interval& x) const {
    return is_empty() || (x.lb_ <= lb_ && ub_ <= x.ub_);
  }
  bool is_superset(const Interval& x) const { return x.is_subset(*this); }
  bool intersects(const Interval& x) const {
    return !is_empty() && !x.is_empty() && lb_ <= x.ub_ && x.lb_ <= ub_;
  }
  void set_empty() {
    lb_ = ub_ = std::numeric_limits<double>::quiet_NaN();
  }
  Interval& inflate(double rad);
  std::pair<Interval, Interval> bisect(double ratio = 0.5) const;

  Interval& operator&=(const Interval& x);
  Interval& operator|=(const Interval& x);
  Interval& operator+=(const Interval& x);
  Interval& operator-=(const Interval& x);
  Interval& operator*=(const Interval& x);
  Interval& operator/=(const Interval& x);
  bool operator==(const Interval& x) const {
    return (is_empty() && x.is_empty()) || (lb_ == x.lb_ && ub_ == x.ub_);
  }
  bool operator!=(const Interval& x) const { return !(*this == x); }

  static const Interval EMPTY_SET, ALL_REALS, ZERO, ONE, POS_REALS, NEG_REALS,
      PI, TWO_PI, HALF_PI;

 private:
  void set(double lb, double ub) {
    const double inf = std::numeric_limits<double>::infinity();
    if (!(lb <= ub) || lb == inf || ub == -inf) {
      set_empty();
    } else {
      lb_ = lb;
      ub_ = ub;
    }
  }
  double lb_, ub_;
};

Interval operator&(const Interval& x, const Interval& y);
Interval operator|(const Interval& x, const Interval& y);
Interval operator-(const Interval& x);
Interval operator+(const Interval& x, const Interval& y);
Interval operator-(const Interval& x, const Interval& y);
Interval operator*(const Interval& x, const Interval& y);
Interval operator/(const Interval& x, const Interval& y);
Interval sqr(const Interval& x);
Interval sqrt(const Interval& x);
Interval pow(const Interval& x, int n);
Interval pow(const Interval& x, double d);
Interval pow(const Interval& x, const Interval& y);
Interval exp(const Interval& x);
Interval log(const Interval& x);
Interval abs(const Interval& x);
Interval sin(const Interval& x);
Interval cos(const Interval& x);
Interval tan(const Interval& x);
Interval asin(const Interval& x);
Interval acos(const Interval& x);
Interval atan(const Interval& x);
Interval sinh(const Interval& x);
Interval cosh(const Interval& x);
Interval tanh(const Interval& x);
Interval atan2(const Interval& y, const Interval& x);
Interval min(const Interval& x, const Interval& y);
Interval max(const Interval& x, const Interval& y);
std::ostream& operator<<(std::ostream& os, const Interval& x);

class IntervalVector {
 public:
  explicit IntervalVector(int n) : v_(n) {}
  IntervalVector(int n, const Interval& x) : v_(n, x) {}
  int size() const { return static_cast<int>(v_.size()); }
  void resize(int n) { v_.resize(n); }
  bool is_empty() const { return !v_.empty() && v_[0].is_empty(); }
  void set_empty() {
    if (!v_.empty()) v_[0].set_empty();
  }
  Interval& operator[](int i) { return v_[i]; }
  const Interval& operator[](int i) const { return v_[i]; }
  IntervalVector& operator|=(const IntervalVector& x);
  IntervalVector& operator&=(const IntervalVector& x);
  bool operator==(const IntervalVector& x) const;
  bool operator!=(const IntervalVector& x) const { return !(*this == x); }
  double max_diam() const;

 private:
  std::vector<Interval> v_;
};
std::ostream& operator<<(std::ostream& os, const IntervalVector& x);

class Dim {
 public:
  static Dim scalar() { return Dim(); }
};

enum CmpOp { LT, LEQ, EQ, GEQ, GT };

class ExprCtr;
// Nodes live as long as the program: dReal's clean-up calls are no-ops here.
class ExprNode {
 public:
  enum Op {
    SYMBOL, CST, ADD, SUB, MUL, DIV, NEG, POWI, POWD, POW, SQR, SQRT, EXP, LOG,
    ABS, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2, SINH, COSH, TANH, MIN, MAX
  };
  ExprNode(Op op, std::vector<const ExprNode*> args)
      : op_(op), args_(std::move(args)) {}
  virtual ~ExprNode() {}
  const ExprCtr& operator=(const ExprNode& r) const;
  const ExprCtr& operator=(double r) const;

  Op op_;
  std::vector<const ExprNode*> args_;
  int n_{0};          // exponent of POWI
  Interval c_;        // value of CST
  std::string name_;  // of SYMBOL
};
class ExprSymbol : public ExprNode {
 public:
  static const ExprSymbol& new_(const char* name = "_x_",
                                const Dim& = Dim());
  const ExprCtr& operator=(const ExprNode& r) const {
    return ExprNode::operator=(r);
  }

 private:
  ExprSymbol() : ExprNode(SYMBOL, {}) {}
};
class ExprConstant : public ExprNode {
 public:
  static const ExprConstant& new_scalar(double v) {
    return new_scalar(Interval(v));
  }
  static const ExprConstant& new_scalar(const Interval& v);

 private:
  ExprConstant() : ExprNode(CST, {}) {}
};
class ExprCtr {
 public:
  ExprCtr(const ExprNode& node, CmpOp o) : e(node), op(o) {}
  const ExprNode& e;
  CmpOp op;
};
inline void cleanup(const ExprNode&, bool) {}

const ExprNode& operator+(const ExprNode& a, const ExprNode& b);
const ExprNode& operator-(const ExprNode& a, const ExprNode& b);
const ExprNode& operator*(const ExprNode& a, const ExprNode& b);
const ExprNode& operator/(const ExprNode& a, const ExprNode& b);
const ExprNode& operator-(const ExprNode& a);
#define IBEX_SHIM_MIXED(op)                                            \
  inline const ExprNode& operator op(const ExprNode& a, double b) {    \
    return a op ExprConstant::new_scalar(b);                           \
  }                                                                    \
  inline const ExprNode& operator op(double a, const ExprNode& b) {    \
    return ExprConstant::new_scalar(a) op b;                           \
  }
IBEX_SHIM_MIXED(+)
IBEX_SHIM_MIXED(-)
IBEX_SHIM_MIXED(*)
IBEX_SHIM_MIXED(/)
#undef IBEX_SHIM_MIXED
const ExprNode& pow(const ExprNode& a, int n);
const ExprNode& pow(const ExprNode& a, double d);
const ExprNode& pow(double a, const ExprNode& b);
const ExprNode& pow(const ExprNode& a, const ExprNode& b);
const ExprNode& sqr(const ExprNode& a);
const ExprNode& sqrt(const ExprNode& a);
const ExprNode& exp(const ExprNode& a);
const ExprNode& log(const ExprNode& a);
const ExprNode& abs(const ExprNode& a);
const ExprNode& sin(const ExprNode& a);
const ExprNode& cos(const ExprNode& a);
const ExprNode& tan(const ExprNode& a);
const ExprNode& asin(const ExprNode& a);
const ExprNode& acos(const ExprNode& a);
const ExprNode& atan(const ExprNode& a);
const ExprNode& sinh(const ExprNode& a);
const ExprNode& cosh(const ExprNode& a);
const ExprNode& tanh(const ExprNode& a);
const ExprNode& atan2(const ExprNode& a, const ExprNode& b);
const ExprNode& min(const ExprNode& a, const ExprNode& b);
const ExprNode& max(const ExprNode& a, const ExprNode& b);
const ExprCtr& operator<(const ExprNode& a, const ExprNode& b);
const ExprCtr& operator<=(const ExprNode& a, const ExprNode& b);
const ExprCtr& operator>(const ExprNode& a, const ExprNode& b);
const ExprCtr& operator>=(const ExprNode& a, const ExprNode& b);
std::ostream& operator<<(std::ostream& os, const ExprNode& e);
std::ostream& operator<<(std::ostream& os, const ExprCtr& c);

template <class T>
class Array {
 public:
  void add(T& x) { v_.push_back(&x); }
  int size() const { return static_cast<int>(v_.size()); }
  T& operator[](int i) const { return *v_[i]; }

 private:
  std::vector<T*> v_;
};

// A compiled expression over the components of a box.
class Function {
 public:
  Function(const Array<const ExprSymbol>& vars, const ExprNode& e);
  Function(const ExprSymbol& x, const ExprSymbol& y, const ExprSymbol& z,
           const ExprNode& e);
  Interval eval(const IntervalVector& box) const;
  // Contracts box w.r.t. e in y; returns true if it need not be changed.
  bool backward(const Interval& y, IntervalVector& box) const;
  int nb_var() const { return nvar_; }

 private:
  struct Node {
    ExprNode::Op op;
    int a{-1}, b{-1};  // operands, earlier in the list
    int n{0};          // exponent, or index of the variable
    Interval c;
  };
  int add(const ExprNode& e, const std::vector<const ExprNode*>& vars);
  void forward(const IntervalVector& box, std::vector<Interval>* d) const;
  std::vector<Node> nodes_;
  int nvar_{0};
};

class NumConstraint {
 public:
  NumConstraint(const Array<const ExprSymbol>& vars, const ExprCtr& c);
  Interval right_hand_side() const;
  Function f;
  CmpOp op;
  std::string text;
};
std::ostream& operator<<(std::ostream& os, const NumConstraint& c);

class Ctc {
 public:
  virtual ~Ctc() {}
  virtual void contract(IntervalVector& box) = 0;  // NOLINT
};
class CtcFwdBwd : public Ctc {
 public:
  explicit CtcFwdBwd(Function& f, CmpOp op = EQ) : f_(f), op_(op) {}  // NOLINT
  void contract(IntervalVector& box) override;

 private:
  Function& f_;
  CmpOp op_;
};

class SystemFactory {
 public:
  void add_var(const Array<const ExprSymbol>& v) { vars = v; }
  void add_ctr(const ExprCtr& c) { ctrs.push_back(&c); }
  Array<const ExprSymbol> vars;
  std::vector<const ExprCtr*> ctrs;
};
class System {
 public:
  explicit System(const SystemFactory& f);
  int nb_ctr;
  std::vector<std::shared_ptr<NumConstraint>> ctrs;
};
class LinearizerCombo {
 public:
  enum linear_mode { AFFINE2, XNEWTON, TAYLOR, HANSEN, COMPO };
  LinearizerCombo(const System& s, linear_mode) : sys(s) {}
  const System& sys;
};
// Contracts with each constraint in turn (sound, if not what a linear
// relaxation would give).
class CtcPolytopeHull : public Ctc {
 public:
  explicit CtcPolytopeHull(LinearizerCombo& l) : sys_(l.sys) {}  // NOLINT
  void contract(IntervalVector& box) override;

 private:
  const System& sys_;
};

}  // namespace ibex
