-------------------------------- MODULE Terms -------------------------------
(* Abstract syntax and meaning of dReal's symbolic expressions and formulas. *)
(*                                                                           *)
(* Terms are tuples <<kind, ...>>; numbers are rationals <<n, d>> with d > 0 *)
(* and <<0, 0>> (Bot) for "undefined, or outside the exact fragment": no     *)
(* claim is made about a point where the specification says Bot.  Truth      *)
(* values are 1, 0 and 2 (= undefined, weak Kleene).  Only dyadic rationals  *)
(* of moderate size are kept, so that every defined value is computed by     *)
(* double arithmetic exactly, in whatever order the code chooses.            *)
EXTENDS Integers, Sequences, FiniteSets

Bot == <<0, 0>>
Lim == 16384
Defd(r) == r[2] # 0
Abs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IsPow2(d) == d \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Norm(n, d) ==   \* d # 0
  LET m == IF d < 0 THEN -n ELSE n
      e == IF d < 0 THEN -d ELSE d
      g == Gcd(Abs(m), e)
      p == m \div g
      q == e \div g
  IN IF Abs(p) > Lim \/ ~IsPow2(q) THEN Bot ELSE <<p, q>>
RInt(n) == <<n, 1>>
RAdd(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN Bot ELSE Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RNeg(a) == IF a[2] = 0 THEN Bot ELSE <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN Bot ELSE Norm(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == IF a[2] = 0 \/ b[2] = 0 \/ b[1] = 0 THEN Bot ELSE Norm(a[1] * b[2], a[2] * b[1])
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RMin(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN Bot ELSE IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN Bot ELSE IF RLe(a, b) THEN b ELSE a
RAbs(a) == <<Abs(a[1]), a[2]>>
RECURSIVE RPowN(_, _)
RPowN(a, k) == IF k = 0 THEN <<1, 1>> ELSE RMul(a, RPowN(a, k - 1))
RPow(a, b) ==
  IF a[2] = 0 \/ b[2] # 1 \/ Abs(b[1]) > 12 THEN Bot
  ELSE IF b[1] >= 0 THEN (IF a[1] = 0 /\ b[1] = 0 THEN Bot ELSE RPowN(a, b[1]))
  ELSE RDiv(<<1, 1>>, RPowN(a, -b[1]))
RFn(f, a) ==
  IF a[2] = 0 THEN Bot
  ELSE CASE f = "abs" -> RAbs(a)
    [] f = "sqrt" -> IF a[2] = 1 /\ a[1] \in {0, 1, 4, 9, 16, 25, 36, 49, 64}
                     THEN <<CHOOSE s \in 0..8 : s * s = a[1], 1>> ELSE Bot
    [] f \in {"exp", "cos", "cosh"} -> IF a[1] = 0 THEN <<1, 1>> ELSE Bot
    [] f \in {"sin", "tan", "asin", "atan", "sinh", "tanh"} -> IF a[1] = 0 THEN <<0, 1>> ELSE Bot
    [] f = "log" -> IF a = <<1, 1>> THEN <<0, 1>> ELSE Bot
    [] OTHER -> Bot

Var(i) == <<"var", i>>
Con(n) == <<"const", n, 1>>
Zero == Con(0)
One == Con(1)
Fn(f, a) == <<"fn", f, a>>
Unary == {"neg", "not"}
Binary == {"add", "sub", "mul", "div", "pow", "min", "max", "atan2",
           "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "imp", "iff", "guard"}
Rels == {"lt", "le", "gt", "ge", "eq", "ne"}

RECURSIVE Size(_)
Size(t) ==
  CASE t[1] \in Binary -> 1 + Size(t[2]) + Size(t[3])
    [] t[1] \in Unary -> 1 + Size(t[2])
    [] t[1] = "fn" -> 1 + Size(t[3])
    [] t[1] = "ite" -> 1 + Size(t[2]) + Size(t[3]) + Size(t[4])
    [] t[1] = "forall" -> 1 + Size(t[4])
    [] OTHER -> 1

(* an upper bound of the work of evaluating t *)
RECURSIVE Cost(_)
Cost(t) ==
  CASE t[1] \in Binary -> 1 + Cost(t[2]) + Cost(t[3])
    [] t[1] \in Unary -> 1 + Cost(t[2])
    [] t[1] = "fn" -> 1 + Cost(t[3])
    [] t[1] = "ite" -> 1 + Cost(t[2]) + Cost(t[3]) + Cost(t[4])
    [] t[1] = "forall" -> LET b == Cost(t[4])
                          IN IF b > 10000 THEN b ELSE b * (4 ^ Len(t[2])) * (2 ^ Len(t[3])) + 1
    [] OTHER -> 1

(* t uses operations whose result the code may round *)
RECURSIVE Rounds(_)
Rounds(t) ==
  CASE t[1] \in {"div", "pow", "atan2"} -> TRUE
    [] t[1] = "const" -> t[3] # 1
    [] t[1] \in Binary -> Rounds(t[2]) \/ Rounds(t[3])
    [] t[1] \in Unary -> Rounds(t[2])
    [] t[1] = "fn" -> t[2] # "abs" \/ Rounds(t[3])
    [] t[1] = "ite" -> Rounds(t[2]) \/ Rounds(t[3]) \/ Rounds(t[4])
    [] t[1] = "forall" -> Rounds(t[4])
    [] OTHER -> FALSE

QDom == <<-1, 0, 1, 2>>   \* domain of quantified numeric variables

RECURSIVE Ev(_, _), Fv(_, _)
Ev(t, env) ==
  CASE t[1] = "var" -> env.n[t[2]]
    [] t[1] = "const" -> <<t[2], t[3]>>
    [] t[1] = "add" -> RAdd(Ev(t[2], env), Ev(t[3], env))
    [] t[1] = "mul" -> RMul(Ev(t[2], env), Ev(t[3], env))
    [] t[1] = "sub" -> RSub(Ev(t[2], env), Ev(t[3], env))
    [] t[1] = "neg" -> RNeg(Ev(t[2], env))
    [] t[1] = "div" -> RDiv(Ev(t[2], env), Ev(t[3], env))
    [] t[1] = "pow" -> RPow(Ev(t[2], env), Ev(t[3], env))
    [] t[1] = "min" -> RMin(Ev(t[2], env), Ev(t[3], env))
    [] t[1] = "max" -> RMax(Ev(t[2], env), Ev(t[3], env))
    [] t[1] = "fn" -> RFn(t[2], Ev(t[3], env))
    [] t[1] = "ite" -> LET c == Fv(t[2], env)
                       IN IF c = 1 THEN Ev(t[3], env) ELSE IF c = 0 THEN Ev(t[4], env) ELSE Bot
    [] t[1] = "guard" -> IF Defd(Ev(t[2], env)) THEN Ev(t[3], env) ELSE Bot
    [] OTHER -> Bot      \* "atan2", "undef": outside the exact fragment

B(b) == IF b THEN 1 ELSE 0
Rel(op, l, r) ==
  CASE op = "lt" -> RLt(l, r)
    [] op = "le" -> RLe(l, r)
    [] op = "gt" -> RLt(r, l)
    [] op = "ge" -> RLe(r, l)
    [] op = "eq" -> l = r
    [] op = "ne" -> l # r

(* all ways to give values to a list of quantified variables *)
RECURSIVE ForallOver(_, _, _, _)
ForallOver(nv, bv, f, env) ==
  IF nv # <<>> THEN
    LET S == {ForallOver(Tail(nv), bv, f, [env EXCEPT !.n[nv[1]] = <<QDom[q], 1>>]) : q \in 1..Len(QDom)}
    IN IF 2 \in S THEN 2 ELSE IF 0 \in S THEN 0 ELSE 1
  ELSE IF bv # <<>> THEN
    LET S == {ForallOver(nv, Tail(bv), f, [env EXCEPT !.b[bv[1]] = q]) : q \in {0, 1}}
    IN IF 2 \in S THEN 2 ELSE IF 0 \in S THEN 0 ELSE 1
  ELSE Fv(f, env)

Fv(t, env) ==
  CASE t[1] = "bvar" -> env.b[t[2]]
    [] t[1] = "true" -> 1
    [] t[1] = "false" -> 0
    [] t[1] \in Rels ->
         LET l == Ev(t[2], env)
             r == Ev(t[3], env)
         IN IF ~Defd(l) \/ ~Defd(r) \/ (l = r /\ (Rounds(t[2]) \/ Rounds(t[3]))) THEN 2
            ELSE B(Rel(t[1], l, r))
    [] t[1] = "not" -> LET a == Fv(t[2], env) IN IF a = 2 THEN 2 ELSE 1 - a
    [] t[1] = "and" -> LET a == Fv(t[2], env)  b == Fv(t[3], env)
                       IN IF a = 2 \/ b = 2 THEN 2 ELSE a * b
    [] t[1] = "or" -> LET a == Fv(t[2], env)  b == Fv(t[3], env)
                      IN IF a = 2 \/ b = 2 THEN 2 ELSE IF a + b > 0 THEN 1 ELSE 0
    [] t[1] = "imp" -> LET a == Fv(t[2], env)  b == Fv(t[3], env)
                       IN IF a = 2 \/ b = 2 THEN 2 ELSE IF a <= b THEN 1 ELSE 0
    [] t[1] = "iff" -> LET a == Fv(t[2], env)  b == Fv(t[3], env)
                       IN IF a = 2 \/ b = 2 THEN 2 ELSE IF a = b THEN 1 ELSE 0
    [] t[1] = "forall" -> ForallOver(t[2], t[3], t[4], env)
    [] OTHER -> 2

(* ------------------------------------------------------- free variables *)
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE FN(_), FB(_)     \* numeric / Boolean free variables
FN(t) ==
  CASE t[1] = "var" -> {t[2]}
    [] t[1] \in Binary -> FN(t[2]) \cup FN(t[3])
    [] t[1] \in Unary -> FN(t[2])
    [] t[1] = "fn" -> FN(t[3])
    [] t[1] = "ite" -> FN(t[2]) \cup FN(t[3]) \cup FN(t[4])
    [] t[1] = "forall" -> FN(t[4]) \ Range(t[2])
    [] OTHER -> {}
FB(t) ==
  CASE t[1] = "bvar" -> {t[2]}
    [] t[1] \in Binary -> FB(t[2]) \cup FB(t[3])
    [] t[1] \in Unary -> FB(t[2])
    [] t[1] = "fn" -> FB(t[3])
    [] t[1] = "ite" -> FB(t[2]) \cup FB(t[3]) \cup FB(t[4])
    [] t[1] = "forall" -> FB(t[4]) \ Range(t[3])
    [] OTHER -> {}

(* ---------------------------------------- capture-avoiding substitution *)
(* s = [n |-> seq of terms, b |-> seq of terms]; <<>> means "unchanged"    *)
NIds == 8
NoSubst == [n |-> [i \in 1..NIds |-> <<>>], b |-> [i \in 1..NIds |-> <<>>]]
UsedN(s, fn, fb) == UNION ({FN(s.n[i]) : i \in {j \in fn : s.n[j] # <<>>}} \cup
                           {FN(s.b[i]) : i \in {j \in fb : s.b[j] # <<>>}})
UsedB(s, fn, fb) == UNION ({FB(s.n[i]) : i \in {j \in fn : s.n[j] # <<>>}} \cup
                           {FB(s.b[i]) : i \in {j \in fb : s.b[j] # <<>>}})
FreshIds(bad, k) ==   \* k ids outside bad, as a sequence (smallest first)
  LET RECURSIVE F(_, _)
      F(i, acc) == IF Len(acc) = k \/ i > NIds THEN acc
                   ELSE F(i + 1, IF i \in bad THEN acc ELSE Append(acc, i))
  IN F(4, <<>>)
RECURSIVE Sub(_, _)
Sub(t, s) ==
  CASE t[1] = "var" -> IF s.n[t[2]] = <<>> THEN t ELSE s.n[t[2]]
    [] t[1] = "bvar" -> IF s.b[t[2]] = <<>> THEN t ELSE s.b[t[2]]
    [] t[1] \in Binary -> <<t[1], Sub(t[2], s), Sub(t[3], s)>>
    [] t[1] \in Unary -> <<t[1], Sub(t[2], s)>>
    [] t[1] = "fn" -> <<"fn", t[2], Sub(t[3], s)>>
    [] t[1] = "ite" -> <<"ite", Sub(t[2], s), Sub(t[3], s), Sub(t[4], s)>>
    [] t[1] = "forall" ->
         LET fn == FN(t[4]) \ Range(t[2])
             fb == FB(t[4]) \ Range(t[3])
             rn == UsedN(s, fn, fb)
             rb == UsedB(s, fn, fb)
             badn == rn \cup FN(t[4])
             badb == rb \cup FB(t[4])
             fresn == FreshIds(badn, Len(t[2]))
             fresb == FreshIds(badb, Len(t[3]))
             nv == [i \in 1..Len(t[2]) |-> IF t[2][i] \in rn THEN fresn[i] ELSE t[2][i]]
             bv == [i \in 1..Len(t[3]) |-> IF t[3][i] \in rb THEN fresb[i] ELSE t[3][i]]
             pos(q, v) == CHOOSE i \in 1..Len(q) : q[i] = v
             s2 == [n |-> [i \in 1..NIds |-> IF i \in Range(t[2]) THEN Var(nv[pos(t[2], i)]) ELSE s.n[i]],
                    b |-> [i \in 1..NIds |-> IF i \in Range(t[3]) THEN <<"bvar", bv[pos(t[3], i)]>> ELSE s.b[i]]]
         IN <<"forall", nv, bv, Sub(t[4], s2)>>
    [] OTHER -> t

(* ------------------------------------------------------ differentiation *)
RECURSIVE HasKind(_, _)
HasKind(t, K) ==
  \/ t[1] \in K
  \/ t[1] = "fn" /\ t[2] \in K
  \/ CASE t[1] \in Binary -> HasKind(t[2], K) \/ HasKind(t[3], K)
       [] t[1] \in Unary -> HasKind(t[2], K)
       [] t[1] = "fn" -> HasKind(t[3], K)
       [] t[1] = "ite" -> HasKind(t[2], K) \/ HasKind(t[3], K) \/ HasKind(t[4], K)
       [] t[1] = "forall" -> HasKind(t[4], K)
       [] OTHER -> FALSE
Smooth == {"sqrt", "log", "asin", "acos", "tan", "pow", "div", "atan2"}
RECURSIVE D(_, _)
D(t, v) ==
  (* the rules of differentiation; nothing is claimed where one of them has *)
  (* no value (sqrt at 0, ...)                                              *)
  IF v \notin FN(t) /\ ~HasKind(t, Smooth) THEN Zero
  ELSE
  CASE t[1] = "var" -> One
    [] t[1] = "add" -> <<"add", D(t[2], v), D(t[3], v)>>
    [] t[1] = "sub" -> <<"sub", D(t[2], v), D(t[3], v)>>
    [] t[1] = "neg" -> <<"neg", D(t[2], v)>>
    [] t[1] = "mul" -> <<"add", <<"mul", D(t[2], v), t[3]>>, <<"mul", t[2], D(t[3], v)>>>>
    [] t[1] = "div" -> <<"div", <<"sub", <<"mul", D(t[2], v), t[3]>>, <<"mul", t[2], D(t[3], v)>>>>,
                                <<"mul", t[3], t[3]>>>>
    [] t[1] = "pow" -> IF v \notin FN(t[3]) /\ ~HasKind(t[3], Smooth)
                       THEN <<"mul", <<"mul", t[3], <<"pow", t[2], <<"sub", t[3], One>>>>>>, D(t[2], v)>>
                       ELSE IF v \notin FN(t[2]) /\ ~HasKind(t[2], Smooth)
                       THEN <<"mul", <<"mul", Fn("log", t[2]), t>>, D(t[3], v)>>
                       ELSE <<"mul", <<"pow", t[2], <<"sub", t[3], One>>>>,
                              <<"add", <<"mul", t[3], D(t[2], v)>>,
                                       <<"mul", <<"mul", Fn("log", t[2]), t[2]>>, D(t[3], v)>>>>>>
    [] t[1] = "atan2" -> <<"div", <<"sub", <<"mul", t[3], D(t[2], v)>>, <<"mul", t[2], D(t[3], v)>>>>,
                              <<"add", <<"mul", t[2], t[2]>>, <<"mul", t[3], t[3]>>>>>>
    [] t[1] = "fn" ->
         LET f == t[2]
             a == t[3]
             da == D(a, v)
             sq == <<"mul", a, a>>
         IN (CASE f = "exp" -> <<"mul", t, da>>
              [] f = "log" -> <<"div", da, a>>
              [] f = "sqrt" -> <<"div", da, <<"mul", Con(2), t>>>>
              [] f = "sin" -> <<"mul", Fn("cos", a), da>>
              [] f = "cos" -> <<"neg", <<"mul", Fn("sin", a), da>>>>
              [] f = "tan" -> <<"div", da, <<"mul", Fn("cos", a), Fn("cos", a)>>>>
              [] f = "asin" -> <<"div", da, Fn("sqrt", <<"sub", One, sq>>)>>
              [] f = "acos" -> <<"neg", <<"div", da, Fn("sqrt", <<"sub", One, sq>>)>>>>
              [] f = "atan" -> <<"div", da, <<"add", One, sq>>>>
              [] f = "sinh" -> <<"mul", Fn("cosh", a), da>>
              [] f = "cosh" -> <<"mul", Fn("sinh", a), da>>
              [] f = "tanh" -> <<"div", da, <<"mul", Fn("cosh", a), Fn("cosh", a)>>>>
              [] OTHER -> <<"undef">>)
    [] OTHER -> <<"undef">>      \* abs, min, max, ite: no derivative is claimed

(* forward-mode (dual number) value of the derivative: a second, independent  *)
(* definition used to check D itself on the polynomial/rational fragment      *)
RECURSIVE Dual(_, _, _)
Dual(t, v, env) ==    \* <<value, derivative>>
  CASE t[1] = "var" -> <<env.n[t[2]], IF t[2] = v THEN <<1, 1>> ELSE <<0, 1>>>>
    [] t[1] = "const" -> <<<<t[2], t[3]>>, <<0, 1>>>>
    [] t[1] \in {"add", "sub", "mul", "div"} ->
         LET a == Dual(t[2], v, env)
             b == Dual(t[3], v, env)
         IN (CASE t[1] = "add" -> <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
              [] t[1] = "sub" -> <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
              [] t[1] = "mul" -> <<RMul(a[1], b[1]), RAdd(RMul(a[2], b[1]), RMul(a[1], b[2]))>>
              [] t[1] = "div" -> <<RDiv(a[1], b[1]),
                   RDiv(RSub(RMul(a[2], b[1]), RMul(a[1], b[2])), RMul(b[1], b[1]))>>)
    [] t[1] = "neg" -> LET a == Dual(t[2], v, env) IN <<RNeg(a[1]), RNeg(a[2])>>
    [] t[1] = "pow" -> LET a == Dual(t[2], v, env)
                       IN IF t[3][1] = "const"
                          THEN LET k == <<t[3][2], t[3][3]>>
                               IN <<RPow(a[1], k), RMul(RMul(k, RPow(a[1], RSub(k, <<1, 1>>))), a[2])>>
                          ELSE <<Bot, Bot>>
    [] OTHER -> <<Bot, Bot>>

(* ------------------------------- delta-strengthening, lower/upper bounds *)
(* dl is a rational; positive = strengthen.  DeltaTruth(f, env, dl, up) is   *)
(* the weakest (up) / strongest (~up) result a delta-perturbation may have.  *)
RECURSIVE DeltaTruth(_, _, _, _)
DeltaTruth(t, env, dl, up) ==
  CASE t[1] \in Rels ->
         LET l == Ev(t[2], env)
             r == Ev(t[3], env)
             m == RSub(l, r)
             pos == dl[1] > 0
             nd == RNeg(dl)
         IN IF ~Defd(l) \/ ~Defd(r) \/ ~Defd(m) \/ Rounds(t[2]) \/ Rounds(t[3]) THEN 2
            ELSE (CASE t[1] = "gt" -> B(RLt(dl, m))
                   [] t[1] = "ge" -> B(RLe(dl, m))
                   [] t[1] = "lt" -> B(RLt(m, nd))
                   [] t[1] = "le" -> B(RLe(m, nd))
                   [] t[1] = "eq" -> IF pos THEN (IF up THEN B(l = r) ELSE 0)
                                     ELSE B(RLe(dl, m) /\ RLe(m, nd))
                   [] t[1] = "ne" -> IF pos THEN B(RLt(dl, m) \/ RLt(m, nd))
                                     ELSE (IF up THEN 1 ELSE B(l # r)))
    [] t[1] = "not" -> LET a == DeltaTruth(t[2], env, RNeg(dl), ~up) IN IF a = 2 THEN 2 ELSE 1 - a
    [] t[1] = "and" -> LET a == DeltaTruth(t[2], env, dl, up)  b == DeltaTruth(t[3], env, dl, up)
                       IN IF a = 2 \/ b = 2 THEN 2 ELSE a * b
    [] t[1] = "or" -> LET a == DeltaTruth(t[2], env, dl, up)  b == DeltaTruth(t[3], env, dl, up)
                      IN IF a = 2 \/ b = 2 THEN 2 ELSE IF a + b > 0 THEN 1 ELSE 0
    [] t[1] = "imp" -> DeltaTruth(<<"or", <<"not", t[2]>>, t[3]>>, env, dl, up)
    [] t[1] = "iff" -> DeltaTruth(<<"and", <<"or", <<"not", t[2]>>, t[3]>>,
                                          <<"or", <<"not", t[3]>>, t[2]>>>>, env, dl, up)
    [] OTHER -> Fv(t, env)
=============================================================================
