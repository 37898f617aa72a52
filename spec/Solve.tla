------------------------------- MODULE Solve -------------------------------
(* The satisfiability context.  A problem is a stack of scopes; each scope   *)
(* has the variables declared and the formulas asserted in it.  A check may  *)
(* answer "unsat" only if no assignment satisfies every live assertion, and  *)
(* "delta-sat" only with a model of their weakening.  Truth is decided here  *)
(* on a grid inside the declared domains: a grid solution forbids "unsat".   *)
(* (The weakening is judged at the model the code returns.)                  *)
(*                                                                           *)
(* Numbers are scaled by 4.  Variables and the factors of a product take     *)
(* half-integer values, so every value is exact.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng, Fns

CONSTANTS Conf,      \* option changes draw from 0 .. Conf - 1 (0: none; over 1000: Planned)
          Mix,       \* which types the variables have
          L, Random, Seed0, Runs, Ite, Quant, Scopes,
          Fun          \* constraints with elementary functions
VARIABLES scopes,    \* sequence of [decl |-> set of <<v, lo, hi>>, asr |-> seq of formula numbers]
          fs,        \* all formulas asserted so far
          hist, rng
vars == <<scopes, fs, hist, rng>>

(* "B" Boolean, "I" integer, "N" binary, "R" real; "J" and "K" are integers *)
(* which the driver moves far away: it adds 3*10^9 or -5*10^10 to them, and   *)
(* subtracts it wherever they occur.  No answer may depend on that.          *)
Types == <<<<"I", "B">>, <<"I", "I", "B">>, <<"R", "R", "B">>, <<"I", "R", "B", "N">>, <<"R", "R", "I">>,
           <<"B", "B", "I", "I", "R">>, <<"R", "R">>, <<"B", "B", "B", "R">>, <<"R", "I", "N">>, <<"I", "R">>,
           <<"R", "R", "R", "R">>, <<"J", "K", "B">>, <<"J", "R", "I">>, <<"B", "K", "J", "K">>, <<"I", "I", "N">>>>[Mix]
NV == Len(Types)
Vs == 1..NV
None == 99999
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* ------------------------------------------------------------- meaning --- *)
RECURSIVE TV(_, _), FV(_, _)
TV(t, p) ==
  CASE t[1] = "c" -> t[2]
    [] t[1] = "v" -> p[t[2]]
    [] t[1] = "add" -> TV(t[2], p) + TV(t[3], p)
    [] t[1] = "sub" -> TV(t[2], p) - TV(t[3], p)
    [] t[1] = "neg" -> -TV(t[2], p)
    [] t[1] = "mul" -> (TV(t[2], p) * TV(t[3], p)) \div 4
    [] t[1] = "sq" -> (TV(t[2], p) * TV(t[2], p)) \div 4
    [] t[1] = "abs" -> Abs(TV(t[2], p))
    [] t[1] = "min" -> Min2(TV(t[2], p), TV(t[3], p))
    [] t[1] = "max" -> Max2(TV(t[2], p), TV(t[3], p))
    [] t[1] = "ite" -> IF FV(t[2], p) THEN TV(t[3], p) ELSE TV(t[4], p)
Rel(o, a, b) == CASE o = "lt" -> a < b [] o = "le" -> a <= b [] o = "eq" -> a = b
                  [] o = "ne" -> a # b [] o = "ge" -> a >= b [] o = "gt" -> a > b
FV(f, p) ==
  CASE f[1] = "true" -> TRUE
    [] f[1] = "false" -> FALSE
    [] f[1] = "b" -> p[f[2]] = 4
    [] f[1] = "rel" -> Rel(f[2], TV(f[3], p), TV(f[4], p))
    [] f[1] = "not" -> ~FV(f[2], p)
    [] f[1] = "and" -> FV(f[2], p) /\ FV(f[3], p)
    [] f[1] = "or" -> FV(f[2], p) \/ FV(f[3], p)
    [] f[1] = "imp" -> FV(f[2], p) => FV(f[3], p)
    [] f[1] = "iff" -> FV(f[2], p) <=> FV(f[3], p)
    (* for all q in [lo, hi]: a*q + t rel 0, linear in q: the ends decide *)
    (* the same of any body in which a linear q is variable NV + 1 *)
    [] f[1] = "fa" -> \A q \in {f[2], f[3]} : FV(f[4], [p EXCEPT ![NV + 1] = q])
    [] f[1] = "all" -> \A q \in {f[2], f[3]} : Rel(f[4], (f[5] * q) \div 4 + TV(f[6], p), 0)

(* Constraints with an elementary function. *)
(* truth of a constraint at a point: 0, 1, or 2 for unknown *)
(* fn: of a variable; fnt: of a term, known where its value is tabulated    *)
PTV(t, p) ==   \* scaled by 10000
  CASE t[1] = "fn" -> FnAt(t[2], p[t[3]])
    [] t[1] = "fnt" -> LET a == TV(t[3], p) IN
                       IF a % 2 = 0 /\ Abs(a) <= 8 THEN FnAt(t[2], a) ELSE Undef
    [] OTHER -> 2500 * TV(t, p)
Exact(t, p) == t[1] \notin {"fn", "fnt"} \/ PTV(t, p) % 10000 = 0
Defined(t, p) == t[1] \notin {"fn", "fnt"} \/ PTV(t, p) # Undef
(* <<"cmp", op, a, fnterm, term, c, negated>>: a * fnterm + term op c *)
Truth(f, p) ==
  IF f[1] = "cmp"
  THEN IF ~Defined(f[4], p) THEN 2
       ELSE LET d == f[3] * PTV(f[4], p) + PTV(f[5], p) - 2500 * f[6] IN
            IF ~Exact(f[4], p) /\ Abs(d) <= 4 * Abs(f[3]) THEN 2
            ELSE IF Rel(f[2], d, 0) # (f[7] = 1) THEN 1 ELSE 0
  ELSE IF f[1] = "neg" THEN (IF FV(f[2], p) THEN 0 ELSE 1)
  ELSE IF FV(f, p) THEN 1 ELSE 0

(* f surely has the truth value pos at p *)
RECURSIVE SV(_, _, _)
SV(f, pos, p) ==
  CASE f[1] = "cmp" -> Truth(f, p) = (IF pos THEN 1 ELSE 0)
    [] f[1] = "not" -> SV(f[2], ~pos, p)
    [] f[1] = "and" -> IF pos THEN SV(f[2], TRUE, p) /\ SV(f[3], TRUE, p)
                       ELSE SV(f[2], FALSE, p) \/ SV(f[3], FALSE, p)
    [] f[1] = "or" -> IF pos THEN SV(f[2], TRUE, p) \/ SV(f[3], TRUE, p)
                      ELSE SV(f[2], FALSE, p) /\ SV(f[3], FALSE, p)
    [] f[1] = "imp" -> IF pos THEN SV(f[2], FALSE, p) \/ SV(f[3], TRUE, p)
                       ELSE SV(f[2], TRUE, p) /\ SV(f[3], FALSE, p)
    [] f[1] = "iff" -> \/ SV(f[2], TRUE, p) /\ SV(f[3], pos, p)
                       \/ SV(f[2], FALSE, p) /\ SV(f[3], ~pos, p)
    [] OTHER -> FV(f, p) = pos

(* A point at which some function of the problem is undefined is neither a   *)
(* solution nor a counterexample: dReal gives partial functions no value     *)
(* outside their domains, even where the other operands settle the formula   *)
(* (see DESIGN).                                                             *)
RECURSIVE Def(_, _)
Def(f, p) ==
  CASE f[1] = "cmp" -> Defined(f[4], p)
    [] f[1] = "not" -> Def(f[2], p)
    [] f[1] \in {"and", "or", "imp", "iff"} -> Def(f[2], p) /\ Def(f[3], p)
    [] OTHER -> TRUE

(* -------------------------------------------------------------- scopes --- *)
Decls == UNION {scopes[k].decl : k \in 1..Len(scopes)}
Declared == {d[1] : d \in Decls}
DeclOf(v) == CHOOSE d \in Decls : d[1] = v
RECURSIVE Live(_)
Live(k) == IF k = 0 THEN <<>> ELSE Live(k - 1) \o scopes[k].asr
Grid(v) ==
  LET d == DeclOf(v) IN
  CASE Types[v] \in {"B", "N"} -> {0, 4}
    [] Types[v] \in {"I", "J", "K"} -> {4 * k : k \in Max2(d[2], -2)..Min2(d[3], 2)}
    [] OTHER -> {2 * k : k \in Max2(2 * d[2], -3)..Min2(2 * d[3], 3)}
SetToSeq(S) == LET f[T \in SUBSET S] == IF T = {} THEN <<>> ELSE
                     LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o f[T \ {x}] IN f[S]
(* a solution on the grid: assign the variables in turn *)
RECURSIVE Search(_, _, _)
Search(vs, p, lv) ==
  IF vs = <<>> THEN IF \A k \in 1..Len(lv) : SV(fs[lv[k]], TRUE, p) /\ Def(fs[lv[k]], p) THEN p ELSE <<>>
  ELSE LET S == {x \in Grid(Head(vs)) : Search(Tail(vs), [p EXCEPT ![Head(vs)] = x], lv) # <<>>} IN
       IF S = {} THEN <<>> ELSE Search(Tail(vs), [p EXCEPT ![Head(vs)] = CHOOSE x \in S : TRUE], lv)
RECURSIVE Exists(_, _, _)
Exists(vs, p, lv) ==
  IF vs = <<>> THEN \A k \in 1..Len(lv) : SV(fs[lv[k]], TRUE, p) /\ Def(fs[lv[k]], p)
  ELSE \E x \in Grid(Head(vs)) : Exists(Tail(vs), [p EXCEPT ![Head(vs)] = x], lv)
MustNotUnsat == Exists(SetToSeq(Declared), [v \in 1..(NV + 1) |-> 0], Live(Len(scopes)))

(* ----------------------------------------------------------- generation --- *)
(* generators return <<value, rng>> *)
D(r, n) == RngVal(r, n)
S1(r) == RngStep(r)
Nums == {v \in Declared : Types[v] # "B"}
Bools == {v \in Declared : Types[v] = "B"}
PickFrom(S, r) == LET q == SetToSeq(S) IN q[1 + D(r, Len(q))]
Const(r) == <<"c", 2 * (D(r, 9) - 4)>>                         \* halves in [-2, 2]
RECURSIVE GenT(_, _), GenF(_, _), Bound(_)
Leaf(r) == IF Nums = {} \/ D(r, 5) = 0 THEN <<Const(S1(r)), RngSkip(r, 2)>>
           ELSE <<<<"v", PickFrom(Nums, S1(r))>>, RngSkip(r, 2)>>
GenT(r, d) ==
  LET k == D(r, 14)  r1 == S1(r) IN
  IF d = 0 \/ k < 3 THEN Leaf(r1)
  ELSE IF k < 7
  THEN LET a == GenT(r1, d - 1)  b == GenT(a[2], d - 1) IN
       <<<<IF k < 5 THEN "add" ELSE "sub", a[1], b[1]>>, b[2]>>
  ELSE IF k < 9 THEN LET a == Leaf(r1)  b == Leaf(a[2]) IN <<<<"mul", a[1], b[1]>>, b[2]>>
  ELSE IF k = 9 THEN LET a == Leaf(r1) IN <<<<"sq", a[1]>>, a[2]>>
  ELSE IF k = 10 THEN LET a == GenT(r1, d - 1) IN <<<<"abs", a[1]>>, a[2]>>
  ELSE IF k = 11
  THEN LET a == GenT(r1, d - 1)  b == GenT(a[2], d - 1) IN <<<<DrawSeq(b[2], 1, <<"min", "max">>), a[1], b[1]>>, RngSkip(b[2], 2)>>
  ELSE IF k = 12 /\ Ite
  THEN LET c == IF Fun /\ Nums # {} THEN Bound(r1) ELSE GenF(r1, 0)  a == GenT(c[2], d - 1)  b == GenT(a[2], d - 1) IN <<<<"ite", c[1], a[1], b[1]>>, b[2]>>
  ELSE LET a == GenT(r1, d - 1) IN <<<<"neg", a[1]>>, a[2]>>
Ops == <<"lt", "le", "eq", "ge", "gt", "le", "ge", "ne">>
(* a bound on one variable, either way round *)
Bound(r) ==
  LET v == <<"v", PickFrom(Nums, r)>>  c == Const(S1(r))  o == DrawSeq(r, 2, Ops) IN
  <<IF D(RngSkip(r, 3), 2) = 0 THEN <<"rel", o, v, c>> ELSE <<"rel", o, c, v>>, RngSkip(r, 4)>>
GenC(r) ==
  LET v == PickFrom(Nums, S1(r))  a == <<-2, -1, 1, 2>>[1 + D(RngSkip(r, 2), 4)]
      t == GenT(RngSkip(r, 4), D(RngSkip(r, 3), 2))  c == Const(t[2])
      u == GenT(RngSkip(t[2], 6), 1)  f == DrawSeq(r, 5, Fns)
      fn == IF D(RngSkip(r, 6), 3) = 0 /\ f \notin Partial THEN <<"fnt", f, u[1]>> ELSE <<"fn", f, v>> IN
  <<<<"cmp", DrawSeq(t[2], 3, Ops), a, fn, t[1], c[2], D(RngSkip(t[2], 5), 3) \div 2>>, u[2]>>
Atom(r) ==
  LET k == D(r, 8)  r1 == S1(r) IN
  IF k < 2 /\ Bools # {} THEN <<<<"b", PickFrom(Bools, r1)>>, S1(r1)>>
  ELSE IF k < 5 /\ Nums # {} THEN Bound(r1)
  ELSE IF Fun /\ Nums # {} /\ k < 7 THEN GenC(r1)
  ELSE LET a == GenT(r1, 2)  b == GenT(a[2], 1) IN <<<<"rel", DrawSeq(b[2], 1, Ops), a[1], b[1]>>, RngSkip(b[2], 2)>>
(* Bodies have no if-then-else: their elimination adds equations under the  *)
(* quantifier, whose weakening says nothing (see DESIGN.md).                *)
RECURSIVE NoIte(_)
NoIte(t) == CASE t[1] \in {"c", "v"} -> t
              [] t[1] = "ite" -> NoIte(t[3])
              [] t[1] \in {"neg", "sq", "abs"} -> <<t[1], NoIte(t[2])>>
              [] OTHER -> <<t[1], NoIte(t[2]), NoIte(t[3])>>
Universal(r) ==
  LET lo == D(r, 3) - 2  hi == lo + 1 + D(S1(r), 2)  a == 2 * (D(RngSkip(r, 2), 5) - 2)
      t == GenT(RngSkip(r, 4), 1) IN
  <<<<"all", 4 * lo, 4 * hi, DrawSeq(r, 3, <<"lt", "le", "ge", "gt">>), a, NoIte(t[1])>>, t[2]>>
GenF(r, d) ==
  LET k == D(r, 12)  r1 == S1(r) IN
  IF d = 0 \/ k < 4 THEN Atom(r1)
  ELSE IF k = 4 THEN LET a == GenF(r1, d - 1) IN <<<<"not", a[1]>>, a[2]>>
  ELSE IF k = 11 /\ Quant THEN Universal(r1)
  ELSE LET a == GenF(r1, d - 1)  b == GenF(a[2], d - 1) IN
       <<<<CASE k < 7 -> "and" [] k < 10 -> "or" [] k = 10 -> "imp" [] OTHER -> "iff", a[1], b[1]>>, b[2]>>

(* -------------------------------------------------------------- actions --- *)
Top == Len(scopes)
Step(op) == hist' = Append(hist, op)
Declare(v, lo, hi) ==
  /\ v \notin Declared
  /\ scopes' = [scopes EXCEPT ![Top].decl = @ \cup {<<v, lo, hi>>}]
  /\ Step(<<"decl", v, lo, hi>>)
  /\ UNCHANGED fs
AddAssertion(f) ==
  /\ fs' = Append(fs, f)
  /\ scopes' = [scopes EXCEPT ![Top].asr = Append(@, Len(fs) + 1)]
  /\ Step(<<"assert", f>>)
(* assert again a formula of an earlier step (also of a popped scope) *)
AssertAgain(k) ==
  /\ scopes' = [scopes EXCEPT ![Top].asr = Append(@, k)]
  /\ Step(<<"again", k>>)
  /\ UNCHANGED fs
Push == /\ scopes' = Append(scopes, [decl |-> {}, asr |-> <<>>])
        /\ Step(<<"push">>) /\ UNCHANGED fs
Pop == /\ Top > 1
       /\ scopes' = SubSeq(scopes, 1, Top - 1)
       /\ Step(<<"pop">>) /\ UNCHANGED fs
Check == /\ Step(<<"check", IF MustNotUnsat THEN 1 ELSE 0, SetToSeq(Declared), Live(Top)>>)
         /\ UNCHANGED <<scopes, fs>>

(* other search options (a number the driver understands) change no answer *)
Configure(cf) == Step(<<"conf", cf>>) /\ UNCHANGED <<scopes, fs>>

RECURSIVE TVars(_), FVars(_)
TVars(t) == CASE t[1] = "c" -> {} [] t[1] = "v" -> {t[2]}
              [] t[1] \in {"neg", "sq", "abs"} -> TVars(t[2])
              [] t[1] = "ite" -> FVars(t[2]) \cup TVars(t[3]) \cup TVars(t[4])
              [] OTHER -> TVars(t[2]) \cup TVars(t[3])
FVars(f) == CASE f[1] \in {"true", "false"} -> {} [] f[1] = "b" -> {f[2]}
              [] f[1] = "rel" -> TVars(f[3]) \cup TVars(f[4])
              [] f[1] = "cmp" -> (IF f[4][1] = "fn" THEN {f[4][3]} ELSE TVars(f[4][3])) \cup TVars(f[5])
              [] f[1] = "not" -> FVars(f[2])
              [] f[1] = "all" -> TVars(f[6])
              [] f[1] = "fa" -> FVars(f[4]) \ {NV + 1}
              [] OTHER -> FVars(f[2]) \cup FVars(f[3])
Usable == {k \in 1..Len(fs) : FVars(fs[k]) \subseteq Declared}

Dom(v, r) == CASE Types[v] \in {"I", "J", "K"} -> LET lo == D(r, 4) - 2 IN <<lo, lo + D(S1(r), 4)>>
               [] Types[v] = "R" -> LET lo == D(r, 4) - 2 IN <<lo, lo + D(S1(r), 4)>>
               [] OTHER -> <<0, 1>>
Random1 ==
  LET k == D(rng, 20)  r == S1(rng)  free == Vs \ Declared IN
  CASE (Len(hist) < 2 \/ k < 3) /\ free # {} ->
         LET v == PickFrom(free, r)  d == Dom(v, S1(r)) IN Declare(v, d[1], d[2]) /\ rng' = RngSkip(r, 4)
    [] k >= 3 /\ k < 5 /\ Scopes /\ Top < 5 -> Push /\ rng' = RngSkip(r, 2)
    [] k >= 5 /\ k < 7 /\ Scopes /\ Top > 1 -> Pop /\ rng' = RngSkip(r, 2)
    [] k >= 7 /\ k < 10 /\ fs # <<>> -> Check /\ rng' = RngSkip(r, 2)
    [] k = 10 /\ Usable # {} -> AssertAgain(PickFrom(Usable, r)) /\ rng' = RngSkip(r, 2)
    [] Conf > 0 /\ k = 12 /\ Len(hist) > 3 -> Configure(D(r, Conf % 1000)) /\ rng' = RngSkip(r, 2)
    [] k = 11 /\ D(r, 6) = 0 -> AddAssertion(IF D(S1(r), 2) = 0 THEN <<"true">> ELSE <<"false">>) /\ rng' = RngSkip(r, 3)
    [] OTHER -> LET g == GenF(r, D(r, 4)) IN AddAssertion(g[1]) /\ rng' = RngSkip(g[2], 2)
(* A universally quantified assertion decided with one precision first and  *)
(* with another one afterwards: nothing of the first check may remain.      *)
Coarse(cf) == cf - (cf % 9) + 8
Fine(cf) == 45 * (cf \div 45) + (cf % 4)
Planned ==
  LET n == Len(hist)  r == S1(rng) IN
  IF n = 2 \/ (n = 3 /\ D(rng, 3) = 0)
  THEN LET g == Universal(r) IN AddAssertion(g[1]) /\ rng' = RngSkip(g[2], 2)
  ELSE IF n \in {4, 7, 10}
  THEN Configure(IF n = 7 THEN Fine(D(r, 256)) ELSE Coarse(D(r, 247))) /\ rng' = RngSkip(r, 2)
  ELSE IF n \in {5, 8, 11} THEN Check /\ rng' = RngSkip(r, 2)
  ELSE Random1
(* small exhaustive alphabet: one integer variable, one Boolean *)
SmallF == {<<"rel", o, <<"v", 1>>, <<"c", c>>>> : o \in {"lt", "ge", "eq"}, c \in {0, 2, 4}} \cup
          {<<"or", <<"b", 2>>, <<"rel", "gt", <<"v", 1>>, <<"c", 0>>>>>>, <<"not", <<"b", 2>>>>, <<"false">>}

Init == /\ scopes = IF Random THEN <<[decl |-> {}, asr |-> <<>>]>>
                    ELSE <<[decl |-> {<<1, -1, 1>>, <<2, 0, 1>>}, asr |-> <<>>]>>
        /\ fs = <<>>
        /\ hist = IF Random THEN <<>> ELSE <<<<"decl", 1, -1, 1>>, <<"decl", 2, 0, 1>>>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1021 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Len(hist) = L - 1 THEN Check /\ UNCHANGED rng
           ELSE IF Random THEN (IF Conf > 1000 THEN Planned ELSE Random1)
           ELSE /\ UNCHANGED rng
                /\ \/ \E f \in SmallF : AddAssertion(f)
                   \/ Push \/ Pop \/ Check
Spec == Init /\ [][Next]_vars

(* within a scope a problem only gets harder; a pop restores the problem *)
Harder == [][(Len(scopes') = Len(scopes) /\ fs' # fs /\ MustNotUnsat') => MustNotUnsat]_vars
PopRestores == [][Len(scopes') < Len(scopes) => scopes' = SubSeq(scopes, 1, Len(scopes'))]_vars
OneDecl == \A a \in Decls : \A b \in Decls : a[1] = b[1] => a = b
Closed == \A k \in 1..Len(Live(Top)) : FVars(fs[Live(Top)[k]]) \subseteq Declared
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
