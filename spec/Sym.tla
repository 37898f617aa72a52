--------------------------------- MODULE Sym ---------------------------------
(* A program that builds and transforms symbolic values: a machine with      *)
(* NE expression registers and NF formula registers.  A register holds an    *)
(* abstract term (Terms.tla); every public operation of the symbolic layer   *)
(* is one action.  An action says which register it sets and to what; all    *)
(* other registers keep their terms, which is how the copy-on-write and      *)
(* in-place paths of the code are judged: after every replayed step all      *)
(* registers are compared with their terms.  hist records the behaviour with *)
(* the exact values the specification prescribes at Points.                  *)
EXTENDS Terms, TLC, Json, Rng

CONSTANTS Profile,     \* sequence of operation families (repeats = weight)
          L,           \* behaviour length
          MaxSize,     \* terms above this size are not built
          Random,      \* TRUE: choices come from rng; FALSE: all of SmallOps
          Script,      \* a fixed program, followed when not empty
          Seed0, Runs

VARIABLES E, F, hist, rng
vars == <<E, F, hist, rng>>

NE == 4
NF == 3

Env(x1, x2, x3, b1, b2, b3) ==
  [n |-> <<x1, x2, x3, <<0, 1>>, <<0, 1>>, <<0, 1>>, <<0, 1>>, <<0, 1>>>>,
   b |-> <<b1, b2, b3, 0, 0, 0, 0, 0>>]
Points == <<
  Env(<<1, 1>>, <<2, 1>>, <<-3, 1>>, 0, 1, 0),
  Env(<<-2, 1>>, <<1, 2>>, <<4, 1>>, 1, 0, 1),
  Env(<<3, 1>>, <<-1, 1>>, <<0, 1>>, 1, 1, 0),
  Env(<<0, 1>>, <<-2, 1>>, <<1, 1>>, 0, 0, 1),
  Env(<<-1, 2>>, <<3, 1>>, <<2, 1>>, 0, 1, 1),
  Env(<<2, 1>>, <<2, 1>>, <<-1, 1>>, 1, 0, 0) >>

Bv(i) == <<"bvar", i>>
True == <<"true">>
False == <<"false">>
Leaves == << Var(1), Var(2), Var(3), Con(0), Con(1), Con(-1), Con(2), Con(3), <<"const", 1, 2>>,
             Var(1), Var(2), Var(3), Var(1), Var(2) >>
BLeaves == << Bv(1), Bv(2), Bv(3), True, False, Bv(1), Bv(2), Bv(3) >>
Exps == << Con(2), Con(3), Con(0), Con(1), Con(-1), Con(-2), <<"const", 1, 2>>, Con(4), Con(2), Con(2) >>
Fns == <<"abs", "sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
         "abs", "sqrt">>
Arith == <<"add", "sub", "mul", "div", "add", "mul">>
RelOps == <<"lt", "le", "gt", "ge", "eq", "ne">>
MMOps == <<"min", "max", "atan2", "min", "max">>
Dels == << <<1, 1>>, <<1, 2>>, <<2, 1>> >>

Init ==
  /\ E = << Var(1), Var(2), Con(2), Zero >>
  /\ F = << Bv(1), <<"lt", Var(1), Var(2)>>, True >>
  /\ hist = <<>>
  /\ IF Random THEN \E s \in 1..Runs : rng = RngSkip(RngSeed((Seed0 % 50000) * 40009 + s), 5) ELSE rng = <<0, 0, 0>>

(* ------------------------------------------------------------ operations *)
(* [nm, o, m, d, a, b, c, p]: family, sub-operation, ownership mode,         *)
(* destination, operands, further parameters                                 *)
Op(nm, o, m, d, a, b, c, p) == [nm |-> nm, o |-> o, m |-> m, d |-> d, a |-> a, b |-> b, c |-> c, p |-> p]

Subst(p) ==
  [n |-> [i \in 1..NIds |-> IF p[1] = i THEN E[p[2]] ELSE IF p[3] = i THEN E[p[4]] ELSE <<>>],
   b |-> [i \in 1..NIds |-> IF p[5] = i THEN F[p[6]] ELSE <<>>]]
PartSubst(p) ==   \* p[1]: bit mask of the variables fixed, p[2]: the point
  [n |-> [i \in 1..NIds |-> IF i <= 3 /\ (p[1] \div (2 ^ (i - 1))) % 2 = 1
                            THEN <<"const", Points[p[2]].n[i][1], Points[p[2]].n[i][2]>> ELSE <<>>],
   b |-> [i \in 1..NIds |-> <<>>]]

SetE(d, t, zs) == [k |-> "E", d |-> d, t |-> t,
                   E |-> [i \in 1..NE |-> IF i = d THEN t ELSE IF i \in zs THEN Zero ELSE E[i]], F |-> F]
SetF(d, t, ts) == [k |-> "F", d |-> d, t |-> t,
                   F |-> [i \in 1..NF |-> IF i = d THEN t ELSE IF i \in ts THEN True ELSE F[i]], E |-> E]
Obs(d, t) == [k |-> "O", d |-> d, t |-> t, E |-> E, F |-> F]

Moved(op) == (IF op.m \in {2, 4} THEN {op.a} ELSE {}) \cup (IF op.m \in {3, 4, 5} THEN {op.b} ELSE {})
Bits(n, k) == SelectSeq([i \in 1..k |-> IF (n \div (2 ^ (i - 1))) % 2 = 1 THEN i ELSE 0], LAMBDA x : x # 0)

Apply(op) ==
  LET a == op.a  b == op.b  c == op.c  d == op.d  o == op.o IN
  CASE op.nm = "ld" -> SetE(d, Leaves[op.c], {})
    [] op.nm = "bin" -> SetE(d, <<o, E[a], E[b]>>, Moved(op))
    [] op.nm = "neg" -> SetE(d, <<"neg", E[a]>>, Moved(op))
    [] op.nm = "plus" -> SetE(d, E[a], {})
    [] op.nm = "inc" ->      \* pre/post increment and decrement of a, result in d # a
         LET n == <<IF o = "inc" THEN "add" ELSE "sub", E[a], One>>
             r == SetE(d, IF op.m = 0 THEN n ELSE E[a], {})
         IN [r EXCEPT !.E[a] = n]
    [] op.nm = "pow" -> SetE(d, <<"pow", E[a], Exps[op.c]>>, {})
    [] op.nm = "powe" -> SetE(d, <<"pow", E[a], E[b]>>, {})
    [] op.nm = "fn" -> SetE(d, Fn(o, E[a]), {})
    [] op.nm = "mm" -> SetE(d, <<o, E[a], E[b]>>, {})
    [] op.nm = "ite" -> SetE(d, <<"ite", F[c], E[a], E[b]>>, {})
    [] op.nm = "sum" -> SetE(d, <<"add", <<"add", E[a], E[b]>>, E[c]>>, {})
    [] op.nm = "prod" -> SetE(d, <<"mul", <<"mul", E[a], E[b]>>, E[c]>>, {})
    [] op.nm = "prode" -> SetE(d, <<"mul", E[a], <<"pow", E[b], E[c]>>>>, {})
    [] op.nm = "subE" -> SetE(d, Sub(E[a], Subst(op.p)), {})
    [] op.nm = "epart" -> SetE(d, Sub(E[a], PartSubst(op.p)), {})
    [] op.nm = "expand" -> SetE(d, E[a], {})
    [] op.nm = "diff" -> SetE(d, <<"guard", E[a], D(E[a], op.c)>>, {})
    [] op.nm = "bl" -> SetF(d, BLeaves[op.c], {})
    [] op.nm = "rel" -> SetF(d, <<o, E[a], E[b]>>, {})
    [] op.nm = "conn" -> SetF(d, <<o, F[a], F[b]>>, Moved(op))
    [] op.nm = "vconn" -> SetF(d, IF op.m \in {0, 1} THEN <<o, Bv(op.c), F[a]>>
                                  ELSE IF op.m \in {2, 3} THEN <<o, F[a], Bv(op.c)>>
                                  ELSE <<o, Bv(op.c), Bv(1 + (op.c % 3))>>,
                               IF op.m \in {1, 3} THEN {a} ELSE {})
    [] op.nm = "mk" -> SetF(d, <<o, <<o, F[a], F[b]>>, F[c]>>, {})
    [] op.nm = "not" -> SetF(d, <<"not", F[a]>>, {})
    [] op.nm = "imp" -> SetF(d, <<"imp", F[a], F[b]>>, {})
    [] op.nm = "iff" -> SetF(d, <<"iff", F[a], F[b]>>, {})
    [] op.nm = "fne" -> SetF(d, <<"not", <<"iff", F[a], F[b]>>>>, {})
    [] op.nm = "forall" -> SetF(d, <<"forall", Bits(op.p[1], 3), Bits(op.p[2], 3), F[a]>>, {})
    [] op.nm = "subF" -> SetF(d, Sub(F[a], Subst(op.p)), {})
    [] op.nm = "nnf" -> SetF(d, F[a], {})
    [] op.nm = "cnf" -> SetF(d, F[a], {})
    [] op.nm \in {"tse", "pabs", "ielim", "dstr", "dweak", "shape"} -> Obs(a, F[a])
    [] op.nm \in {"prE", "inE", "shapeE"} -> Obs(a, E[a])
    [] op.nm \in {"prF", "inF"} -> Obs(a, F[a])

(* ------------------------------------------------- random choice of an op *)
RECURSIVE Draws(_, _)
Draws(r, k) == IF k = 0 THEN <<>> ELSE LET s == RngStep(r) IN <<(s[1] + s[2] + s[3])>> \o Draws(s, k - 1)

Gen(dv) ==
  LET P(i, n) == 1 + (dv[i] % n)
      nm == Profile[P(1, Len(Profile))]
      e1 == P(2, NE)  e2 == P(3, NE)  e3 == P(4, NE)  ed == P(5, NE)
      f1 == P(2, NF)  f2 == P(3, NF)  f3 == P(4, NF)  fd == P(5, NF)
      v1 == P(9, 3)
      sp == << v1, P(10, NE), IF dv[6] % 2 = 0 THEN 1 + (v1 % 3) ELSE 0, P(11, NE),
               IF dv[7] % 2 = 0 THEN P(12, 3) ELSE 0, P(8, NF) >>
      nop == <<0>>
  IN CASE nm = "ld" -> Op("ld", "-", 0, ed, 1, 1, P(6, Len(Leaves)), nop)
    [] nm = "ldr" ->  \* a constant known as an interval with a representative
         Op("ld", "-", P(7, 2), ed, 1, 1, 4 + (dv[6] % 6), nop)
    [] nm = "bin" -> LET m0 == <<0, 0, 1, 1, 1, 2, 3, 4, 5>>[P(7, 9)]
                         m == IF e1 = e2 /\ m0 >= 2 THEN m0 % 2 ELSE m0
                         o == Arith[P(6, Len(Arith))]
                     IN Op("bin", o, m, IF m \in {1, 5} THEN e1 ELSE ed, e1, e2, 1, nop)
    [] nm = "neg" -> Op("neg", "-", <<0, 2>>[P(7, 2)], ed, e1, 1, 1, nop)
    [] nm = "plus" -> Op("plus", "-", 0, ed, e1, 1, 1, nop)
    [] nm = "inc" -> Op("inc", <<"inc", "dec">>[P(6, 2)], dv[7] % 2, 1 + ((e1 + (dv[5] % (NE - 1))) % NE), e1, 1, 1, nop)
    [] nm = "pow" -> Op("pow", "-", 0, ed, e1, 1, P(6, Len(Exps)), nop)
    [] nm = "powe" -> Op("powe", "-", 0, ed, e1, e2, 1, nop)
    [] nm = "fn" -> Op("fn", Fns[P(6, Len(Fns))], 0, ed, e1, 1, 1, nop)
    [] nm = "mm" -> Op("mm", MMOps[P(6, Len(MMOps))], 0, ed, e1, e2, 1, nop)
    [] nm = "ite" -> Op("ite", "-", 0, ed, e1, e2, P(6, NF), nop)
    [] nm \in {"sum", "prod", "prode"} -> Op(nm, "-", 0, ed, e1, e2, e3, nop)
    [] nm = "subE" -> Op("subE", "-", dv[13] % 3, ed, e1, 1, 1, sp)
    [] nm = "epart" -> Op("epart", "-", 0, ed, e1, 1, 1, <<P(6, 7), P(7, Len(Points))>>)
    [] nm = "expand" -> Op("expand", "-", 0, ed, e1, 1, 1, nop)
    [] nm = "diff" -> Op("diff", "-", 0, ed, e1, 1, v1, nop)
    [] nm = "bl" -> Op("bl", "-", 0, fd, 1, 1, P(6, Len(BLeaves)), nop)
    [] nm = "rel" -> Op("rel", RelOps[P(6, 6)], 0, fd, e1, e2, 1, nop)
    [] nm = "conn" -> LET m == IF f1 = f2 THEN 0 ELSE <<0, 2, 3, 4>>[P(7, 4)] IN Op("conn", <<"and", "or">>[P(6, 2)], m, fd, f1, f2, 1, nop)
    [] nm = "vconn" -> Op("vconn", <<"and", "or">>[P(6, 2)], dv[7] % 5, fd, f1, 1, v1, nop)
    [] nm = "mk" -> Op("mk", <<"and", "or">>[P(6, 2)], dv[7] % 2, fd, f1, f2, f3, nop)
    [] nm \in {"not", "imp", "iff", "fne"} -> Op(nm, "-", dv[7] % 2, fd, f1, f2, v1, nop)
    [] nm = "forall" -> Op("forall", "-", 0, fd, f1, 1, 1, <<dv[6] % 4, dv[7] % 3>>)
    [] nm = "subF" -> Op("subF", "-", dv[13] % 3, fd, f1, 1, 1, sp)
    [] nm = "nnf" -> Op("nnf", "-", dv[7] % 2, fd, f1, 1, 1, nop)
    [] nm = "cnf" -> Op("cnf", "-", 0, fd, f1, 1, 1, nop)
    [] nm \in {"tse", "pabs", "ielim", "shape", "prF", "inF"} -> Op(nm, "-", dv[7] % 2, f1, f1, f2, 1, nop)
    [] nm \in {"dstr", "dweak"} -> Op(nm, "-", 0, f1, f1, 1, P(6, Len(Dels)), Dels[P(6, Len(Dels))])
    [] nm \in {"prE", "inE", "shapeE"} -> Op(nm, "-", 0, e1, e1, 1, 1, nop)

(* ------------------------------------- the small exhaustive alphabet      *)
SmallOps ==
  {op \in {Op("bin", o, m, IF m \in {1, 5} THEN a ELSE 4, a, b, 1, <<0>>) :
             o \in {"add", "sub", "mul", "div"}, m \in 0..5, a \in {1, 3, 4}, b \in {1, 2, 3, 4}} :
     op.a # op.b \/ op.m <= 1} \cup
  {Op("pow", "-", 0, 4, a, 1, c, <<0>>) : a \in {1, 4}, c \in {1, 3, 4, 5, 7}} \cup
  {Op("neg", "-", m, 4, 4, 1, 1, <<0>>) : m \in {0, 2}} \cup
  {Op("fn", f, 0, 4, 4, 1, 1, <<0>>) : f \in {"abs", "sqrt", "exp"}} \cup
  {Op("expand", "-", 0, 4, 4, 1, 1, <<0>>), Op("diff", "-", 0, 4, 4, 1, 1, <<0>>),
   Op("subE", "-", 0, 4, 4, 1, 1, <<1, 4, 2, 1, 0, 1>>), Op("mm", "min", 0, 4, 4, 1, 1, <<0>>)}

SmallFOps ==
  {op \in {Op("conn", o, m, 3, a, b, 1, <<0>>) : o \in {"and", "or"}, m \in {0, 2, 3, 4}, a \in 1..3, b \in 1..3} :
     op.a # op.b \/ op.m = 0} \cup
  {Op("not", "-", m, 3, a, 1, 1, <<0>>) : m \in {0}, a \in 1..3} \cup
  {Op(nm, "-", 0, 3, a, b, 1, <<0>>) : nm \in {"imp", "iff", "fne"}, a \in 1..3, b \in 1..3} \cup
  {Op("rel", o, 0, 2, 1, b, 1, <<0>>) : o \in {"lt", "le", "gt", "ge", "eq", "ne"}, b \in {2, 3}} \cup
  {Op("forall", "-", 0, 3, 3, 1, 1, <<p, q>>) : p \in {0, 1}, q \in {1, 2}} \cup
  {Op("subF", "-", 0, 3, 3, 1, 1, <<1, 2, 0, 1, 1, 2>>)} \cup
  {Op("nnf", "-", m, 3, 3, 1, 1, <<0>>) : m \in {0, 1}} \cup {Op("cnf", "-", 0, 3, 3, 1, 1, <<0>>)}

(* ---------------------------------------------------------------- actions *)
Tab(k, t) == [i \in 1..Len(Points) |-> IF k = "E" THEN Ev(t, Points[i]) ELSE Fv(t, Points[i])]
IsF(k, nm) == k = "F" \/ (k = "O" /\ nm \notin {"prE", "inE", "shapeE"})
DTab(t, dl) == [i \in 1..Len(Points) |->
                  <<DeltaTruth(t, Points[i], dl, FALSE), DeltaTruth(t, Points[i], dl, TRUE)>>]

Step(op) ==
  LET r == Apply(op) IN
  IF Size(r.t) <= MaxSize /\ Cost(r.t) <= 2000
  THEN /\ E' = r.E
       /\ F' = r.F
       /\ hist' = Append(hist, [op |-> op, k |-> r.k, d |-> r.d, t |-> r.t,
                                tab |-> Tab(IF IsF(r.k, op.nm) THEN "F" ELSE "E", r.t),
                                dt |-> IF op.nm = "dstr" THEN DTab(r.t, op.p)
                                       ELSE IF op.nm = "dweak" THEN DTab(r.t, RNeg(op.p)) ELSE <<>>])
  ELSE /\ Random
       /\ LET q == IF r.k = "E" THEN SetE(op.d, Leaves[1 + (rng[1] % Len(Leaves))], {})
                   ELSE SetF(op.d, BLeaves[1 + (rng[1] % Len(BLeaves))], {})
              nm == IF r.k = "E" THEN "ld" ELSE "bl"
              c == IF r.k = "E" THEN 1 + (rng[1] % Len(Leaves)) ELSE 1 + (rng[1] % Len(BLeaves))
          IN /\ E' = q.E
             /\ F' = q.F
             /\ hist' = Append(hist, [op |-> Op(nm, "-", 0, op.d, 1, 1, c, <<0>>), k |-> q.k, d |-> q.d,
                                      t |-> q.t, tab |-> Tab(q.k, q.t), dt |-> <<>>])

Next ==
  /\ Len(hist) < L
  /\ IF Random
     THEN /\ rng' = RngSkip(rng, 15)
          /\ Step(Gen(Draws(rng, 14)))
     ELSE /\ UNCHANGED rng
          /\ \E op \in (IF Script # <<>> THEN {Script[Len(hist) + 1]} ELSE IF Profile[1] = "F" THEN SmallFOps ELSE SmallOps) : Step(op)
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------- checks of the definitions *)
Last == hist[Len(hist)]
(* two independent definitions of the derivative agree *)
DualAgrees ==
  hist = <<>> \/ Last.op.nm # "diff" \/
  \A i \in 1..Len(Points) :
    LET v == Ev(Last.t[3], Points[i])
        w == Dual(Last.t[2], Last.op.c, Points[i])
    IN ~Defd(v) \/ ~Defd(w[1]) \/ ~Defd(w[2]) \/ v = w[2]
(* strengthening and weakening bracket the formula itself *)
DeltaBrackets ==
  hist = <<>> \/ Last.op.nm \notin {"dstr", "dweak"} \/
  \A i \in 1..Len(Points) :
    LET t == Last.tab[i]
        x == Last.dt[i]
    IN t = 2 \/ x[1] = 2 \/ x[2] = 2 \/
       (x[1] <= x[2] /\ IF Last.op.nm = "dstr" THEN x[2] <= t ELSE t <= x[1])
(* substitution lemma: evaluating the substituted term is evaluating in the  *)
(* environment the substitution describes                                    *)
Env2(p, env, EE, FF) ==
  [n |-> [i \in 1..NIds |-> IF p[1] = i THEN Ev(EE[p[2]], env)
                            ELSE IF p[3] = i THEN Ev(EE[p[4]], env) ELSE env.n[i]],
   b |-> [i \in 1..NIds |-> IF p[5] = i THEN Fv(FF[p[6]], env) ELSE env.b[i]]]
SubstLemma ==
  [][ hist' = hist \/ hist'[Len(hist')].op.nm \notin {"subE", "subF"} \/
      LET h == hist'[Len(hist')] IN
      \A i \in 1..Len(Points) :
        LET env == Points[i]
            e2 == Env2(h.op.p, env, E, F)
            orig == IF h.k = "E" THEN Ev(E[h.op.a], e2) ELSE Fv(F[h.op.a], e2)
            usedN == IF h.k = "E" THEN FN(E[h.op.a]) ELSE FN(F[h.op.a])
            usedB == IF h.k = "E" THEN FB(E[h.op.a]) ELSE FB(F[h.op.a])
        IN \/ \E v \in usedN : ~Defd(e2.n[v])
           \/ \E v \in usedB : e2.b[v] = 2
           \/ IF h.k = "E" THEN ~Defd(orig) \/ ~Defd(h.tab[i]) \/ orig = h.tab[i]
              ELSE orig = 2 \/ h.tab[i] = 2 \/ orig = h.tab[i] ]_vars

Emit == Len(hist) < L \/ PrintT("@@" \o ToJson([h |-> hist, rt |-> [e |-> E, f |-> F]]))
ASSUME PrintT("@@" \o ToJson([points |-> Points]))
=============================================================================
