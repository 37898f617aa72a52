------------------------------- MODULE Script -------------------------------
(* SMT-LIB scripts.  A script is a sequence of commands over terms with     *)
(* names; its meaning is given by translating each term to a core formula   *)
(* of Solve in the environment of the names in scope: let binds its names   *)
(* at once, to values, shadowing outer ones; a function call is its body    *)
(* with the arguments' values; operators with many arguments fold to the    *)
(* left.  The history of core problems is then judged as in Solve.          *)
EXTENDS Solve

VARIABLES mac,    \* per scope: the functions defined in it
          defs,   \* per scope: the constants defined in it
          opts, sat
svars == <<vars, mac, defs, opts, sat>>

NameList == <<"x", "y", "z", "u", "w", "|a b|", "k!0", "p">>
Names == {NameList[k] : k \in 1..Len(NameList)}
VName(v) == NameList[v]
(* Classes: "H" a half-integer number, "Q" a quarter-integer one, "F" a      *)
(* formula, "-" not in scope.                                               *)
Class(v) == IF Types[v] = "B" THEN "F" ELSE "H"

(* -------------------------------------------------- meaning of a surface --- *)
AllMac == UNION {{mac[k][j] : j \in 1..Len(mac[k])} : k \in 1..Len(mac)}
AllDef == UNION {{defs[k][j] : j \in 1..Len(defs[k])} : k \in 1..Len(defs)}
MacOf(f) == CHOOSE m \in AllMac : m.f = f
Fold2(c, op(_, _)) ==
  LET g[k \in 1..Len(c)] == IF k = 1 THEN c[1] ELSE op(g[k - 1], c[k]) IN g[Len(c)]
Rels == {"lt", "le", "eq", "ge", "gt"}
RECURSIVE Core(_, _), Bind(_, _, _, _)
Core(s, e) ==
  CASE s[1] = "num" -> <<"c", s[2]>>
    [] s[1] = "lit" -> <<s[2]>>
    [] s[1] = "sym" -> e[s[2]]
    [] s[1] = "def" -> (CHOOSE d \in AllDef : d.n = s[2]).core
    [] s[1] = "let" -> Core(s[3], Bind(s[2], e, e, 1))
    [] s[1] = "call" -> LET m == MacOf(s[2]) IN
         Core(m.body, [n \in Names |->
           IF \E k \in 1..Len(m.ps) : m.ps[k] = n
           THEN Core(s[3][CHOOSE k \in 1..Len(m.ps) : m.ps[k] = n], e) ELSE m.env[n]])
    [] s[1] = "forall" ->
         IF s[3] = "Bool"
         THEN <<"and", Core(s[6], [e EXCEPT ![s[2]] = <<"true">>]), Core(s[6], [e EXCEPT ![s[2]] = <<"false">>])>>
         ELSE <<"fa", s[4], s[5], Core(s[6], [e EXCEPT ![s[2]] = <<"v", NV + 1>>])>>
    [] s[1] = "fcmp" -> <<"cmp", s[2], s[3], <<"fnt", s[4], Core(s[5], e)>>, Core(s[6], e), s[7], 0>>
    [] s[1] = "app" ->
         LET o == s[2]  c == [k \in 1..Len(s[3]) |-> Core(s[3][k], e)] IN
         CASE o = "-" /\ Len(c) = 1 -> <<"neg", c[1]>>
           [] o = "+" -> Fold2(c, LAMBDA a, b : <<"add", a, b>>)
           [] o = "-" -> Fold2(c, LAMBDA a, b : <<"sub", a, b>>)
           [] o = "*" -> Fold2(c, LAMBDA a, b : <<"mul", a, b>>)
           [] o = "half" -> <<"mul", c[1], <<"c", 2>>>>
           [] o = "sq" -> <<"sq", c[1]>>
           [] o \in {"abs", "not"} -> <<o, c[1]>>
           [] o \in {"min", "max", "imp", "iff"} -> <<o, c[1], c[2]>>
           [] o = "ite" -> <<"ite", c[1], c[2], c[3]>>
           [] o = "iteb" -> <<"and", <<"or", <<"not", c[1]>>, c[2]>>, <<"or", c[1], c[3]>>>>
           [] o \in Rels -> <<"rel", o, c[1], c[2]>>
           [] o = "and" -> Fold2(c, LAMBDA a, b : <<"and", a, b>>)
           [] o = "or" -> Fold2(c, LAMBDA a, b : <<"or", a, b>>)
           [] o = "xor" -> Fold2(c, LAMBDA a, b : <<"not", <<"iff", a, b>>>>)
(* the bindings of a let, all read in e *)
Bind(bs, e, e2, k) ==
  IF k > Len(bs) THEN e2 ELSE Bind(bs, e, [e2 EXCEPT ![bs[k][1]] = Core(bs[k][2], e)], k + 1)

GlobalEnv == [n \in Names |->
  IF \E v \in Declared : VName(v) = n
  THEN LET v == CHOOSE v \in Declared : VName(v) = n IN
       IF Types[v] = "B" THEN <<"b", v>> ELSE <<"v", v>>
  ELSE <<"none">>]
GlobalClass == [n \in Names |->
  IF \E v \in Declared : VName(v) = n THEN Class(CHOOSE v \in Declared : VName(v) = n) ELSE "-"]

(* ------------------------------------------------------------ generation --- *)
(* G: classes of names.  o: [ite, q: whether quantifiers may appear, fn:     *)
(* names for terms, fun: elementary functions, not where a value decides]    *)
Fits(c, cl) == c = cl \/ (cl = "Q" /\ c = "H")
InScope(G, cl) == SelectSeq(NameList, LAMBDA n : Fits(G[n], cl))
MacSeq(cl, o) ==
  LET m == Fold2(<<<<>>>> \o mac, LAMBDA a, b : a \o b) IN
  SelectSeq(m, LAMBDA x : Fits(x.cl, cl) /\ (o.ite \/ ~x.ite))
DefSeq(cl) ==
  LET m == Fold2(<<<<>>>> \o defs, LAMBDA a, b : a \o b) IN SelectSeq(m, LAMBDA x : Fits(x.cl, cl))
Pick(q, r) == q[1 + D(r, Len(q))]
Num(r) == <<"num", 2 * (D(r, 9) - 4), D(RngStep(RngStep(r)), 7)>>
SLeaf(G, cl, r) ==
  LET k == D(r, 8)  r1 == S1(r)  q == InScope(G, cl)  ds == DefSeq(cl) IN
  <<IF ds # <<>> /\ k = 7 THEN <<"def", Pick(ds, r1).n>>
    ELSE IF q # <<>> /\ k > 1 THEN <<"sym", Pick(q, r1)>> ELSE Num(r1), RngSkip(r, 4)>>
RECURSIVE ST(_, _, _, _, _), SF(_, _, _, _), Args(_, _, _, _, _), LetOf(_, _, _, _, _), Binds(_, _, _, _, _)
(* a sequence of arguments of the classes cs *)
Args(G, cs, d, r, o) ==
  IF cs = <<>> THEN <<<<>>, r>>
  ELSE LET a == IF Head(cs) = "F" THEN SF(G, d, r, [o EXCEPT !.q = FALSE]) ELSE ST(G, Head(cs), d, r, o)
           b == Args(G, Tail(cs), d, a[2], o) IN
       <<<<a[1]>> \o b[1], b[2]>>
Binds(G, ns, d, r, o) ==
  IF ns = <<>> THEN <<<<>>, r, G>>
  ELSE LET cl == DrawSeq(r, 1, <<"H", "Q", "F">>)
           a == Args(G, <<cl>>, d, RngSkip(r, 2), [o EXCEPT !.fun = FALSE])
           b == Binds(G, Tail(ns), d, a[2], o) IN
       <<<<<<Head(ns), a[1][1]>>>> \o b[1], b[2], [b[3] EXCEPT ![Head(ns)] = cl]>>
LetOf(G, cl, d, r, o) ==
  LET n1 == D(r, Len(NameList))  n2 == (n1 + 1 + D(S1(r), Len(NameList) - 1)) % Len(NameList)
      ns == IF D(RngSkip(r, 2), 2) = 0 THEN <<NameList[n1 + 1]>> ELSE <<NameList[n1 + 1], NameList[n2 + 1]>>
      b == Binds(G, ns, d, RngSkip(r, 4), o)
      body == IF cl = "F" THEN SF(b[3], d, b[2], o) ELSE ST(b[3], cl, d, b[2], o) IN
  <<<<"let", b[1], body[1]>>, body[2]>>
App(op, a) == <<<<"app", op, a[1]>>, a[2]>>
Call(m, G, d, r, o) == LET a == Args(G, m.pcs, d, r, [o EXCEPT !.fun = FALSE]) IN <<<<"call", m.f, a[1]>>, a[2]>>
Rep(c, n) == [k \in 1..n |-> c]
ST(G, cl, d, r, o) ==
  LET k == D(r, 18)  r1 == S1(r)  r2 == RngSkip(r, 2)  ms == MacSeq(cl, o) IN
  CASE d = 0 \/ k < 3 -> SLeaf(G, cl, r1)
    [] d > 0 /\ k \in 3..5 -> App("+", Args(G, Rep(cl, 2 + D(r1, 2)), d - 1, r2, o))
    [] d > 0 /\ k \in 6..7 -> App("-", Args(G, Rep(cl, 1 + D(r1, 3)), d - 1, r2, o))
    [] d > 0 /\ k = 8 -> App("abs", Args(G, <<cl>>, d - 1, r2, o))
    [] d > 0 /\ k = 9 -> App(DrawSeq(r1, 1, <<"min", "max">>), Args(G, <<cl, cl>>, d - 1, r2, o))
    [] d > 0 /\ k = 10 /\ o.ite -> App("ite", Args(G, <<"F", cl, cl>>, d - 1, r2, [o EXCEPT !.fun = FALSE]))
    [] d > 0 /\ k \in 11..12 /\ o.fn -> LetOf(G, cl, d - 1, r2, o)
    [] d > 0 /\ k \in 13..14 /\ ms # <<>> -> Call(Pick(ms, r1), G, d - 1, r2, o)
    [] d > 0 /\ k = 15 /\ cl = "Q" -> App("*", Args(G, <<"H", "H">>, 0, r2, o))
    [] d > 0 /\ k = 16 /\ cl = "Q" -> App("sq", Args(G, <<"H">>, 0, r2, o))
    [] d > 0 /\ k = 17 /\ cl = "Q" -> App("half", Args(G, <<"H">>, d - 1, r2, o))
    [] OTHER -> SLeaf(G, cl, r1)
SOps == <<"lt", "le", "eq", "ge", "gt", "le", "ge">>
SAtom(G, d, r, o) ==
  LET k == D(r, 6)  r1 == S1(r)  q == InScope(G, "F")  ds == DefSeq("F") IN
  CASE k < 2 /\ q # <<>> -> <<<<"sym", Pick(q, r1)>>, RngSkip(r, 2)>>
    [] k = 2 /\ ds # <<>> -> <<<<"def", Pick(ds, r1).n>>, RngSkip(r, 2)>>
    [] k = 3 /\ D(r1, 6) = 0 -> <<<<"lit", DrawSeq(r, 4, <<"true", "false">>)>>, RngSkip(r, 5)>>
    [] k = 4 /\ o.fun ->
         LET a == Args(G, <<"H", "Q">>, IF d = 0 THEN 0 ELSE 1, RngSkip(r, 5), o)
             f == DrawSeq(r1, 3, Fns)  vs == InScope(G, "H")
             part == f \in Partial IN     \* those need an argument that is no constant
         IF part /\ (vs = <<>> \/ G # GlobalClass)
         THEN App(DrawSeq(r1, 1, SOps), Args(G, <<"Q", "Q">>, d, RngSkip(r, 3), o))
         ELSE <<<<"fcmp", DrawSeq(r1, 1, SOps), <<-2, -1, 1, 2>>[1 + D(r1, 4)], f,
                  IF part THEN <<"sym", Pick(vs, RngSkip(r, 5))>> ELSE a[1][1], a[1][2],
                  2 * (D(RngSkip(r, 4), 9) - 4)>>, a[2]>>
    [] OTHER -> App(DrawSeq(r1, 1, SOps), Args(G, <<"Q", "Q">>, d, RngSkip(r, 3), o))
(* a quantifier over a Boolean, or over a number that appears linearly *)
SForall(G, r, o) ==
  LET n == Pick(NameList, r)  w == Pick(SelectSeq(NameList, LAMBDA m : m # n), S1(r))
      k == D(RngSkip(r, 2), 8)  lo == D(RngSkip(r, 3), 3) - 2  hi == lo + 1 + D(RngSkip(r, 4), 2)
      a == 2 * (D(RngSkip(r, 5), 5) - 2)  r1 == RngSkip(r, 10)
      o2 == [o EXCEPT !.ite = FALSE, !.q = FALSE, !.fun = FALSE]
      H == [G EXCEPT ![n] = "-"]
      t == ST(H, "Q", 1, r1, o2)
      ta == LET ad == <<"app", "*", <<<<"num", a, 0>>, <<"sym", n>>>>>> IN IF k % 2 = 0 THEN ad ELSE <<"app", "*", <<<<"sym", n>>, <<"num", a, 1>>>>>>
      op == DrawSeq(r, 7, <<"lt", "le", "ge", "gt">>)
      atom == CASE k < 3 -> <<"app", op, <<<<"app", "+", <<ta, t[1]>>>>, <<"num", 0, 0>>>>>>
                [] k \in 3..4 -> <<"let", <<<<w, ta>>>>, <<"app", op, <<<<"app", "+", <<<<"sym", w>>, t[1]>>>>, <<"num", 0, 0>>>>>>>>
                [] OTHER -> <<"let", <<<<w, t[1]>>>>, <<"app", op, <<<<"app", "-", <<<<"sym", w>>, ta>>>>, <<"num", 0, 0>>>>>>>>
      g == SF(H, 0, t[2], o2)
      body == IF D(RngSkip(r, 8), 3) = 0 THEN <<"app", "or", <<g[1], atom>>>> ELSE atom
      b == SF([G EXCEPT ![n] = "F"], 1, r1, o2) IN
  (* w shadows: t must not see it in the second form *)
  IF k = 7 THEN <<<<"forall", n, "Bool", 0, 4, b[1]>>, b[2]>>
  ELSE IF k \in 3..4 /\ G[w] # "-" THEN <<<<"forall", n, "Real", 4 * lo, 4 * hi,
         <<"app", op, <<<<"app", "-", <<ta, t[1]>>>>, <<"num", 0, 2>>>>>>>>, t[2]>>
  ELSE <<<<"forall", n, IF k = 6 THEN "Int" ELSE "Real", 4 * lo, 4 * hi, body>>, g[2]>>
SF(G, d, r, o) ==
  LET k == D(r, 16)  r1 == S1(r)  r2 == RngSkip(r, 2)  ms == MacSeq("F", o)
      F(n) == Args(G, Rep("F", n), d - 1, r2, o) IN
  CASE d = 0 \/ k < 3 -> SAtom(G, IF d = 0 THEN 1 ELSE 2, r1, o)
    [] d > 0 /\ k \in 3..4 -> App("and", F(1 + D(r1, 3)))
    [] d > 0 /\ k \in 5..6 -> App("or", F(1 + D(r1, 3)))
    [] d > 0 /\ k = 7 -> App("xor", F(1 + D(r1, 3)))
    [] d > 0 /\ k = 8 -> App("not", F(1))
    [] d > 0 /\ k = 9 -> App(DrawSeq(r1, 1, <<"imp", "iff">>), F(2))
    [] d > 0 /\ k = 10 -> App("iteb", F(3))
    [] d > 0 /\ k \in 11..12 /\ o.fn -> LetOf(G, "F", d - 1, r2, o)
    [] d > 0 /\ k \in 13..14 /\ ms # <<>> -> Call(Pick(ms, r1), G, d - 1, r2, o)
    [] d > 0 /\ k = 15 /\ o.q -> SForall(G, r2, o)
    [] OTHER -> SAtom(G, 1, r1, o)

(* -------------------------------------------------------------- actions --- *)
Opt == [ite |-> Ite, q |-> Quant, fn |-> TRUE, fun |-> Fun]
Rest == UNCHANGED <<scopes, fs, mac, defs, opts, sat>>
SDeclare(v, lo, hi, st) ==
  /\ scopes' = [scopes EXCEPT ![Top].decl = @ \cup {<<v, lo, hi>>}]
  /\ Step(<<"decl", v, lo, hi, VName(v), Types[v], st>>)
  /\ sat' = FALSE
  /\ UNCHANGED <<fs, mac, defs, opts>>
SAssert(s) ==
  LET c == Core(s, GlobalEnv) IN
  /\ fs' = Append(fs, c)
  /\ scopes' = [scopes EXCEPT ![Top].asr = Append(@, Len(fs) + 1)]
  /\ Step(<<"assert", c, s>>)
  /\ sat' = FALSE
  /\ UNCHANGED <<mac, defs, opts>>
SPush(n) == /\ scopes' = scopes \o [k \in 1..n |-> [decl |-> {}, asr |-> <<>>]]
            /\ mac' = mac \o Rep(<<>>, n) /\ defs' = defs \o Rep(<<>>, n)
            /\ Step(<<"push", n>>) /\ sat' = FALSE /\ UNCHANGED <<fs, opts>>
SPop(n) == /\ scopes' = SubSeq(scopes, 1, Top - n)
           /\ mac' = SubSeq(mac, 1, Top - n) /\ defs' = SubSeq(defs, 1, Top - n)
           /\ Step(<<"pop", n>>) /\ sat' = FALSE /\ UNCHANGED <<fs, opts>>
SCheck == /\ Step(<<"check", IF MustNotUnsat THEN 1 ELSE 0, SetToSeq(Declared), Live(Top),
                    LET m == Fold2(<<<<>>>> \o defs, LAMBDA a, b : a \o b) IN [k \in 1..Len(m) |-> m[k].n],
                    opts[":precision"], opts[":produce-models"]>>)
          /\ sat' = TRUE /\ UNCHANGED <<scopes, fs, mac, defs, opts>>
DefNames == SelectSeq(<<"d1", "d2", "d3">>, LAMBDA n : ~\E d \in AllDef : d.n = n)
MacNames == SelectSeq(<<"f1", "f2", "f3", "g">>, LAMBDA n : ~\E m \in AllMac : m.f = n)
SDef(cl, s) ==
  LET n == Head(DefNames)  c == Core(s, GlobalEnv) IN
  /\ defs' = [defs EXCEPT ![Top] = Append(@, [n |-> n, cl |-> cl, core |-> c])]
  /\ Step(<<"def", n, cl, c, s>>) /\ sat' = FALSE
  /\ UNCHANGED <<scopes, fs, mac, opts>>
SMac(cl, ps, pcs, s, ite) ==
  LET f == Head(MacNames) IN
  /\ mac' = [mac EXCEPT ![Top] = Append(@,
       [f |-> f, ps |-> ps, pcs |-> pcs, cl |-> cl, body |-> s, env |-> GlobalEnv, ite |-> ite])]
  /\ Step(<<"macro", f, ps, pcs, cl, s>>) /\ sat' = FALSE
  /\ UNCHANGED <<scopes, fs, defs, opts>>
Keys == <<":polytope", ":worklist-fixpoint", ":forall-polytope", ":local-optimization", ":produce-models", ":notes", ":precision">>
SetOpt(k, v) == /\ opts' = [opts EXCEPT ![k] = v]
                /\ Step(<<"setopt", k, v>>) /\ UNCHANGED <<scopes, fs, mac, defs, sat>>
Values(n, r) == Args(GlobalClass, [k \in 1..n |-> IF (k + D(r, 3)) % 3 = 0 THEN "Q" ELSE "H"], 2, S1(r),
                     [ite |-> FALSE, q |-> FALSE, fn |-> TRUE, fun |-> FALSE])

SRandom ==
  LET k == D(rng, 30)  r == S1(rng)  free == Vs \ Declared IN
  CASE (Len(hist) < 2 \/ k < 3) /\ free # {} ->
         LET v == PickFrom(free, r)  d == Dom(v, S1(r)) IN
         SDeclare(v, d[1], d[2], D(RngSkip(r, 4), 3)) /\ rng' = RngSkip(r, 6)
    [] k \in 3..4 /\ Scopes /\ Top < 5 /\ Len(hist) > 1 -> SPush(1 + (D(r, 4) \div 3)) /\ rng' = RngSkip(r, 2)
    [] k \in 5..6 /\ Scopes /\ Top > 1 -> SPop(1 + D(r, Min2(2, Top - 1))) /\ rng' = RngSkip(r, 2)
    [] k \in 7..9 /\ fs # <<>> -> SCheck /\ rng' = RngSkip(r, 2)
    [] k \in 10..12 /\ MacNames # <<>> ->
         LET n == 1 + D(r, 2)  cl == DrawSeq(r, 1, <<"H", "Q", "F">>)
             p1 == Pick(NameList, RngSkip(r, 2))  p2 == Pick(SelectSeq(NameList, LAMBDA m : m # p1), RngSkip(r, 3))
             c1 == DrawSeq(r, 4, <<"H", "Q", "F">>)  c2 == DrawSeq(r, 5, <<"H", "Q", "F">>)
             ps == SubSeq(<<p1, p2>>, 1, n)  pcs == SubSeq(<<c1, c2>>, 1, n)
             G == [x \in Names |-> IF x = p1 THEN c1 ELSE IF n = 2 /\ x = p2 THEN c2 ELSE GlobalClass[x]]
             ite == Ite /\ D(RngSkip(r, 6), 2) = 0
             b == Args(G, <<cl>>, 2, RngSkip(r, 8), [ite |-> ite, q |-> FALSE, fn |-> TRUE, fun |-> FALSE]) IN
         SMac(cl, ps, pcs, b[1][1], ite) /\ rng' = RngSkip(b[2], 2)
    [] k = 13 /\ DefNames # <<>> /\ Len(hist) > 1 ->
         LET cl == DrawSeq(r, 1, <<"H", "Q", "F">>)
             b == Args(GlobalClass, <<cl>>, 2, RngSkip(r, 4), [ite |-> FALSE, q |-> FALSE, fn |-> TRUE, fun |-> FALSE]) IN
         SDef(cl, b[1][1]) /\ rng' = RngSkip(b[2], 2)
    [] k \in 14..16 /\ sat ->
         LET n == 1 + D(r, 3)  v == Values(n, S1(r)) IN
         /\ Step(<<"value", [j \in 1..n |-> Core(v[1][j], GlobalEnv)], v[1]>>)
         /\ Rest /\ rng' = RngSkip(v[2], 2)
    [] k = 17 /\ sat -> Step(<<"model">>) /\ Rest /\ rng' = RngSkip(r, 2)
    [] k = 18 -> LET key == Pick(Keys, r) IN
         SetOpt(key, IF key = ":precision" THEN DrawSeq(r, 1, <<"0.001", "0.0001", "0.002", "0.0005">>)
                     ELSE DrawSeq(r, 1, <<"true", "false">>)) /\ rng' = RngSkip(r, 3)
    [] k = 19 -> LET key == Pick(Keys, r) IN Step(<<"getopt", key, opts[key]>>) /\ Rest /\ rng' = RngSkip(r, 2)
    [] k = 20 -> Step(<<"noise", D(r, 8)>>) /\ Rest /\ rng' = RngSkip(r, 2)
    [] OTHER -> LET g == SF(GlobalClass, D(r, 4), RngSkip(r, 2), Opt) IN SAssert(g[1]) /\ rng' = RngSkip(g[2], 2)

SInit == /\ Init
         /\ mac = <<<<>>>> /\ defs = <<<<>>>> /\ sat = FALSE
         /\ opts = [k \in {Keys[j] : j \in 1..Len(Keys)} |-> IF k = ":precision" THEN "0.001" ELSE "unsupported"]
SNext == /\ Len(hist) < L
         /\ IF Len(hist) = L - 1 THEN SCheck /\ UNCHANGED rng ELSE SRandom
SSpec == SInit /\ [][SNext]_svars

(* The other input language: variables, then constraints, then one check.   *)
DrOpt == [ite |-> FALSE, q |-> FALSE, fn |-> FALSE, fun |-> Fun]
DrNext ==
  LET r == S1(rng)  free == Vs \ Declared IN
  /\ Len(hist) < L
  /\ IF Len(hist) = L - 1 THEN SCheck /\ UNCHANGED rng
     ELSE IF free # {} THEN LET d == Dom(CHOOSE v \in free : TRUE, r) IN
          SDeclare(CHOOSE v \in free : TRUE, d[1], d[2], 0) /\ rng' = RngSkip(r, 6)
     ELSE LET g == SF(GlobalClass, D(r, 4), RngSkip(r, 2), DrOpt) IN SAssert(g[1]) /\ rng' = RngSkip(g[2], 2)

(* elaboration leaves no name behind *)
Elaborated == \A k \in 1..Len(Live(Top)) : FVars(fs[Live(Top)[k]]) \subseteq Declared
InStep == Len(mac) = Top /\ Len(defs) = Top
SEmit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
