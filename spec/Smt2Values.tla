----------------------------- MODULE Smt2Values ----------------------------
(* Parsed terms: NT registers, each holding an expression or a formula over  *)
(* one real variable x and one Boolean variable p.                           *)
EXTENDS Integers, Sequences, TLC, Json, Rng

CONSTANTS NT, L, MaxDepth, Random, Seed0, Runs
VARIABLES reg, hist, rng
vars == <<reg, hist, rng>>

(* expressions: <<"lin", a, b>> is a*x + b; <<"ite", f, e, e>>;              *)
(* <<"add", e, lin>>; formulas: <<"le", e>> is e <= 3; <<"p">>;              *)
(* <<"not", f>>; <<"and", f, f>>; <<"false">>                                *)
RECURSIVE EvE(_, _, _), EvF(_, _, _), SubE(_, _, _), SubF(_, _, _), SubEp(_, _), SubFp(_, _), Depth(_)
EvE(t, x, p) == IF t[1] = "lin" THEN t[2] * x + t[3]
                ELSE IF t[1] = "add" THEN EvE(t[2], x, p) + EvE(t[3], x, p)
                ELSE IF EvF(t[2], x, p) THEN EvE(t[3], x, p) ELSE EvE(t[4], x, p)
EvF(t, x, p) == CASE t[1] = "le" -> EvE(t[2], x, p) <= 3 [] t[1] = "p" -> p
                  [] t[1] = "not" -> ~EvF(t[2], x, p)
                  [] t[1] = "and" -> EvF(t[2], x, p) /\ EvF(t[3], x, p) [] OTHER -> FALSE
(* x := an expression is kept as a let, so that any expression can be put in *)
Lin(a, b) == <<"lin", a, b>>
IsLin(t) == t[1] = "lin"
SubE(t, a, b) == IF IsLin(t) THEN Lin(t[2] * a, t[2] * b + t[3])
                 ELSE IF t[1] = "add" THEN <<"add", SubE(t[2], a, b), SubE(t[3], a, b)>>
                 ELSE <<"ite", SubF(t[2], a, b), SubE(t[3], a, b), SubE(t[4], a, b)>>
SubF(t, a, b) == CASE t[1] = "le" -> <<"le", SubE(t[2], a, b)>> [] t[1] = "not" -> <<"not", SubF(t[2], a, b)>>
                   [] t[1] = "and" -> <<"and", SubF(t[2], a, b), SubF(t[3], a, b)>> [] OTHER -> t
SubEp(t, f) == IF IsLin(t) THEN t ELSE IF t[1] = "add" THEN <<"add", SubEp(t[2], f), t[3]>>
               ELSE <<"ite", SubFp(t[2], f), SubEp(t[3], f), SubEp(t[4], f)>>
SubFp(t, f) == CASE t[1] = "p" -> f [] t[1] = "le" -> <<"le", SubEp(t[2], f)>>
                 [] t[1] = "not" -> <<"not", SubFp(t[2], f)>>
                 [] t[1] = "and" -> <<"and", SubFp(t[2], f), SubFp(t[3], f)>> [] OTHER -> t
Max(a, b) == IF a > b THEN a ELSE b
Depth(t) == CASE t[1] = "ite" -> 1 + Max(Depth(t[2]), Max(Depth(t[3]), Depth(t[4])))
              [] t[1] \in {"le", "not", "add"} -> 1 + Depth(t[2])
              [] t[1] = "and" -> 1 + Max(Depth(t[2]), Depth(t[3])) [] OTHER -> 0
IsE(t) == t[1] \in {"lin", "ite", "add"}
B(c) == IF c THEN 1 ELSE 0
Pts == << <<-2, FALSE>>, <<0, TRUE>>, <<3, FALSE>>, <<1, TRUE>>, <<-1, TRUE>>, <<2, FALSE>> >>
Tab(t) == [i \in 1..6 |-> IF IsE(t) THEN EvE(t, Pts[i][1], Pts[i][2]) ELSE B(EvF(t, Pts[i][1], Pts[i][2]))]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE <<B(IsE(s[1]))>> \o Tab(s[1]) \o Flat(Tail(s))

Keep(op, res) == UNCHANGED reg /\ hist' = Append(hist, op \o <<res>> \o Flat(reg))
To(i, t, op) == IF Depth(t) > MaxDepth THEN Keep(<<"noop", 1, 1, 1, 1>>, 0)
                ELSE reg' = [reg EXCEPT ![i] = t] /\ hist' = Append(hist, op \o <<0>> \o Flat(reg'))
(* op = <<name, i, j, a, b>> *)
Do(op) ==
  LET nm == op[1]  i == op[2]  j == op[3]  a == op[4]  b == op[5] IN
  /\ CASE nm \in {"newE", "setE", "mutE"} ->
            IF nm = "mutE" /\ ~IsE(reg[i]) THEN Keep(op, -1) ELSE To(i, Lin(a, b), op)
       [] nm \in {"newP", "setP", "mutP"} ->
            IF nm = "mutP" /\ IsE(reg[i]) THEN Keep(op, -1) ELSE To(i, <<"p">>, op)
       [] nm = "default" -> To(i, <<"false">>, op)
       [] nm \in {"copy", "copynew"} -> To(i, reg[j], op)
       [] nm = "le" -> IF IsE(reg[j]) THEN To(i, <<"le", reg[j]>>, op) ELSE Keep(op, -1)   \* expression() <= 3
       [] nm = "not" -> IF ~IsE(reg[j]) THEN To(i, <<"not", reg[j]>>, op) ELSE Keep(op, -1) \* !formula()
       [] nm = "add" -> IF IsE(reg[j]) THEN To(i, <<"add", reg[j], Lin(a, b)>>, op) ELSE Keep(op, -1)
       [] nm = "and" -> IF ~IsE(reg[j]) /\ ~IsE(reg[b]) THEN To(i, <<"and", reg[j], reg[b]>>, op) ELSE Keep(op, -1)
       [] nm = "ite" -> IF ~IsE(reg[j]) /\ IsE(reg[i]) THEN To(i, <<"ite", reg[j], reg[i], Lin(a, b)>>, op) ELSE Keep(op, -1)
       [] nm = "type" -> Keep(op, B(IsE(reg[i])))
       [] nm = "sort" -> Keep(op, B(IsE(reg[i]) = (a # 1)))     \* 1: Bool, 0, 2, 3: Binary, Int, Real
       [] nm = "vtype" -> Keep(op, B(IsE(reg[i]) = (a # 1)))
       [] nm = "subx" -> To(i, IF IsE(reg[j]) THEN SubE(reg[j], a, b) ELSE SubF(reg[j], a, b), op)
       [] nm = "subp" -> LET f == reg[a] IN
                         IF IsE(f) THEN Keep(<<"noop", 1, 1, 1, 1>>, 0)
                         ELSE To(i, IF IsE(reg[j]) THEN SubEp(reg[j], f) ELSE SubFp(reg[j], f), op)
  /\ rng' = IF Random THEN RngSkip(rng, 7) ELSE rng
Names == <<"newE", "setE", "mutE", "newP", "setP", "mutP", "default", "copy", "copynew", "le", "le", "not", "ite", "ite", "type",
           "sort", "sort", "vtype", "vtype", "subx", "subx", "subp", "subp", "subp", "add", "add", "and",
           "ite", "ite", "newE", "newP", "subp", "subp">>
Mk(n, i, j, a, b) == IF n \in {"sort", "vtype"} THEN <<n, i, j, a % 4, 0>>
                     ELSE IF n = "and" THEN <<n, i, j, 0, 1 + (b % NT)>>
                     ELSE IF n = "subp" THEN <<n, i, j, 1 + (a % NT), 0>> ELSE <<n, i, j, a - 3, b - 3>>
Pick == Mk(DrawSeq(rng, 1, Names), 1 + Draw(rng, 2, NT), 1 + Draw(rng, 3, NT), Draw(rng, 4, 7), Draw(rng, 5, 7))
AllOps == {Mk(Names[k], i, j, a, 5) : k \in 1..Len(Names), i \in 1..NT, j \in 1..NT, a \in 0..2}
Init == /\ reg = [i \in 1..NT |-> <<"false">>]
        /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1039 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Random THEN Do(Pick) ELSE \E op \in AllOps : Do(op)
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))

(* names: what a reader is to make of them (0: refused)                      *)
SortNames == << <<"Binary", 1>>, <<"Bool", 2>>, <<"Int", 3>>, <<"Real", 4>> >>
LogicNames == << <<"ALL", 1>>, <<"QF_LIA", 2>>, <<"QF_LIRA", 3>>, <<"QF_LRA", 4>>, <<"QF_NIA", 5>>, <<"QF_NIAT", 6>>,
                 <<"QF_NIRA", 7>>, <<"QF_NIRAT", 8>>, <<"QF_NRA", 9>>, <<"QF_NRAT", 10>>, <<"QF_RDL", 11>> >>
Others == <<"", "real", "REAL", "Real ", " Real", "Integer", "Boolean", "bool", "Reals", "Re", "All", "all", "QF_NRATT", "QF_NR",
            "NRA", "qf_nra", "QF_BV", "QF_", "LRA", "QF_NIRA ", "QF_NTA", "QF-NRA", "Float", "BINARY", "Bin", "QF_UF", "QF_IDL">>
RECURSIVE Find(_, _)
Find(tab, s) == IF tab = <<>> THEN 0 ELSE IF tab[1][1] = s THEN tab[1][2] ELSE Find(Tail(tab), s)
AllNames == [k \in 1..4 |-> SortNames[k][1]] \o [k \in 1..11 |-> LogicNames[k][1]] \o Others
(* commands: how they print *)
Cmds == << <<"(check-sat)", 0>>, <<"(exit)", 0>>, <<"(reset)", 0>> >> \o
        [k \in 1..6 |-> <<"(push " \o ToString(k * k) \o ")", k * k>>] \o
        [k \in 1..6 |-> <<"(pop " \o ToString(k * k) \o ")", k * k>>] \o
        [k \in 1..11 |-> <<"(set-logic " \o LogicNames[k][1] \o ")", k>>] \o
        << <<"(set-option :precision 0.01)", 0>>, <<"(set-info :status sat)", 0>>, <<"(set-info a b)", 0>> >>
ASSUME PrintT("@@" \o ToJson([cmds |-> Cmds]))
ASSUME PrintT("@@" \o ToJson([names |-> [k \in 1..Len(AllNames) |->
         <<AllNames[k], Find(SortNames, AllNames[k]), Find(LogicNames, AllNames[k])>>]]))
=============================================================================
