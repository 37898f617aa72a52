-------------------------------- MODULE Valid --------------------------------
(* Judges results recorded from the real code (trace.ndjson, one record per  *)
(* line): the trees are the real syntax trees, read through the public       *)
(* accessors, with n-ary connectives "nand" and "nor".                       *)
(*  dstr/dweak  <<kind, n, d, in, out>>  out = DeltaStrengthen/Weaken(in)     *)
(*  shape       the answers of the structural predicates on a formula         *)
(*  order       Less / EqualTo / equal-hash matrices of n values              *)
EXTENDS Terms, TLC, Json, SequencesExt

Recs == ndJsonDeserialize("trace.ndjson")
VARIABLE i
R == Recs[i].r

(* ----------------------------------------------- n-ary to binary connectives *)
RECURSIVE Bin(_)
Fold(op, ts, unit) == FoldRight(LAMBDA x, acc : IF acc = <<>> THEN x ELSE <<op, x, acc>>, ts, <<>>)
Bin(t) ==
  CASE t[1] = "nand" -> Fold("and", [k \in 1..(Len(t) - 1) |-> Bin(t[k + 1])], <<"true">>)
    [] t[1] = "nor" -> Fold("or", [k \in 1..(Len(t) - 1) |-> Bin(t[k + 1])], <<"false">>)
    [] t[1] \in Binary -> <<t[1], Bin(t[2]), Bin(t[3])>>
    [] t[1] \in Unary -> <<t[1], Bin(t[2])>>
    [] t[1] = "fn" -> <<"fn", t[2], Bin(t[3])>>
    [] t[1] = "ite" -> <<"ite", Bin(t[2]), Bin(t[3]), Bin(t[4])>>
    [] t[1] = "forall" -> <<"forall", t[2], t[3], Bin(t[4])>>
    [] OTHER -> t

Pt(x1, x2, x3, b) ==
  [n |-> <<x1, x2, x3, <<0, 1>>, <<0, 1>>, <<0, 1>>, <<0, 1>>, <<0, 1>>>>, b |-> b \o <<0, 0, 0, 0, 0>>]
PtsV == << Pt(<<1, 1>>, <<2, 1>>, <<-3, 1>>, <<0, 1, 0>>), Pt(<<2, 1>>, <<1, 1>>, <<1, 1>>, <<1, 0, 1>>),
           Pt(<<0, 1>>, <<1, 2>>, <<0, 1>>, <<1, 1, 0>>), Pt(<<-1, 2>>, <<-1, 1>>, <<3, 2>>, <<0, 0, 1>>),
           Pt(<<3, 1>>, <<3, 1>>, <<-3, 1>>, <<1, 0, 0>>), Pt(<<-2, 1>>, <<0, 1>>, <<2, 1>>, <<0, 1, 1>>),
           Pt(<<3, 2>>, <<1, 1>>, <<1, 2>>, <<0, 0, 0>>), Pt(<<1, 2>>, <<1, 1>>, <<-1, 1>>, <<1, 1, 1>>),
           Pt(<<4, 1>>, <<2, 1>>, <<0, 1>>, <<1, 0, 1>>), Pt(<<1, 1>>, <<3, 1>>, <<2, 1>>, <<0, 1, 0>>) >>

DeltaOk ==
  LET in == Bin(R[4])
      out == Bin(R[5])
      dl == IF R[1] = "dstr" THEN <<R[2], R[3]>> ELSE <<-R[2], R[3]>>
  IN \A p \in 1..Len(PtsV) :
       LET lo == DeltaTruth(in, PtsV[p], dl, FALSE)
           hi == DeltaTruth(in, PtsV[p], dl, TRUE)
           g == Fv(out, PtsV[p])
       IN lo = 2 \/ hi = 2 \/ g = 2 \/ (lo <= g /\ g <= hi)

(* -------------------------------------------------------------- structure *)
AtomK == Rels \cup {"true", "false", "bvar"}
IsAtomic(t) == t[1] \in AtomK \/ t[1] = "forall" \/ (t[1] = "not" /\ t[2][1] \in Rels \cup {"bvar"})
Literal(t) == IsAtomic(t) \/ (t[1] = "not" /\ IsAtomic(t[2]))
Args(t) == {t[k] : k \in 2..Len(t)}
(* a negated quantified formula is a clause, but as a part of a disjunction  *)
(* the code does not say: no claim                                           *)
NoClaim(t) == \E s \in ({t} \cup IF t[1] \in {"nand", "nor"} THEN Args(t) ELSE {}) :
                 s[1] = "nor" /\ \E l \in Args(s) : l[1] = "not" /\ l[2][1] = "forall"
IsClause(t) == Literal(t) \/ (t[1] = "nor" /\ \A l \in Args(t) : Literal(l))
IsCnf(t) == IsClause(t) \/ (t[1] = "nand" /\ \A c \in Args(t) : IsClause(c))
Clauses(t) == IF t[1] = "nand" THEN Args(t) ELSE {t}
RECURSIVE Smooth1(_)
Smooth1(t) ==
  CASE t[1] \in {"ite", "min", "max", "forall"} -> FALSE
    [] t[1] = "fn" -> t[2] # "abs" /\ Smooth1(t[3])
    [] t[1] \in {"nand", "nor"} -> \A s \in Args(t) : Smooth1(s)
    [] t[1] \in Binary -> Smooth1(t[2]) /\ Smooth1(t[3])
    [] t[1] \in Unary -> Smooth1(t[2])
    [] OTHER -> TRUE
RECURSIVE HasIte(_)
HasIte(t) ==
  CASE t[1] = "ite" -> TRUE
    [] t[1] = "fn" -> HasIte(t[3])
    [] t[1] = "forall" -> HasIte(t[4])
    [] t[1] \in {"nand", "nor"} -> \E s \in Args(t) : HasIte(s)
    [] t[1] \in Binary -> HasIte(t[2]) \/ HasIte(t[3])
    [] t[1] \in Unary -> HasIte(t[2])
    [] OTHER -> FALSE

(* convertible to a polynomial: sums and products of constants, variables,  *)
(* and their non-negative integer powers; also divided by a constant        *)
RECURSIVE Poly(_)
Poly(t) ==
  CASE t[1] \in {"const", "var"} -> TRUE
    [] t[1] \in {"add", "mul"} -> Poly(t[2]) /\ Poly(t[3])
    [] t[1] = "div" -> Poly(t[2]) /\ t[3][1] = "const"
    [] t[1] = "pow" -> Poly(t[2]) /\ t[3][1] = "const" /\ t[3][3] = 1 /\ t[3][2] >= 0
    [] OTHER -> FALSE
(* which predicates on the kind hold *)
Kind(t) ==
  CASE t[1] = "const" -> <<"constant">> \o (IF t[2] = 0 THEN <<"zero">> ELSE <<>>)
                         \o (IF t[3] = 1 /\ t[2] = 1 THEN <<"one">> ELSE <<>>)
                         \o (IF t[3] = 1 /\ t[2] = -1 THEN <<"neg_one">> ELSE <<>>)
                         \o (IF t[3] = 1 /\ t[2] = 2 THEN <<"two">> ELSE <<>>)
    [] t[1] = "fn" -> <<t[2]>>
    [] t[1] \in Rels -> <<t[1], "relational">>
    [] t[1] = "bvar" -> <<"var">>
    [] t[1] \in {"nand", "nor"} -> <<t[1], "nary">>
    [] OTHER -> <<t[1]>>
ShapeEBad ==
  LET t == R[2]  b == Bin(t) IN
  SelectSeq(<<
       IF R[3] # B(Poly(t)) THEN "is_polynomial" ELSE "",
       IF R[4] # B(HasIte(t)) THEN "include_ite" ELSE "",
       IF R[5] # B(Smooth1(t)) THEN "IsDifferentiable" ELSE "",
       IF Range(R[6][1]) # FN(b) \/ Range(R[6][2]) # FB(b) THEN "GetVariables" ELSE "",
       IF R[7] # Kind(t) THEN "kind" ELSE "" >>, LAMBDA s : s # "")

ShapeBad ==   \* the names of the wrong answers
  LET t == R[2]
      b == Bin(t)
      o == Bin(R[11])
      inter == FN(b) \cap FN(o) # {} \/ FB(b) \cap FB(o) # {}
  IN SelectSeq(<<
       IF R[3] # B(IsAtomic(t)) THEN "is_atomic" ELSE "",
       IF ~NoClaim(t) /\ R[4] # B(IsClause(t)) THEN "is_clause" ELSE "",
       IF ~NoClaim(t) /\ R[5] # 2 /\ R[5] # B(IsCnf(t)) THEN "is_cnf" ELSE "",
       IF ~NoClaim(t) /\ R[5] = 1 /\ Range(R[6]) # Clauses(t) THEN "get_clauses" ELSE "",
       IF R[7] # B(Smooth1(t)) THEN "IsDifferentiable" ELSE "",
       IF R[8] # B(HasIte(t)) THEN "include_ite" ELSE "",
       IF Range(R[9][1]) # FN(b) \/ Range(R[9][2]) # FB(b) THEN "GetFreeVariables" ELSE "",
       IF R[10] # B(inter) THEN "HaveIntersection" ELSE "",
       IF R[12] # Kind(t) THEN "kind" ELSE "" >>, LAMBDA s : s # "")

(* ------------------------------------------------------------------ order *)
OrderOk ==
  LET n == R[2]
      lt(a, c) == R[3][a][c] = 1
      eq(a, c) == R[4][a][c] = 1
      hs(a, c) == R[5][a][c] = 1
  IN \A a, c \in 1..n :
       /\ (lt(a, c) => ~lt(c, a))
       /\ (eq(a, c) <=> (~lt(a, c) /\ ~lt(c, a)))
       /\ (eq(a, c) => hs(a, c))
       /\ \A d \in 1..n : (lt(a, c) /\ lt(c, d)) => lt(a, d)

Verdict ==
  CASE R[1] \in {"dstr", "dweak"} -> IF DeltaOk THEN <<>> ELSE <<R[1]>>
    [] R[1] = "shape" -> ShapeBad
    [] R[1] = "shapeE" -> ShapeEBad
    [] R[1] = "order" -> IF OrderOk THEN <<>> ELSE <<"order">>

Init == i = 1
Next == i < Len(Recs) /\ i' = i + 1
Emit == i > Len(Recs) \/
        LET v == Verdict IN PrintT("@@" \o ToJson([i |-> i, ok |-> v = <<>>, why |-> v]))
=============================================================================
