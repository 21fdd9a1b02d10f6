------------------------------- MODULE NatDed -------------------------------
(***************************************************************************)
(* Natural deduction proofs: what a proof is, when it is right, and what   *)
(* it means that it is.                                                    *)
(*                                                                         *)
(* A proof is a sequence of items:                                         *)
(*   <<"f", row, formula, rule, cites>>  a line; cites: the rows it cites  *)
(*   <<"t", row, term>>                  a term that a subproof introduces *)
(*   <<"b", row, items>>                 a subproof, cited by that row     *)
(*                                                                         *)
(* Reasons(proof) is why a proof is wrong; {} if it is right. The reasons: *)
(*   "rule"   a line is no instance of its rule                            *)
(*   "scope"  it uses what it may not: lines that are not visible, lines   *)
(*            for subproofs and conversely, misplaced assumptions          *)
(*   "qform"  it is no instance of its quantifier rule                     *)
(*   "qside"  a term is not as arbitrary, or as free, as it has to be      *)
(*   "gray"   nothing is said of the proof, but that, if it is accepted,   *)
(*            it must be sound                                             *)
(***************************************************************************)
EXTENDS Ast

(* ------------------------------- terms --------------------------------- *)
RECURSIVE InTerm(_, _)
InTerm(t, u) == t = u \/ (Tag(u) = "fun" /\ \E i \in 3..Len(u) : InTerm(t, u[i]))

RECURSIVE SubTerms(_)
SubTerms(u) == {u} \cup (IF Tag(u) = "fun" THEN UNION {SubTerms(u[i]) : i \in 3..Len(u)} ELSE {})

\* t occurs anywhere in f, be it bound
RECURSIVE Occurs(_, _)
Occurs(t, f) ==
  CASE Tag(f) = "pred" -> \E i \in 3..Len(f) : InTerm(t, f[i])
    [] Tag(f) \in {"tt", "ff", "true", "false", "atom"} -> FALSE
    [] Tag(f) \in {"forall", "exists"} -> t = f[2] \/ Occurs(t, f[3])
    [] OTHER -> \E i \in 2..Len(f) : Occurs(t, f[i])

RECURSIVE Free(_, _)
Free(t, f) ==
  CASE Tag(f) = "pred" -> \E i \in 3..Len(f) : InTerm(t, f[i])
    [] Tag(f) \in {"tt", "ff", "true", "false", "atom"} -> FALSE
    [] Tag(f) \in {"forall", "exists"} -> ~InTerm(f[2], t) /\ Free(t, f[3])
    [] OTHER -> \E i \in 2..Len(f) : Free(t, f[i])

RECURSIVE TermsOf(_)
TermsOf(f) ==
  CASE Tag(f) = "pred" -> UNION {SubTerms(f[i]) : i \in 3..Len(f)}
    [] Tag(f) \in {"tt", "ff", "true", "false", "atom"} -> {}
    [] Tag(f) \in {"forall", "exists"} -> {f[2]} \cup TermsOf(f[3])
    [] OTHER -> UNION {TermsOf(f[i]) : i \in 2..Len(f)}

(* ---------------------------- substitution ----------------------------- *)
RECURSIVE SubstTerm(_, _, _)
SubstTerm(u, x, t) ==
  IF u = x THEN t
  ELSE IF Tag(u) = "fun" THEN <<"fun", u[2]>> \o [i \in 1..(Len(u) - 2) |-> SubstTerm(u[i + 2], x, t)]
  ELSE u

\* f[t/x]; the operators simplify as they do (raw: as they do not)
RECURSIVE Subst(_, _, _, _)
Subst(f, x, t, raw) ==
  CASE Tag(f) \in {"tt", "ff", "true", "false", "atom"} -> f
    [] Tag(f) = "pred" -> <<"pred", f[2]>> \o [i \in 1..(Len(f) - 2) |-> SubstTerm(f[i + 2], x, t)]
    [] Tag(f) \in {"forall", "exists"} -> IF f[2] = x THEN f ELSE <<Tag(f), f[2], Subst(f[3], x, t, raw)>>
    [] OTHER -> LET ops == [i \in 1..(Len(f) - 1) |-> Subst(f[i + 1], x, t, raw)]
                IN IF raw THEN <<Tag(f)>> \o ops ELSE Mk(Tag(f), ops)

\* no variable of t gets bound in f[t/x]
RECURSIVE FreeFor(_, _, _)
FreeFor(f, x, t) ==
  CASE Tag(f) \in {"tt", "ff", "true", "false", "atom", "pred"} -> TRUE
    [] Tag(f) \in {"forall", "exists"} ->
         f[2] = x \/ ~Free(x, f[3]) \/ (~InTerm(f[2], t) /\ FreeFor(f[3], x, t))
    [] OTHER -> \A i \in 2..Len(f) : FreeFor(f[i], x, t)

\* the same, where x is bound again in f, and does not matter
RECURSIVE PlainlyFreeFor(_, _, _)
PlainlyFreeFor(f, x, t) ==
  CASE Tag(f) \in {"tt", "ff", "true", "false", "atom", "pred"} -> TRUE
    [] Tag(f) \in {"forall", "exists"} ->
         f[2] = x \/ ~Occurs(x, f[3]) \/ (~InTerm(f[2], t) /\ PlainlyFreeFor(f[3], x, t))
    [] OTHER -> \A i \in 2..Len(f) : PlainlyFreeFor(f[i], x, t)

\* Is g the formula f with t for x? {} yes; {"gray"}: but for a simplification
\* (of the result, when it is built)
Instance(f, x, t, g) ==
  IF ~FreeFor(f, x, t) THEN
     (IF Subst(f, x, t, FALSE) = g \/ Subst(f, x, t, TRUE) = g THEN {"qside"} ELSE {"qform"})
  ELSE IF Subst(f, x, t, TRUE) = g THEN (IF PlainlyFreeFor(f, x, t) THEN {} ELSE {"gray"})
  ELSE IF Subst(f, x, t, FALSE) = g THEN {"gray"}
  ELSE {"qform"}

\* g is an instance of f for some term
SomeInstance(f, x, g) ==
  LET rs == {Instance(f, x, t, g) : t \in TermsOf(g) \cup {x}}
  IN IF {} \in rs THEN {}
     ELSE IF {"gray"} \in rs THEN {"gray"}
     ELSE IF {"qside"} \in rs THEN {"qside"}
     ELSE {"qform"}

(* ------------------------------ the rules ------------------------------ *)
IsLine(it) == it[1] = "f"
First(b) == b[3][1]
Final(b) == b[3][Len(b[3])]

\* "f" a formula; "b", "t": a subproof that opens with a formula, with a term
Kind(it) ==
  IF IsLine(it) THEN "f"
  ELSE IF it[1] = "t" THEN "x"
  ELSE IF Len(it[3]) = 0 \/ ~IsLine(Final(it)) THEN "x"
  ELSE CASE First(it)[1] = "t" -> "t" [] First(it)[1] = "f" -> "b" [] OTHER -> "x"

Takes == [
  and_e1 |-> <<"f">>, and_e2 |-> <<"f">>, and_i |-> <<"f", "f">>,
  or_i1 |-> <<"f">>, or_i2 |-> <<"f">>, or_e |-> <<"f", "b", "b">>,
  impl_e |-> <<"f", "f">>, impl_i |-> <<"b">>, MT |-> <<"f", "f">>,
  neg_e |-> <<"f", "f">>, neg_i |-> <<"b">>, bot_e |-> <<"f">>,
  dneg_e |-> <<"f">>, dneg_i |-> <<"f">>, copy |-> <<"f">>,
  premise |-> <<>>, assumption |-> <<>>,
  forall_e |-> <<"f">>, exists_i |-> <<"f">>, forall_i |-> <<"t">>, exists_e |-> <<"f", "t">> ]
Rules == DOMAIN Takes
Quantifier == {"forall_e", "forall_i", "exists_e", "exists_i"}
Discharging == {"or_e", "impl_i", "neg_i", "forall_i", "exists_e"}

\* what a rule that fails is a failure of
Cause(rule) == (IF rule \in Quantifier THEN {"qform"} ELSE {"rule"})
               \cup (IF rule \in Discharging THEN {"scope"} ELSE {})

Iff(b, rule) == IF b THEN {} ELSE Cause(rule)
Arrow(f, g) == Mk("or", <<MkNot(f), g>>)
Simple(t) == Tag(t) \in {"var", "const"}

\* x: the items that are cited
Conjunct(f, g, k) ==       \* f is conjunct k of g
  IF Tag(g) # "and" THEN (IF g \in {f, FF} THEN {"gray"} ELSE {"rule"})
  ELSE IF Len(g) # 3 THEN {"gray"}          \* nested, and flattened
  ELSE IF f = g[k + 1] THEN {} ELSE {"rule"}
Disjunct(f, g, k) ==       \* g is disjunct k of f
  IF Tag(f) # "or" THEN (IF f \in {g, TT} THEN {"gray"} ELSE {"rule"})
  ELSE IF Len(f) # 3 THEN {"gray"}
  ELSE IF g = f[k + 1] THEN {} ELSE {"rule"}

ForallI(f, box) ==
  LET a == First(box)[3]
      inst == Instance(f[3], f[2], a, Final(box)[3])
  IN IF Tag(f) # "forall" THEN Cause("forall_i")
     ELSE IF inst \notin {{}, {"gray"}} THEN inst \cup {"scope"}
     ELSE IF ~Simple(a) THEN {"qside"}
     ELSE IF Free(a, f) THEN {"qside"}
     ELSE IF \E i \in 2..Len(box[3]) : IsLine(box[3][i]) /\ box[3][i][4] = "assumption" THEN {"qside"}
     ELSE IF Occurs(a, f) THEN {"gray"}
     ELSE inst

ExistsE(f, g, box) ==
  LET a == First(box)[3]
      second == box[3][2]
      inst == Instance(g[3], g[2], a, second[3])
      chi == Final(box)[3]
  IN IF Tag(g) # "exists" \/ ~IsLine(second) THEN Cause("exists_e")
     ELSE IF inst \notin {{}, {"gray"}} THEN inst \cup {"scope"}
     ELSE IF f # chi THEN Cause("exists_e")
     ELSE IF ~Simple(a) THEN {"qside"}
     ELSE IF Free(a, g) \/ Free(a, chi) THEN {"qside"}
     ELSE IF Occurs(a, g) \/ Occurs(a, chi) THEN {"gray"}
     ELSE IF second[4] # "assumption" THEN {"gray"}
     ELSE inst

RuleReasons(f, rule, x) ==
  CASE rule = "and_e1" -> Conjunct(f, x[1][3], 1)
    [] rule = "and_e2" -> Conjunct(f, x[1][3], 2)
    [] rule = "and_i"  -> Iff(f = Mk("and", <<x[1][3], x[2][3]>>), rule)
    [] rule = "or_i1"  -> Disjunct(f, x[1][3], 1)
    [] rule = "or_i2"  -> Disjunct(f, x[1][3], 2)
    [] rule = "or_e"   -> Iff(/\ x[1][3] = Mk("or", <<First(x[2])[3], First(x[3])[3]>>)
                              /\ f = Final(x[2])[3] /\ f = Final(x[3])[3], rule)
    [] rule = "impl_e" -> Iff(x[2][3] = Arrow(x[1][3], f), rule)
    [] rule = "impl_i" -> Iff(f = Arrow(First(x[1])[3], Final(x[1])[3]), rule)
    [] rule = "MT"     -> Iff(x[1][3] = Arrow(MkNot(f), MkNot(x[2][3])), rule)
    [] rule = "neg_e"  -> Iff(x[2][3] = MkNot(x[1][3]) /\ f = FF, rule)
    [] rule = "neg_i"  -> Iff(Final(x[1])[3] = FF /\ f = MkNot(First(x[1])[3]), rule)
    [] rule = "bot_e"  -> Iff(x[1][3] = FF, rule)
    [] rule = "dneg_e" -> Iff(x[1][3] = MkNot(MkNot(f)), rule)
    [] rule = "dneg_i" -> Iff(f = MkNot(MkNot(x[1][3])), rule)
    [] rule = "copy"   -> Iff(f = x[1][3], rule)
    [] rule \in {"premise", "assumption"} -> {}
    [] rule = "forall_e" -> IF Tag(x[1][3]) # "forall" THEN {"qform"}
                            ELSE SomeInstance(x[1][3][3], x[1][3][2], f)
    [] rule = "exists_i" -> IF Tag(f) # "exists" THEN {"qform"}
                            ELSE SomeInstance(f[3], f[2], x[1][3])
    [] rule = "forall_i" -> ForallI(f, x[1])
    [] rule = "exists_e" -> ExistsE(f, x[1][3], x[2])

\* A first-order formula joined with a constant: the constants that proofs use
\* are those of propositional logic.
RECURSIVE FirstOrder(_)
FirstOrder(f) == CASE Tag(f) \in {"pred", "forall", "exists"} -> TRUE
                   [] Tag(f) \in Leaves -> FALSE
                   [] OTHER -> \E i \in 2..Len(f) : FirstOrder(f[i])
Joined(f, rule, x) ==
  CASE rule = "and_i"  -> {x[1][3], x[2][3], f}
    [] rule = "or_e"   -> {First(x[2])[3], First(x[3])[3], x[1][3]}
    [] rule = "impl_e" -> {x[1][3], x[2][3], f}
    [] rule = "impl_i" -> {First(x[1])[3], Final(x[1])[3], f}
    [] rule = "MT"     -> {f, x[1][3], x[2][3]}
    [] OTHER -> {}
RECURSIVE HasConstant(_)
HasConstant(f) == CASE Tag(f) \in {"tt", "ff"} -> TRUE
                    [] Tag(f) \in {"pred", "atom"} -> FALSE
                    [] Tag(f) \in {"forall", "exists"} -> HasConstant(f[3])
                    [] OTHER -> \E i \in 2..Len(f) : HasConstant(f[i])
Mixed(gs) == (\E g \in gs : HasConstant(g)) /\ \E g \in gs : FirstOrder(g)

(***************************************************************************)
(* A line in its context: env, the items that are visible, by row; inBox,  *)
(* whether in a subproof; opening, whether only terms precede it there.    *)
(***************************************************************************)
LineReasons(f, rule, cites, env, inBox, opening) ==
  LET vis == SelectSeq(cites, LAMBDA r : r \in DOMAIN env)
      x == [i \in 1..Len(vis) |-> env[vis[i]]]
      k == Len(Takes[rule])
      kinds == [i \in 1..(IF Len(x) < k THEN Len(x) ELSE k) |-> Kind(x[i])]
      rr == RuleReasons(f, rule, SubSeq(x, 1, k))
  IN IF rule \notin Rules THEN {"rule"}
     ELSE IF rule = "premise" /\ inBox THEN {"scope"}
     ELSE IF rule = "assumption" /\ inBox /\ ~opening THEN {"scope"}
     ELSE IF rule = "assumption" /\ ~inBox THEN {"gray"}
     ELSE IF kinds # Takes[rule] THEN Cause(rule) \cup {"scope"}
     ELSE IF Mixed(Joined(f, rule, SubSeq(x, 1, k))) THEN {"gray"}
     ELSE rr \cup (IF Len(cites) # k THEN {"gray"} ELSE {})

Put(env, row, it) == [r \in DOMAIN env \cup {row} |-> IF r = row THEN it ELSE env[r]]
NoRows == [r \in {} |-> <<>>]

\* The term that opens a subproof is new: it occurs in no visible formula.
TermReasons(t, env) ==
  LET fs == {env[r][3] : r \in {q \in DOMAIN env : IsLine(env[q])}}
  IN (IF \E f \in fs : Free(t, f) THEN {"qside"}
      ELSE IF \E f \in fs : Occurs(t, f) THEN {"gray"} ELSE {})
     \cup (IF Simple(t) THEN {} ELSE {"gray"})

RECURSIVE ItemsReasons(_, _, _)
RECURSIVE BoxReasons(_, _)
ItemsReasons(items, env, inBox) ==
  LET step(acc, it) ==
        CASE IsLine(it) ->
               [acc EXCEPT !.why = @ \cup LineReasons(it[3], it[4], it[5], acc.env, inBox, acc.opening),
                           !.env = Put(@, it[2], it), !.opening = FALSE]
          [] it[1] = "t" ->      \* a term is expected at the head of a subproof only
               [acc EXCEPT !.why = @ \cup (IF inBox /\ acc.n = 0 THEN {} ELSE {"gray"})]
          [] OTHER ->
               [acc EXCEPT !.why = @ \cup BoxReasons(it, acc.env),
                           !.env = Put(@, it[2], it), !.opening = FALSE]
      count(acc, it) == [step(acc, it) EXCEPT !.n = acc.n + 1]
  IN FoldLeft(count, [why |-> {}, env |-> env, opening |-> TRUE, n |-> 0], items).why

BoxReasons(b, env) ==
  IF Len(b[3]) = 0 THEN {"gray"}
  ELSE ItemsReasons(b[3], env, TRUE)
       \cup (IF First(b)[1] = "t" THEN TermReasons(First(b)[3], env) ELSE {})
       \cup (IF First(b)[1] = "f" /\ First(b)[4] # "assumption" THEN {"gray"} ELSE {})
       \cup (IF First(b)[1] = "b" THEN {"gray"} ELSE {})
       \cup (IF ~IsLine(Final(b)) THEN {"gray"} ELSE {})

Reasons(proof) == ItemsReasons(proof, NoRows, FALSE)

\* No row stands for two items that one line can cite.
RECURSIVE Rows(_)
Rows(items) == FoldLeft(LAMBDA acc, it :
                          CASE it[1] = "f" -> Append(acc, it[2])
                            [] it[1] = "t" -> acc
                            [] OTHER -> acc \o Rows(it[3]),
                        <<>>, items)
DistinctRows(proof) == LET r == Rows(proof) IN Cardinality({r[i] : i \in 1..Len(r)}) = Len(r)

(***************************************************************************)
(* What is claimed: every line follows from the premises above it and the  *)
(* assumptions of the subproofs around it. Obligations: pairs of the       *)
(* formulae assumed, and the formula.                                      *)
(***************************************************************************)
RECURSIVE Obligations(_, _)
Obligations(items, hyps) ==
  FoldLeft(LAMBDA acc, it :
     CASE it[1] = "f" ->
            IF it[4] \in {"premise", "assumption"} THEN [acc EXCEPT !.hyps = @ \cup {it[3]}]
            ELSE [acc EXCEPT !.obl = @ \cup {<<acc.hyps, it[3]>>}]
       [] it[1] = "t" -> acc
       [] OTHER -> [acc EXCEPT !.obl = @ \cup Obligations(it[3], acc.hyps)],
     [hyps |-> hyps, obl |-> {}], items).obl
=============================================================================
