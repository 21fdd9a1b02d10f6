-------------------------------- MODULE Ast --------------------------------
(***************************************************************************)
(* The formulae of the library as values, and its constructors.            *)
(*                                                                         *)
(* A formula is a tuple that starts with a tag:                            *)
(*   <<"tt">>, <<"ff">>         logical constants (of the logic at hand)   *)
(*   <<"true">>, <<"false">>    propositional constants (LTL, PLTL)        *)
(*   <<"atom", name>>           name: a sequence of character codes        *)
(*   <<op, f1, ..., fn>>        every other operator; for LDL,             *)
(*        <<"diamond", re, f>>, <<"box", re, f>>, and the regular          *)
(*        expressions <<"seq"|"union", ...>>, <<"star", re>>,              *)
(*        <<"test", f>>, <<"prop", pl formula>>                            *)
(*   <<"pred", name, t1, ..., tn>>, <<"forall"|"exists", var, f>>,         *)
(*        and the terms <<"var"|"const", name>>, <<"fun", name, t1,...>>   *)
(*                                                                         *)
(* MkX is the constructor of operator X, as a user of the library calls    *)
(* it: it returns the formula after the simplifications.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Tag(f)  == f[1]
Kids(f) == Tail(f)

Leaves      == {"tt", "ff", "true", "false", "atom", "var", "const"}
Named       == {"pred", "fun"}
Commutative == {"and", "or", "equivalence", "union"}
Constants   == {"tt", "ff"}

TT == <<"tt">>
FF == <<"ff">>
Atom(n) == <<"atom", n>>

(***************************************************************************)
(* Equality. Two formulae are equal when they are the same operator over   *)
(* equal operands; the order and the repetitions of the operands of a      *)
(* commutative operator do not matter.                                     *)
(***************************************************************************)
RECURSIVE Canon(_)
Canon(f) ==
  IF Tag(f) \in Leaves THEN f
  ELSE IF Tag(f) \in Named THEN f
  ELSE IF Tag(f) \in Commutative
       THEN <<Tag(f), {Canon(f[i]) : i \in 2..Len(f)}>>
       ELSE <<Tag(f)>> \o [i \in 1..(Len(f) - 1) |-> Canon(f[i + 1])]

SameFormula(f, g) == Canon(f) = Canon(g)

RECURSIVE Size(_)
Size(f) == IF Tag(f) \in Leaves \cup Named THEN 1
           ELSE 1 + FoldLeft(LAMBDA n, g : n + Size(g), 0, Kids(f))

RECURSIVE Depth(_)
Depth(f) == IF Tag(f) \in Leaves \cup Named THEN 0
            ELSE 1 + FoldLeft(LAMBDA n, g : LET d == Depth(g) IN IF d > n THEN d ELSE n,
                              0, Kids(f))

RECURSIVE Names(_)
Names(f) == IF Tag(f) = "atom" THEN {f[2]}
            ELSE IF Tag(f) \in Leaves \cup Named THEN {}
            ELSE UNION {Names(f[i]) : i \in 2..Len(f)}

RECURSIVE Subs(_)
Subs(f) == {f} \cup (IF Tag(f) \in Leaves \cup Named THEN {}
                     ELSE UNION {Subs(f[i]) : i \in 2..Len(f)})

(***************************************************************************)
(* Negation.                                                               *)
(***************************************************************************)
MkNot(f) ==
  CASE Tag(f) = "tt"    -> FF
    [] Tag(f) = "ff"    -> TT
    [] Tag(f) = "true"  -> <<"false">>
    [] Tag(f) = "false" -> <<"true">>
    [] Tag(f) = "not"   -> f[2]
    [] OTHER            -> <<"not", f>>

(***************************************************************************)
(* Conjunction and disjunction: nested ones are flattened, the identity    *)
(* and the repetitions (but the first) are dropped, and the absorbing      *)
(* element, or an operand and its negation, determine the result.          *)
(***************************************************************************)
Identity(op)  == IF op = "and" THEN TT ELSE FF
Absorbing(op) == IF op = "and" THEN FF ELSE TT

RECURSIVE Flat(_, _)
Flat(op, ops) ==
  FoldLeft(LAMBDA acc, g : acc \o (IF Tag(g) = op THEN Flat(op, Kids(g)) ELSE <<g>>),
           <<>>, ops)

\* Keep the first of the operands that are equal to each other.
Distinct(ops) ==
  LET step(acc, g) == LET c == Canon(g) IN
        IF c \in acc.seen THEN acc
        ELSE [seen |-> acc.seen \cup {c}, out |-> Append(acc.out, g)]
  IN FoldLeft(step, [seen |-> {}, out |-> <<>>], ops).out

HasComplements(ops) ==
  LET cs == {Canon(ops[i]) : i \in 1..Len(ops)}
  IN \E i \in 1..Len(ops) : Tag(ops[i]) \in {"not", "false"} /\ Canon(MkNot(ops[i])) \in cs

MkMonotone(op, ops) ==
  LET flat == SelectSeq(Distinct(Flat(op, ops)), LAMBDA g : g # Identity(op))
  IN IF Len(flat) = 0 THEN Identity(op)
     ELSE IF Absorbing(op) \in {flat[i] : i \in 1..Len(flat)} \/ HasComplements(flat)
          THEN Absorbing(op)
     ELSE IF Len(flat) = 1 THEN flat[1]
     ELSE <<op>> \o flat

(***************************************************************************)
(* Implication and equivalence.                                            *)
(***************************************************************************)
MkImplies(ops) ==
  IF Len(ops) = 1 THEN ops[1]
  ELSE IF FF \in {ops[i] : i \in 1..(Len(ops) - 1)} THEN TT
  ELSE <<"implies">> \o ops

MkEquivalence(ops) ==
  IF Len(ops) = 1 THEN ops[1]
  ELSE LET step(acc, g) ==
             IF \E i \in 1..Len(acc) : SameFormula(acc[i], g)
             THEN SelectSeq(acc, LAMBDA h : ~SameFormula(h, g))
             ELSE Append(acc, g)
           odd == FoldLeft(step, <<>>, ops)
       IN IF Len(odd) = 0 THEN TT
          ELSE IF Len(odd) = 1 THEN odd[1]
          ELSE <<"equivalence">> \o odd

Mk(op, ops) ==
  CASE op = "not"          -> MkNot(ops[1])
    [] op \in {"and","or"} -> MkMonotone(op, ops)
    [] op = "implies"      -> MkImplies(ops)
    [] op = "equivalence"  -> MkEquivalence(ops)
    [] OTHER               -> <<op>> \o ops

(***************************************************************************)
(* Canonical shape: no simplification of negations, conjunctions and       *)
(* disjunctions is left to be done.                                        *)
(***************************************************************************)
NodeCanonical(f) ==
  CASE Tag(f) = "not" -> ~ (Tag(f[2]) \in {"not", "tt", "ff", "true", "false"})
    [] Tag(f) \in {"and", "or"} ->
         LET ops == Kids(f)
         IN /\ Len(ops) >= 2
            /\ \A i \in 1..Len(ops) : ~ (Tag(ops[i]) \in {Tag(f), "tt", "ff"})
            /\ Cardinality({Canon(ops[i]) : i \in 1..Len(ops)}) = Len(ops)
            /\ ~ HasComplements(ops)
    [] OTHER -> TRUE

RECURSIVE Canonical(_)
Canonical(f) ==
  \/ Tag(f) \in Leaves \cup Named
  \/ NodeCanonical(f) /\ \A i \in 2..Len(f) : Canonical(f[i])

(***************************************************************************)
(* Which operators belong to which logic.                                  *)
(***************************************************************************)
BoolBin == {"and", "or", "implies", "equivalence"}
LtlUn   == {"next", "weak_next", "eventually", "always"}
LtlBin  == {"until", "release", "weak_until", "strong_release"}
PltlUn  == {"before", "weakbefore", "once", "historically"}
PltlBin == {"since", "triggers"}
ReUn    == {"star"}
ReBin   == {"seq", "union"}

RECURSIVE WellFormed(_, _)
WellFormed(lg, f) ==
  LET t == Tag(f)
      all(l) == \A i \in 2..Len(f) : WellFormed(l, f[i])
      arity(n) == Len(f) = n + 1
  IN CASE t \in {"tt", "ff"} -> lg \in {"pl", "ltl", "pltl", "ldl"} /\ arity(0)
       [] t \in {"true", "false"} -> lg \in {"ltl", "pltl"} /\ arity(0)
       [] t = "atom" -> lg \in {"pl", "ltl", "pltl"} /\ arity(1)
       [] t = "not" -> lg \in {"pl", "ltl", "pltl", "ldl"} /\ arity(1) /\ all(lg)
       [] t \in BoolBin -> lg \in {"pl", "ltl", "pltl", "ldl"} /\ Len(f) >= 3 /\ all(lg)
       [] t \in LtlUn -> lg = "ltl" /\ arity(1) /\ all(lg)
       [] t \in LtlBin -> lg = "ltl" /\ Len(f) >= 3 /\ all(lg)
       [] t \in PltlUn -> lg = "pltl" /\ arity(1) /\ all(lg)
       [] t \in PltlBin -> lg = "pltl" /\ Len(f) >= 3 /\ all(lg)
       [] t \in {"diamond", "box"} -> lg = "ldl" /\ arity(2) /\ WellFormed("re", f[2])
                                       /\ WellFormed("ldl", f[3])
       [] t = "prop" -> lg = "re" /\ arity(1) /\ WellFormed("pl", f[2])
       [] t = "test" -> lg = "re" /\ arity(1) /\ WellFormed("ldl", f[2])
       [] t = "star" -> lg = "re" /\ arity(1) /\ all("re")
       [] t \in ReBin -> lg = "re" /\ Len(f) >= 3 /\ all("re")
       [] OTHER -> FALSE
=============================================================================
