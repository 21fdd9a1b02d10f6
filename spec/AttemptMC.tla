----------------------------- MODULE AttemptMC -----------------------------
(***************************************************************************)
(* Every request to build something, legal or not: an operator, and        *)
(* operands of every kind, given one by one. The verdict on the request    *)
(* (BuildVerdict, CallVerdict) is held against the grammar of formulae     *)
(* (WellFormed); the requests are exported, to be made to the library.     *)
(*                                                                         *)
(* Operators "call-pred", "call-fun": a predicate or function symbol of    *)
(* some arity is applied.                                                  *)
(***************************************************************************)
EXTENDS Session, TLC, Json

CONSTANTS Ops_, MaxGiven, Export

VARIABLES op, arity, given
vars == <<heap, registry, op, arity, given>>

Calls == {"call-pred", "call-fun"}
Consts == {"const-pl", "const-ltl", "const-pltl", "const-ldl"}
Terms == {"var", "term"}
Kinds(o) == IF o \in Calls THEN Terms \cup {"junk", "fol", "pl"}
            ELSE TraceLogics \cup {"re", "fol", "junk"} \cup Terms \cup Consts

Init == /\ SInit
        /\ op \in Ops_
        /\ arity \in (IF op \in Calls THEN 0..MaxGiven ELSE {0})
        /\ given = <<>>

Next == /\ Len(given) < MaxGiven
        /\ \E k \in Kinds(op) : given' = Append(given, k)
        /\ UNCHANGED <<heap, registry, op, arity>>

Spec == Init /\ [][Next]_vars

Verdict == IF op \in Calls THEN CallVerdict(arity, given) ELSE BuildVerdict(op, given)
n == Len(given)

(* ------------------------------ invariants ----------------------------- *)
\* A formula of every kind, different ones in different places.
Example(k, i) ==
  LET x == Atom(<<96 + i>>)
      c == IF i % 2 = 0 THEN TT ELSE FF
  IN CASE k = "pl" -> <<"implies", x, x>>
       [] k = "ltl" -> <<"next", x>>
       [] k = "pltl" -> <<"before", x>>
       [] k = "re" -> <<"prop", x>>
       [] k = "ldl" -> <<"box", <<"prop", x>>, TT>>
       [] k \in Consts -> c
       [] k = "fol" -> <<"pred", <<80>>>>
       [] k = "var" -> <<"var", <<120>>>>
       [] OTHER -> <<"junk">>
Raw == <<op>> \o [i \in 1..n |-> Example(given[i], i)]
Formulae == TraceLogics \cup {"re"}

\* What may be built is a formula of the logic it should be of: a constructor
\* of many operands returns a single one itself.
Legal ==
  op \notin Calls /\ Verdict = "ok" /\ ResultLogic(op, [i \in 1..n |-> PlainLogic(given[i])]) \in Formulae =>
    WellFormed(ResultLogic(op, [i \in 1..n |-> PlainLogic(given[i])]),
               IF n = 1 /\ op \in BoolBin THEN Raw[2] ELSE Raw)

\* What is a formula, of operands of the right logics, may be built.
Wanted(lg, i) == CASE op = "prop" -> "pl"
                   [] op = "test" -> "ldl"
                   [] op \in {"diamond", "box"} -> IF i = 1 THEN "re" ELSE "ldl"
                   [] OTHER -> lg
Complete ==
  (/\ op \notin Calls
   /\ \E lg \in Formulae : WellFormed(lg, Raw) /\ \A i \in 1..n : PlainLogic(given[i]) = Wanted(lg, i))
    => Verdict = "ok"

\* No formula contains what is none; two logics do not meet in a conjunction.
Illegal ==
  /\ "junk" \in {given[i] : i \in 1..n} => Verdict = "no"
  /\ op \in BoolBin \cup {"not"} /\ "re" \in {given[i] : i \in 1..n} => Verdict = "no"
  /\ op \in {"and", "or"} /\ Cardinality({given[i] : i \in 1..n} \ Consts) > 1 => Verdict = "no"

\* Operands of boolean operators can be exchanged; and an operand too many or
\* of the wrong kind is not made good by more operands.
Exchange ==
  op \in BoolBin => Verdict = BuildVerdict(op, Reverse(given))
NoRepair ==
  op \notin Calls /\ n > 1 /\ BuildVerdict(op, Front(given)) = "no"
    /\ (op \in BoolBin \/ n > 2) => Verdict = "no"
Called ==
  op \in Calls => (Verdict = "ok") = (n = arity /\ \A i \in 1..n : given[i] \in Terms)

Exported == Export /\ Verdict # "un" => PrintT("CASE " \o ToJson([op |-> op, arity |-> arity, given |-> given]))
=============================================================================
