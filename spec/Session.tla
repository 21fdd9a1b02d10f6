------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session of a user with the library, as a state machine.               *)
(*                                                                         *)
(*   heap      the formulae obtained so far, in order: [lg, f]             *)
(*   registry  what the library must remember since the last reset: the    *)
(*             canonical forms of the formulae built, with their logic     *)
(*                                                                         *)
(* Formulae never change: every action leaves the heap as it was, but for  *)
(* what it appends. Only Build, Leaf and ParseIt touch the registry, and   *)
(* what they return depends on their arguments alone.                      *)
(***************************************************************************)
EXTENDS Semantics, Grammar

VARIABLES heap, registry
svars == <<heap, registry>>

Entry(lg, f) == [lg |-> lg, f |-> f]
Remember(lg, f) == registry' = registry \cup {<<lg, Canon(f)>>}

(* ------------------------- what can be built --------------------------- *)
\* The logic of what operator op makes out of operands of logics lgs.
ResultLogic(op, lgs) ==
  CASE op \in {"prop", "test", "star", "seq", "union"} -> "re"
    [] op \in {"diamond", "box"} -> "ldl"
    [] op \in {"forall", "exists", "pred"} -> "fol"
    [] OTHER -> lgs[1]

TraceLogics == {"pl", "ltl", "pltl", "ldl"}

\* "ok": the construction is legal; "no": it must be refused; "un": the
\* library says nothing of it. Operands that are not formulae have logic
\* "junk"; constants have logic "const-" plus their own.
ConstOf == [x \in {"const-pl", "const-ltl", "const-pltl", "const-ldl", "const-fol"} |->
              CASE x = "const-pl" -> "pl" [] x = "const-ltl" -> "ltl"
                [] x = "const-pltl" -> "pltl" [] x = "const-ldl" -> "ldl" [] OTHER -> "fol"]
PlainLogic(l) == IF l \in DOMAIN ConstOf THEN ConstOf[l] ELSE l

BuildVerdict(op, lgs) ==
  LET n == Len(lgs)
      plain == {PlainLogic(lgs[i]) : i \in 1..n}
      proper == {lgs[i] : i \in {j \in 1..n : ~ (lgs[j] \in DOMAIN ConstOf)}}
      all(l) == plain = {l}
      oneOr(ls) == \E l \in ls : all(l)
  IN CASE n = 0 -> "no"
       [] "junk" \in plain -> "no"
       [] op \in {"not"} \cup BoolBin /\ plain \cap {"var", "term"} # {} -> "no"
       [] op \in {"not"} \cup BoolBin /\ "re" \in plain -> "no"
       [] op = "not" ->
            IF n # 1 THEN "no" ELSE IF oneOr(TraceLogics \cup {"fol"}) THEN "ok" ELSE "un"
       [] op \in BoolBin ->
            IF op \in {"and", "or"} /\ Cardinality(proper) > 1 THEN "no"
            ELSE IF Cardinality(plain) > 1 THEN "un"
            ELSE "ok"
       [] op \in LtlUn   -> IF n # 1 THEN "no" ELSE IF all("ltl") THEN "ok" ELSE "un"
       [] op \in PltlUn  -> IF n # 1 THEN "no" ELSE IF all("pltl") THEN "ok" ELSE "un"
       [] op \in LtlBin  -> IF n < 2 THEN "no" ELSE IF all("ltl") THEN "ok" ELSE "un"
       [] op \in PltlBin -> IF n < 2 THEN "no" ELSE IF all("pltl") THEN "ok" ELSE "un"
       [] op = "prop" -> IF n # 1 THEN "no" ELSE IF all("pl") THEN "ok" ELSE "un"
       [] op = "test" -> IF n # 1 THEN "no" ELSE IF all("ldl") THEN "ok" ELSE "un"
       [] op = "star" -> IF n # 1 THEN "no" ELSE IF all("re") THEN "ok" ELSE "un"
       [] op \in ReBin -> IF n < 2 THEN "no" ELSE IF all("re") THEN "ok" ELSE "un"
       [] op \in {"diamond", "box"} ->
            IF n # 2 THEN "no"
            ELSE IF PlainLogic(lgs[1]) = "re" /\ PlainLogic(lgs[2]) = "ldl" THEN "ok" ELSE "no"
       [] op \in {"forall", "exists"} ->     \* a variable has logic "var", the other terms "term"
            IF n # 2 THEN "no"
            ELSE IF lgs[1] = "var" /\ PlainLogic(lgs[2]) = "fol" THEN "ok"
            ELSE "no"
       [] OTHER -> "un"

\* A predicate or function symbol of some arity, applied to operands.
CallVerdict(arity, lgs) ==
  IF Len(lgs) = arity /\ \A i \in 1..arity : lgs[i] \in {"var", "term"} THEN "ok" ELSE "no"

Lgs(args) == [i \in 1..Len(args) |-> heap[args[i]].lg]
Ops(args) == [i \in 1..Len(args) |-> heap[args[i]].f]

(* ------------------------------- actions ------------------------------- *)
Leaf(lg, f) ==
  /\ heap' = Append(heap, Entry(lg, f))
  /\ IF lg \in {"var", "term"} THEN UNCHANGED registry ELSE Remember(lg, f)

\* What constructor op may return for operands ops: formula Mk(op, ops); only
\* the order of the operands of an equivalence is left open.
BuildResult(op, ops, f) ==
  IF op \in {"equivalence", "implies"} THEN SameFormula(f, Mk(op, ops)) ELSE f = Mk(op, ops)

CanBuild(op, args, f) ==
  /\ BuildVerdict(op, Lgs(args)) = "ok"
  /\ BuildResult(op, Ops(args), f)

Build(op, args, f) ==
  /\ CanBuild(op, args, f)
  /\ LET lg == ResultLogic(op, Lgs(args))
     IN /\ heap' = Append(heap, Entry(lg, f))
        /\ IF Tag(f) = op /\ \A i \in 1..Len(args) : ~SameFormula(f, heap[args[i]].f)
           THEN Remember(lg, f) ELSE UNCHANGED registry

ParseIt(lg, s, f) ==
  LET r == ParseText(lg, s)
  IN /\ r.v = "ok"
     /\ SameFormula(f, r.f)
     /\ heap' = Append(heap, Entry(lg, f))
     /\ Remember(lg, f)

Clone(i) ==      \* copy, deep copy, pickling: an equal formula
  /\ heap' = Append(heap, heap[i])
  /\ UNCHANGED registry

Forget == registry' = {} /\ UNCHANGED heap

Look == UNCHANGED svars     \* evaluate, compare, hash, print, inspect

SInit == heap = <<>> /\ registry = {}

(* ----------------------------- properties ------------------------------ *)
Immutable == [][IsPrefix(heap, heap')]_svars
ShapeOk == \A i \in 1..Len(heap) : WellFormed(heap[i].lg, heap[i].f) /\ Canonical(heap[i].f)
RoundTripOf(e) ==
  e.lg \in TraceLogics =>
    LET r == ParseText(e.lg, Show(e.lg, e.f)) IN r.v = "ok" /\ SameFormula(r.f, e.f)
EqualMeansEquivalent(e1, e2, ns, k) ==
  (e1.lg = e2.lg /\ e1.lg \in TraceLogics /\ SameFormula(e1.f, e2.f)) =>
    \A m \in Models(e1.lg, ns, k) : Holds(e1.lg, e1.f, m) = Holds(e2.lg, e2.f, m)
=============================================================================
