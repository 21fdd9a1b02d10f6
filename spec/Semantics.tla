----------------------------- MODULE Semantics -----------------------------
(***************************************************************************)
(* What formulae mean: propositional valuations, and finite traces for     *)
(* LTL, PLTL and LDL. A valuation is the set of the names that hold.       *)
(***************************************************************************)
EXTENDS Ast

Last1(s) == s[Len(s)]

\* The meaning of the boolean connectives over the truth values bs of the operands.
BoolMeaning(op, bs) ==
  CASE op = "not" -> ~bs[1]
    [] op = "and" -> \A i \in 1..Len(bs) : bs[i]
    [] op = "or"  -> \E i \in 1..Len(bs) : bs[i]
    [] op = "implies" ->       \* a -> b -> c  is  a -> (b -> c)
         (\A i \in 1..(Len(bs) - 1) : bs[i]) => bs[Len(bs)]
    [] op = "equivalence" ->   \* a <-> b <-> c  is  (a <-> b) <-> c
         FoldLeft(LAMBDA acc, b : acc = b, TRUE, bs)

RECURSIVE EvalPL(_, _)
EvalPL(f, v) ==
  CASE Tag(f) = "tt"   -> TRUE
    [] Tag(f) = "ff"   -> FALSE
    [] Tag(f) = "atom" -> f[2] \in v
    [] OTHER -> BoolMeaning(Tag(f), [i \in 1..(Len(f) - 1) |-> EvalPL(f[i + 1], v)])

(***************************************************************************)
(* LTL over non-empty finite traces, at instant i of tr. Chains of a       *)
(* temporal binary operator associate to the right.                        *)
(***************************************************************************)
Chain(f) == IF Len(f) <= 3 THEN f[3] ELSE <<f[1]>> \o SubSeq(f, 3, Len(f))

RECURSIVE EvalLTL(_, _, _)
EvalLTL(f, tr, i) ==
  LET t == Tag(f)
      n == Len(tr)
      at(g, j) == EvalLTL(g, tr, j)
  IN CASE t \in {"tt", "true"}  -> TRUE
       [] t \in {"ff", "false"} -> FALSE
       [] t = "atom"       -> f[2] \in tr[i]
       [] t = "next"       -> i < n /\ at(f[2], i + 1)
       [] t = "weak_next"  -> i < n => at(f[2], i + 1)
       [] t = "eventually" -> \E j \in i..n : at(f[2], j)
       [] t = "always"     -> \A j \in i..n : at(f[2], j)
       [] t = "until"      -> \E j \in i..n : at(Chain(f), j) /\ \A k \in i..(j - 1) : at(f[2], k)
       [] t = "weak_until" -> \/ \A j \in i..n : at(f[2], j)
                              \/ \E j \in i..n : at(Chain(f), j) /\ \A k \in i..(j - 1) : at(f[2], k)
       [] t = "release"    -> \A j \in i..n : at(Chain(f), j) \/ \E k \in i..(j - 1) : at(f[2], k)
       [] t = "strong_release" ->
             \E j \in i..n : at(f[2], j) /\ \A k \in i..j : at(Chain(f), k)
       [] OTHER -> BoolMeaning(t, [k \in 1..(Len(f) - 1) |-> at(f[k + 1], i)])

(***************************************************************************)
(* PLTL over non-empty finite traces, at instant i of tr, looking back.    *)
(***************************************************************************)
RECURSIVE EvalPLTL(_, _, _)
EvalPLTL(f, tr, i) ==
  LET t == Tag(f)
      at(g, j) == EvalPLTL(g, tr, j)
  IN CASE t \in {"tt", "true"}  -> TRUE
       [] t \in {"ff", "false"} -> FALSE
       [] t = "atom"         -> f[2] \in tr[i]
       [] t = "before"       -> i > 1 /\ at(f[2], i - 1)
       [] t = "weakbefore"   -> i > 1 => at(f[2], i - 1)
       [] t = "once"         -> \E j \in 1..i : at(f[2], j)
       [] t = "historically" -> \A j \in 1..i : at(f[2], j)
       [] t = "since"        -> \E j \in 1..i : at(Chain(f), j) /\ \A k \in (j + 1)..i : at(f[2], k)
       [] t = "triggers"     -> \A j \in 1..i : at(Chain(f), j) \/ \E k \in (j + 1)..i : at(f[2], k)
       [] OTHER -> BoolMeaning(t, [k \in 1..(Len(f) - 1) |-> at(f[k + 1], i)])

(***************************************************************************)
(* LDL over finite traces, possibly empty: instants 1..Len(tr)+1, the last *)
(* of which is the end of the trace.                                       *)
(***************************************************************************)
RECURSIVE EvalLDL(_, _, _)
RECURSIVE Reach(_, _, _)
RECURSIVE Closure(_, _, _, _)

EvalLDL(f, tr, i) ==
  LET t == Tag(f)
      at(g, j) == EvalLDL(g, tr, j)
  IN CASE t = "tt" -> TRUE
       [] t = "ff" -> FALSE
       [] t = "diamond" -> \E j \in Reach(f[2], tr, i) : at(f[3], j)
       [] t = "box"     -> \A j \in Reach(f[2], tr, i) : at(f[3], j)
       [] OTHER -> BoolMeaning(t, [k \in 1..(Len(f) - 1) |-> at(f[k + 1], i)])

\* The instants that regular expression r reaches from instant i.
Reach(r, tr, i) ==
  LET t == Tag(r)
  IN CASE t = "prop"  -> IF i <= Len(tr) /\ EvalPL(r[2], tr[i]) THEN {i + 1} ELSE {}
       [] t = "test"  -> IF EvalLDL(r[2], tr, i) THEN {i} ELSE {}
       [] t = "union" -> UNION {Reach(r[k], tr, i) : k \in 2..Len(r)}
       [] t = "seq"   -> FoldLeft(LAMBDA here, g : UNION {Reach(g, tr, j) : j \in here},
                                  {i}, Kids(r))
       [] t = "star"  -> Closure(r[2], tr, {i}, {i})

Closure(r, tr, done, new) ==
  LET next == UNION {Reach(r, tr, j) : j \in new} \ done
  IN IF next = {} THEN done ELSE Closure(r, tr, done \cup next, next)

(***************************************************************************)
(* The traces over a set of names, and whether f holds on one.             *)
(***************************************************************************)
Traces(ns, from, to) == UNION {[1..n -> SUBSET ns] : n \in from..to}

Holds(lg, f, tr) ==
  CASE lg = "pl"   -> EvalPL(f, tr)
    [] lg = "ltl"  -> EvalLTL(f, tr, 1)
    [] lg = "pltl" -> EvalPLTL(f, tr, Len(tr))
    [] lg = "ldl"  -> EvalLDL(f, tr, 1)

Models(lg, ns, k) ==
  CASE lg = "pl" -> SUBSET ns
    [] lg = "ldl" -> Traces(ns, 0, k)
    [] OTHER -> Traces(ns, 1, k)
=============================================================================
