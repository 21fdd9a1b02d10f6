----------------------------- MODULE SessionMC -----------------------------
(***************************************************************************)
(* Exhaustive exploration of short sessions in one logic: from the leaves  *)
(* of the logic, every sequence of at most Steps constructions. raw is the *)
(* formula as it was asked for, before any simplification; hist is the     *)
(* session, which is exported to be replayed on the library.               *)
(***************************************************************************)
EXTENDS Session, TLC, Json

CONSTANTS Logic, Steps, MaxArity, Depthwise, Export

VARIABLES raw, hist
vars == <<heap, registry, raw, hist>>

a == Atom(<<97>>)
b == Atom(<<98>>)

LeavesOf ==
  CASE Logic = "pl" -> <<a, b, TT, FF>>
    [] Logic \in {"ltl", "pltl"} -> <<a, b, TT, FF, <<"true">>, <<"false">>>>
    [] Logic = "ldl" -> <<TT, FF>>
Props == <<a, b>>      \* for the regular expressions of LDL

Binary == CASE Logic = "pl" -> BoolBin
            [] Logic = "ltl" -> BoolBin \cup LtlBin
            [] Logic = "pltl" -> BoolBin \cup PltlBin
            [] Logic = "ldl" -> BoolBin \cup ReBin
Unary == CASE Logic = "pl" -> {"not"}
           [] Logic = "ltl" -> {"not"} \cup LtlUn
           [] Logic = "pltl" -> {"not"} \cup PltlUn
           [] Logic = "ldl" -> {"not", "star", "test", "prop"}

Start == [i \in 1..Len(LeavesOf) |-> Entry(Logic, LeavesOf[i])]
         \o (IF Logic = "ldl" THEN <<Entry("pl", a), Entry("re", <<"prop", a>>), Entry("re", <<"prop", b>>)>> ELSE <<>>)

Init ==
  /\ heap = Start
  /\ raw = [i \in 1..Len(Start) |-> Start[i].f]
  /\ registry = {<<Start[i].lg, Canon(Start[i].f)>> : i \in 1..Len(Start)}
  /\ hist = <<>>

n == Len(heap)
N0 == Len(Start)

Do(op, args) ==
  /\ Build(op, args, Mk(op, Ops(args)))
  /\ raw' = Append(raw, <<op>> \o [i \in 1..Len(args) |-> raw[args[i]]])
  /\ hist' = Append(hist, [op |-> op, args |-> args])

\* with Depthwise, every construction after the first one uses the latest formula
Uses(args) == Depthwise /\ n > N0 => \E i \in 1..Len(args) : args[i] = n

Tuples == UNION {[1..k -> 1..n] : k \in 2..MaxArity}

DoUnary  == \E op \in Unary : \E i \in 1..n : Uses(<<i>>) /\ Do(op, <<i>>)
DoBinary == \E op \in Binary : \E args \in Tuples : Uses(args) /\ Do(op, args)
DoModal  == Logic = "ldl" /\ \E op \in {"diamond", "box"} : \E i, j \in 1..n :
               Uses(<<i, j>>) /\ Do(op, <<i, j>>)

Next == Len(hist) < Steps /\ (DoUnary \/ DoBinary \/ DoModal)

Spec == Init /\ [][Next]_vars

(* ------------------------------ invariants ----------------------------- *)
New == heap[n]
CheckNew == Len(hist) > 0

NewIsCanonical == CheckNew => WellFormed(New.lg, New.f) /\ Canonical(New.f)

K == IF Logic = "pl" THEN 0 ELSE 3
MeaningPreserved ==
  CheckNew /\ New.lg # "re" =>
    \A m \in Models(New.lg, {<<97>>, <<98>>}, K) :
       Holds(New.lg, New.f, m) = Holds(New.lg, raw[n], m)
ReMeaningPreserved ==
  CheckNew /\ New.lg = "re" =>
    \A tr \in Traces({<<97>>, <<98>>}, 0, 2) : Reach(New.f, tr, 1) = Reach(raw[n], tr, 1)

RoundTrip == CheckNew => RoundTripOf(New)

EqualityIsSound ==
  CheckNew => \A i \in 1..(n - 1) : EqualMeansEquivalent(heap[i], New, {<<97>>, <<98>>}, 2)

\* reasonable equality: the negation of a formula differs from it
NegationDiffers == CheckNew /\ New.lg \in TraceLogics => ~ SameFormula(MkNot(New.f), New.f)

\* A negation holds where the formula does not, and is undone by another.
NegationComplements ==
  CheckNew /\ New.lg \in TraceLogics =>
    LET g == MkNot(New.f)
    IN /\ MkNot(g) = New.f
       /\ WellFormed(New.lg, g) /\ Canonical(g)
       /\ \A m \in Models(New.lg, {<<97>>, <<98>>}, K) : Holds(New.lg, g, m) = ~Holds(New.lg, New.f, m)

Registered ==
  CheckNew => \/ <<New.lg, Canon(New.f)>> \in registry
              \/ \E s \in Subs(raw[n]) : Tag(s) \in BoolBin \cup {"not"}

Exported == Export /\ Len(hist) = Steps => PrintT("CASE " \o ToJson(hist))

\* Forever the same: what is on the heap stays there, unchanged.
HeapImmutable == [][IsPrefix(heap, heap')]_vars
=============================================================================
