----------------------------- MODULE ThreadsMC -----------------------------
(***************************************************************************)
(* Several threads build formulae at the same time, and one may forget all *)
(* formulae meanwhile. A construction takes four steps: the formula is     *)
(* made, its hash computed and remembered in it, the table of its logic    *)
(* looked up, and the formula entered there, unless an equal one is. The   *)
(* operands are shared by the threads, and so are their hashes.            *)
(* Whatever the order of the steps, each thread gets what it would get     *)
(* alone, and the tables have the formulae that were built. hist is the    *)
(* schedule, which is exported to be replayed on the library.              *)
(***************************************************************************)
EXTENDS Session, TLC, Json

CONSTANTS Threads, Granularity, MayForget, Export

VARIABLES job,     \* of each thread: [op, ops] or [op |-> "forget"]
          pc,      \* of each thread: how many of its steps it has taken
          made,    \* of each thread: its formula
          table,   \* of each thread: the generation of the table it looked up
          found,   \* of each thread: the formulae that were there
          tables,  \* the generations of the table: the formulae entered, in order
          hashed,  \* the formulae whose hash is known
          hist
vars == <<job, pc, made, table, found, tables, hashed, hist, heap, registry>>

a == Atom(<<97>>)
b == Atom(<<98>>)
Jobs == {[op |-> "and", ops |-> <<a, b>>], [op |-> "and", ops |-> <<b, a>>], [op |-> "or", ops |-> <<a, a>>],
         [op |-> "not", ops |-> <<a>>]} \cup (IF MayForget THEN {[op |-> "forget", ops |-> <<a>>]} ELSE {})

T == 1..Threads
Elements(s) == {s[i] : i \in 1..Len(s)}
Plain == \A t \in T : job[t] = [op |-> "and", ops |-> <<a, b>>]
Parts == Granularity    \* the number of steps of a construction: 3 or 4

Init ==
  /\ SInit
  /\ job \in [T -> Jobs]
  /\ pc = [t \in T |-> 0] /\ made = [t \in T |-> TT] /\ table = [t \in T |-> 0] /\ found = [t \in T |-> {}]
  /\ tables = <<<<>>>> /\ hashed = {} /\ hist = <<>>

Current == Len(tables)
Has(s, f) == \E i \in 1..Len(s) : SameFormula(s[i], f)

\* which part of the construction the next step of t is
Part(t) == IF Parts = 4 THEN <<"make", "hash", "look", "enter">>[pc[t] + 1] ELSE <<"make", "look", "enter">>[pc[t] + 1]

Move(t) == pc' = [pc EXCEPT ![t] = @ + 1] /\ hist' = (IF Plain THEN Append(hist, t) ELSE hist) /\ UNCHANGED <<job, heap, registry>>

Make(t) ==
  /\ Part(t) = "make"
  /\ made' = [made EXCEPT ![t] = Mk(job[t].op, job[t].ops)]
  /\ UNCHANGED <<table, found, tables, hashed>>
Hash(t) ==
  /\ Part(t) = "hash"
  /\ hashed' = hashed \cup {made[t]} \cup Elements(job[t].ops)
  /\ UNCHANGED <<made, table, found, tables>>
LookUp(t) ==
  /\ Part(t) = "look"
  /\ table' = [table EXCEPT ![t] = Current]
  /\ found' = [found EXCEPT ![t] = Elements(tables[Current])]
  /\ hashed' = hashed \cup {made[t]}
  /\ UNCHANGED <<made, tables>>
Enter(t) ==     \* into the table that was looked up, even if it is the current one no more
  /\ Part(t) = "enter"
  /\ tables' = IF Has(tables[table[t]], made[t]) THEN tables
               ELSE [tables EXCEPT ![table[t]] = Append(@, made[t])]
  /\ UNCHANGED <<made, table, found, hashed>>
ForgetAll(t) ==
  /\ tables' = IF pc[t] = 0 THEN Append(tables, <<>>) ELSE tables
  /\ UNCHANGED <<made, table, found, hashed>>

Step(t) ==
  /\ pc[t] < Parts
  /\ IF job[t].op = "forget" THEN ForgetAll(t) ELSE Make(t) \/ Hash(t) \/ LookUp(t) \/ Enter(t)
  /\ Move(t)

Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ invariants ----------------------------- *)
Builds(t) == job[t].op # "forget"
Done(t) == pc[t] = Parts
Finished == \A t \in T : Done(t)

AsAlone == \A t \in T : Builds(t) /\ Done(t) => made[t] = Mk(job[t].op, job[t].ops)
Once == \A g \in 1..Len(tables) : \A i, j \in 1..Len(tables[g]) :
          SameFormula(tables[g][i], tables[g][j]) => i = j
\* what was built is in the table, unless it was forgotten since
Entered == \A t \in T : Builds(t) /\ Done(t) => Has(tables[table[t]], made[t])
Kept == Finished /\ (\A t \in T : Builds(t)) => \A t \in T : Has(tables[Current], made[t])
\* only formulae that were built, and their operands, have a hash
Hashed == \A f \in hashed : \E t \in T : Builds(t) /\ (f \in Elements(job[t].ops) \/ f = Mk(job[t].op, job[t].ops))

Exported == Export /\ Finished /\ Plain => PrintT("CASE " \o ToJson(hist))

\* nobody waits for another one for ever
Ends == <>Finished
=============================================================================
