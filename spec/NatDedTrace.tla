---------------------------- MODULE NatDedTrace ----------------------------
(***************************************************************************)
(* Validation of recorded proof checks. A session: proofs are built, and   *)
(* checked, once or more times, in any order; verdicts holds the proofs    *)
(* that were built, and whether they were accepted. An event that is no    *)
(* step of the specification is reported, by the clauses it breaks.        *)
(*                                                                         *)
(* Results: <<"ok", verdict>>; <<"err", class>>: refused by an exception;  *)
(* <<"bad", what>>: no verdict.                                            *)
(***************************************************************************)
EXTENDS Fol, TLC, Json

CONSTANTS TraceFile, Clauses,
  Bits2, Bits3      \* how many structures of two and of three elements to look at

VARIABLES l, verdicts
tvars == <<l, verdicts>>

Trace == ndJsonDeserialize(TraceFile)
Ev == Trace[l]
If(c, fails) == IF c \in Clauses /\ fails THEN {c} ELSE {}

Accepted(r) == r = <<"ok", TRUE>>
Answered(r) == r[1] = "err" \/ r = <<"ok", TRUE>> \/ r = <<"ok", FALSE>>

SoundProof(p) == IF Propositional(p) THEN SoundPL(p) ELSE SoundUpTo(p, Bits2, Bits3)

BadProof(ev) ==
  LET p == ev.items
      why == IF DistinctRows(p) THEN Reasons(p) ELSE {"gray"}
      yes == Accepted(ev.res)
  IN If("answer", ~Answered(ev.res))
     \cup If("refused", why = {} /\ ~yes)
     \cup If("rule", "rule" \in why /\ yes)
     \cup If("scope", "scope" \in why /\ yes)
     \cup If("qform", "qform" \in why /\ yes)
     \cup If("qside", "qside" \in why /\ yes)
     \cup If("sound", yes /\ ~SoundProof(p))

\* The proof again: the same object, one built from fresh formulae, one whose
\* rows are named differently, one checked by an instance in use for long.
BadAgain(ev) ==
  LET was == verdicts[ev.k] IN
  If("stable", \/ Accepted(ev.res) # was
               \/ ~ev.same)

Bad(ev) ==
  CASE ev.e = "proof" -> BadProof(ev)
    [] ev.e = "again" -> BadAgain(ev)
    [] ev.e \in {"new", "trouble"} -> {}

Build(ev) == verdicts' = Append(verdicts, Accepted(ev.res))
Check == UNCHANGED verdicts

Step(ev) ==
  CASE ev.e = "new" -> verdicts' = <<>>
    [] ev.e = "proof" -> Build(ev)
    [] OTHER -> Check

Report(bad, ev) ==
  IF bad = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([line |-> l, id |-> ev.id, clauses |-> bad]))

TInit == l = 1 /\ verdicts = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ Report(Bad(Ev), Ev)
  /\ Step(Ev)
  /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
