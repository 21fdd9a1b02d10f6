------------------------------- MODULE StepMC -------------------------------
(***************************************************************************)
(* Right proofs of at most MaxLines lines (ProofMC), and then one line     *)
(* more, of any rule of LastRules, whatever it concludes and cites: right  *)
(* or wrong. Every reason for which a line can be wrong shows up in the    *)
(* smallest proofs where it can.                                           *)
(*                                                                         *)
(* Strays: the last line may cite rows that it may not; otherwise, it      *)
(* cites visible items of the right kinds, and leaves none unused.         *)
(***************************************************************************)
EXTENDS ProofMC

CONSTANTS LastRules, Strays

VARIABLE last      \* the last line: <<>>, or its formula, rule, citations and reasons
svars == <<stack, lines, last>>

SInit == Init /\ last = <<>>

Fit(rule, env) ==
  IF Strays THEN [1..Len(Takes[rule]) -> 1..(Next1 + 1)]
  ELSE {c \in [1..Len(Takes[rule]) -> DOMAIN env] :
          \A i \in DOMAIN c : Kind(env[c[i]]) = Takes[rule][i] /\ \A j \in DOMAIN c : i # j => c[i] # c[j]}

Idle(env, c) == {r \in DOMAIN env : env[r][1] # "t"} \ (Range(c) \cup Cited(Proof))
NoneIdle(c) == Strays \/ Idle(Env, c) = {}

LastLine ==
  /\ last = <<>> /\ lines > 0
  /\ LET env == Env
     IN \E rule \in LastRules : \E c \in Fit(rule, env) :
          /\ NoneIdle(c)
          /\ \E f \in Universe :
               LET why == LineReasons(f, rule, c, env, n > 1, Opening)
               IN /\ last' = <<f, rule, c, why>>
                  /\ Push(<<"f", Next1, f, rule, c>>)

\* the subproofs of a proof that ends wrongly are closed without more ado
SNext == \/ last = <<>> /\ Next /\ UNCHANGED last
         \/ LastLine
         \/ last # <<>> /\ Close /\ UNCHANGED last
SSpec == SInit /\ [][SNext]_svars

(* ------------------------------ invariants ----------------------------- *)
Done == last # <<>> /\ n = 1

\* The proof is as wrong as its last line.
OnlyTheLast == Done => Reasons(Proof) = last[4]

\* A line for which there is no reason to refuse it follows.
RightIsSound == Done /\ last[4] = {} => Sound

\* And one that does not follow, is refused for a reason.
UnsoundIsWrong == Done /\ ~Sound => last[4] \cap {"rule", "scope", "qform", "qside", "gray"} # {}

\* The reasons have to do with the rule.
Blame == last # <<>> =>
  /\ "qside" \in last[4] => last[2] \in Quantifier \cup {"exists_i"}
  /\ "qform" \in last[4] => last[2] \in Quantifier \cup {"exists_i"}
  /\ "rule" \in last[4] => last[2] \notin Quantifier
  /\ (last[4] = {} => \A i \in 1..Len(last[3]) : last[3][i] < Next1 - 1)

Told == (Export /\ Done /\ ~("gray" \in last[4])) => PrintT("CASE " \o ToJson(Proof))
=============================================================================
