------------------------------ MODULE ProofMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the right proofs of at most MaxLines lines    *)
(* over a small set of formulae: a proof is written line by line, opening  *)
(* and closing subproofs. Whatever can be written so is sound.             *)
(*                                                                         *)
(* stack: the proof, and the subproofs that are open, innermost last, each *)
(* a sequence of items.                                                    *)
(***************************************************************************)
EXTENDS Fol, TLC, Json

CONSTANTS Theory, MaxLines, Premises, Nesting, Export,
  Bits3      \* soundness: how many structures of three elements to look at (Fol)

VARIABLES stack, lines
vars == <<stack, lines>>

a == Atom(<<97>>)
b == Atom(<<98>>)
X == <<"var", <<120>>>>
Y == <<"var", <<121>>>>
C == <<"const", <<99>>>>
K == <<"const", <<107>>>>
P(t) == <<"pred", <<80>>, t>>
Q(t) == <<"pred", <<81>>, t>>
R(t, u) == <<"pred", <<82>>, t, u>>
All(x, f) == <<"forall", x, f>>
Some(x, f) == <<"exists", x, f>>

Universe ==
  CASE Theory = "pl" -> {a, b, FF, MkNot(a), MkNot(b), Mk("and", <<a, b>>), Mk("or", <<a, b>>), Arrow(a, b)}
    [] Theory = "pl3" -> {a, b, FF, MkNot(a), Mk("or", <<a, b>>), Mk("or", <<b, a>>), Arrow(a, b), Arrow(MkNot(b), MkNot(a))}
    [] Theory = "pl12" -> {a, b, FF, TT, MkNot(a), MkNot(b), Mk("and", <<a, b>>), Mk("and", <<b, a>>), Mk("or", <<a, b>>),
                           Mk("or", <<b, a>>), Arrow(a, b), Arrow(MkNot(b), MkNot(a)), Mk("and", <<a, MkNot(b)>>)}
    [] Theory = "tiny" -> {a, b, Arrow(a, b)}
    [] Theory = "contra" -> {a, MkNot(a), FF, b}
    [] Theory = "cases" -> {a, b, Mk("or", <<a, b>>), Mk("or", <<b, a>>)}
    [] Theory = "monadic" ->
         {P(C), P(K), All(X, P(X)), Some(X, P(X)), Q(K), All(X, Q(X)), Some(X, Q(X)), Arrow(P(K), Q(K)), All(X, Arrow(P(X), Q(X)))}
    [] Theory = "vars" ->
         {P(X), P(Y), All(X, P(X)), Some(X, P(X)), All(Y, P(Y)), Some(Y, P(Y)), All(X, P(Y)), Some(X, P(Y))}
    [] Theory = "dyadic" ->
         {R(K, K), R(X, Y), All(Y, R(K, Y)), All(X, All(Y, R(X, Y))), Some(X, R(X, X)), All(Y, R(Y, Y)),
          Some(Y, R(K, Y)), All(X, Some(Y, R(X, Y))), Some(Y, R(Y, Y)), Some(Y, All(X, R(X, Y))), All(X, R(X, K))}
Propositions == {"pl", "pl3", "pl12", "tiny", "contra", "cases"}
NewTerms == IF Theory \in Propositions THEN {}
            ELSE IF Theory = "vars" THEN {X, Y, K} ELSE {K, C}

n == Len(stack)
Top == stack[n]
Opening == \A i \in 1..Len(Top) : Top[i][1] = "t"
Next1 == lines + 1

EnvOf(items, env) == FoldLeft(LAMBDA e, it : IF it[1] = "t" THEN e ELSE Put(e, it[2], it), env, items)
Env == FoldLeft(LAMBDA e, items : EnvOf(items, e), NoRows, stack)

Push(it) == stack' = [stack EXCEPT ![n] = Append(@, it)] /\ lines' = Next1

Premise ==
  /\ n = 1 /\ lines < Premises /\ lines = Len(stack[1])
  /\ \A i \in 1..lines : IsLine(Top[i]) /\ Top[i][4] = "premise"
  /\ \E f \in Universe : Push(<<"f", Next1, f, "premise", <<>>>>)

Open ==
  /\ n <= Nesting
  /\ \E f \in Universe : stack' = Append(stack, <<<<"f", Next1, f, "assumption", <<>>>>>>)
  /\ lines' = Next1

\* a term, and the assumption on it, or nothing but the term
OpenTerm ==
  /\ n <= Nesting
  /\ \E t \in NewTerms :
        /\ TermReasons(t, Env) = {}
        /\ \/ /\ \E f \in Universe :
                    stack' = Append(stack, <<<<"t", Next1, t>>, <<"f", Next1, f, "assumption", <<>>>>>>)
           \/ stack' = Append(stack, <<<<"t", Next1, t>>>>)
  /\ lines' = Next1

ItemRow(it) == it[2]
Close ==
  /\ n > 1 /\ Len(Top) > 0 /\ IsLine(Top[Len(Top)])
  /\ stack' = [i \in 1..(n - 1) |->
                 IF i = n - 1 THEN Append(stack[i], <<"b", Top[1][2], Top>>) ELSE stack[i]]
  /\ UNCHANGED lines

Visible == {Env[r][3] : r \in {q \in DOMAIN Env : IsLine(Env[q])}}

Derive ==
  LET env == Env
      fits(rule) == {c \in [1..Len(Takes[rule]) -> DOMAIN env] :
                       \A i \in 1..Len(c) : Kind(env[c[i]]) = Takes[rule][i]}
  IN \E rule \in Rules \ {"premise", "assumption", "copy"} : \E c \in fits(rule) :
       \E f \in Universe \ Visible :
          /\ LineReasons(f, rule, c, env, n > 1, Opening) = {}
          /\ Push(<<"f", Next1, f, rule, c>>)

Init == stack = <<<<>>>> /\ lines = 0
Next == \/ lines < MaxLines /\ (Premise \/ Open \/ OpenTerm \/ Derive)
        \/ Close
Spec == Init /\ [][Next]_vars

(* ------------------------------ invariants ----------------------------- *)
RECURSIVE Closed(_)
Closed(s) == IF Len(s) = 1 THEN s[1]
             ELSE Closed(Append(SubSeq(s, 1, Len(s) - 2),
                                Append(s[Len(s) - 1], <<"b", s[Len(s)][1][2], s[Len(s)]>>)))
Proof == Closed(stack)

\* Built line by line, or looked at as a whole: it is a right proof.
Right == Reasons(Proof) \subseteq {"gray"} /\ (n = 1 => Reasons(Proof) = {})

Sound == IF Theory \in Propositions THEN SoundPL(Proof) ELSE SoundUpTo(Proof, 9, Bits3)

\* What a closed subproof contains cannot be cited.
RECURSIVE Inside(_)
Inside(items) == UNION {IF items[i][1] = "b" THEN {r \in Range(Rows(items[i][3])) : r # items[i][2]} ELSE {} : i \in 1..Len(items)}
Scoped == \A i \in 1..n : Inside(stack[i]) \cap DOMAIN Env = {}

\* Proofs without idle lines: every item but the last one is cited.
RECURSIVE Cited(_)
Cited(items) == UNION {CASE items[i][1] = "f" -> Range(items[i][5])
                         [] items[i][1] = "t" -> {}
                         [] OTHER -> Cited(items[i][3]) : i \in 1..Len(items)}
RECURSIVE NoIdle(_, _)
NoIdle(items, cited) ==
  \A i \in 1..Len(items) :
     CASE items[i][1] = "f" -> i = Len(items) \/ items[i][4] = "assumption" \/ items[i][2] \in cited
       [] items[i][1] = "t" -> TRUE
       [] OTHER -> (i = Len(items) \/ items[i][2] \in cited) /\ NoIdle(items[i][3], cited)

Exported == (Export /\ n = 1 /\ lines >= MaxLines - 1 /\ Len(Top) > 0
             /\ IsLine(Top[Len(Top)]) /\ Top[Len(Top)][4] # "premise"
             /\ NoIdle(Proof, Cited(Proof)))
            => PrintT("CASE " \o ToJson(Proof))
=============================================================================
