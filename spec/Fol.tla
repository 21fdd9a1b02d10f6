-------------------------------- MODULE Fol --------------------------------
(***************************************************************************)
(* First-order formulae in finite structures. A structure:                 *)
(*   n      its elements are 1..n                                          *)
(*   holds  the set of the <<predicate, e1, ..., ek>> that hold            *)
(*   val    the elements that the constants and the free variables denote  *)
(*   fun    the elements that <<function, e1, ..., ek>> denote             *)
(* Propositional atoms count as predicates without arguments.              *)
(***************************************************************************)
EXTENDS NatDed

RECURSIVE Denote(_, _, _)
Denote(t, st, env) ==
  CASE Tag(t) = "fun" -> st.fun[<<t[2]>> \o [i \in 1..(Len(t) - 2) |-> Denote(t[i + 2], st, env)]]
    [] t \in DOMAIN env -> env[t]
    [] OTHER -> st.val[t]

Bind(env, x, e) == [y \in DOMAIN env \cup {x} |-> IF y = x THEN e ELSE env[y]]

RECURSIVE EvalFol(_, _, _)
EvalFol(f, st, env) ==
  CASE Tag(f) = "tt" -> TRUE
    [] Tag(f) = "ff" -> FALSE
    [] Tag(f) = "atom" -> f \in st.holds
    [] Tag(f) = "pred" -> <<f[2]>> \o [i \in 1..(Len(f) - 2) |-> Denote(f[i + 2], st, env)] \in st.holds
    [] Tag(f) = "forall" -> \A e \in 1..st.n : EvalFol(f[3], st, Bind(env, f[2], e))
    [] Tag(f) = "exists" -> \E e \in 1..st.n : EvalFol(f[3], st, Bind(env, f[2], e))
    [] Tag(f) = "not" -> ~EvalFol(f[2], st, env)
    [] Tag(f) = "and" -> \A i \in 2..Len(f) : EvalFol(f[i], st, env)
    [] Tag(f) = "or"  -> \E i \in 2..Len(f) : EvalFol(f[i], st, env)
    [] Tag(f) = "implies" ->
         (\A i \in 2..(Len(f) - 1) : EvalFol(f[i], st, env)) => EvalFol(f[Len(f)], st, env)
    [] Tag(f) = "equivalence" ->
         FoldLeft(LAMBDA acc, g : acc = EvalFol(g, st, env), TRUE, Kids(f))

(* --------------------------- the structures ---------------------------- *)
RECURSIVE Preds(_)     \* <<name, arity>>
Preds(f) ==
  CASE Tag(f) = "pred" -> {<<f[2], Len(f) - 2>>}
    [] Tag(f) \in {"tt", "ff", "true", "false", "atom"} -> {}
    [] Tag(f) \in {"forall", "exists"} -> Preds(f[3])
    [] OTHER -> UNION {Preds(f[i]) : i \in 2..Len(f)}

RECURSIVE PropNames(_)
PropNames(f) ==
  CASE Tag(f) = "atom" -> {f[2]}
    [] Tag(f) \in {"tt", "ff", "true", "false", "pred"} -> {}
    [] Tag(f) \in {"forall", "exists"} -> PropNames(f[3])
    [] OTHER -> UNION {PropNames(f[i]) : i \in 2..Len(f)}

Tuples(k, n) == [1..k -> 1..n]
Ground(sig, n) == UNION {{<<p[1]>> \o s : s \in Tuples(p[2], n)} : p \in sig}

\* n: the number of elements; gs: the formulae to give a meaning to
GroundAtoms(gs, n) ==
  Ground(UNION {Preds(g) : g \in gs}, n) \cup {Atom(m) : m \in UNION {PropNames(g) : g \in gs}}

Symbols(gs) == {t \in UNION {TermsOf(g) : g \in gs} : Simple(t)}
Funs(gs) == {<<t[2], Len(t) - 2>> : t \in {u \in UNION {TermsOf(g) : g \in gs} : Tag(u) = "fun"}}

Structures(gs, n) ==
  {[n |-> n, holds |-> h, val |-> v, fun |-> w] :
      h \in SUBSET GroundAtoms(gs, n),
      v \in [Symbols(gs) -> 1..n],
      w \in [Ground(Funs(gs), n) -> 1..n]}

\* how many structures there are, as a power of n (n = 2)
Bits(gs) == Cardinality(GroundAtoms(gs, 2)) + Cardinality(Symbols(gs)) + Cardinality(Ground(Funs(gs), 2))

NoEnv == [x \in {} |-> 0]

Follows(hyps, f, n) ==
  LET gs == hyps \cup {f}
  IN \A st \in Structures(gs, n) :
        (\A h \in hyps : EvalFol(h, st, NoEnv)) => EvalFol(f, st, NoEnv)

\* how many structures there are of three elements: not more than two to the tenth of this
TenBits(gs) == 10 * Cardinality(GroundAtoms(gs, 3)) + 16 * (Cardinality(Symbols(gs)) + Cardinality(Ground(Funs(gs), 3)))

\* Every line of the proof follows, in the structures with at most three elements
\* (those that are not too many to look at: at most 2^bits of two, 2^bits3 of three).
SoundUpTo(proof, bits, bits3) ==
  \A o \in Obligations(proof, {}) :
     LET gs == o[1] \cup {o[2]} IN
     \/ o[2] \in o[1]
     \/ /\ Bits(gs) <= bits => Follows(o[1], o[2], 1) /\ Follows(o[1], o[2], 2)
        /\ TenBits(gs) <= 10 * bits3 => Follows(o[1], o[2], 3)

\* Propositional proofs: only what holds matters.
Propositional(proof) ==
  \A o \in Obligations(proof, {}) : \A g \in o[1] \cup {o[2]} : Preds(g) = {}

FollowsPL(hyps, f) ==
  LET ns == UNION {PropNames(g) : g \in hyps \cup {f}}
  IN \A v \in SUBSET {Atom(m) : m \in ns} :
        LET st == [n |-> 1, holds |-> v, val |-> NoEnv, fun |-> NoEnv]
        IN (\A h \in hyps : EvalFol(h, st, NoEnv)) => EvalFol(f, st, NoEnv)

SoundPL(proof) == \A o \in Obligations(proof, {}) : o[2] \in o[1] \/ FollowsPL(o[1], o[2])
=============================================================================
