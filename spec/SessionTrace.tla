---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validation of sessions recorded from the library. Each line of the      *)
(* trace is an event: what was called, with which arguments, and what came *)
(* back. An event that agrees with the specification is a step of Session; *)
(* otherwise the clauses that fail are reported, what was observed is      *)
(* taken, and the validation goes on with the next event.                  *)
(*                                                                         *)
(* Results: <<"ok", x>>, <<"err", class>>; for anything else (an object    *)
(* that is no formula, a crash, no answer in time) <<"bad", what>>.        *)
(***************************************************************************)
EXTENDS Session, TLC, Json

CONSTANTS TraceFile, Clauses

Proofs == INSTANCE NatDed

VARIABLES l, hashes
tvars == <<heap, registry, l, hashes>>

Trace == ndJsonDeserialize(TraceFile)

Elems(s) == {s[i] : i \in 1..Len(s)}
On(c) == c \in Clauses
If(c, fails) == IF c \in Clauses /\ fails THEN {c} ELSE {}

IsOk(r)  == r[1] = "ok"
IsErr(r) == r[1] = "err"

\* The result is a well formed formula of logic lg.
Formula(lg, r) == IsOk(r) /\ (lg \in TraceLogics \cup {"re"} => WellFormed(lg, r[2]))

(* --------------------------- meaning, in models ------------------------ *)
\* the models of the event, in the form of Semantics
Given(lg, ms) ==
  IF lg = "pl" THEN {Elems(ms[i]) : i \in 1..Len(ms)}
  ELSE {[k \in 1..Len(ms[i]) |-> Elems(ms[i][k])] : i \in 1..Len(ms)}

Few(lg, ns) ==
  LET n == Cardinality(ns)
  IN CASE lg = "pl" /\ n <= 5 -> SUBSET ns
       [] lg # "pl" /\ n <= 1 -> Models(lg, ns, 3)
       [] lg # "pl" /\ n = 2 -> Models(lg, ns, 2)
       [] OTHER -> {}

Relevant(lg, ns, ms) == Few(lg, ns) \cup Given(lg, ms)

\* f is what op makes of the formulae ops
Means(lg, f, op, ops, ms) ==
  \/ f = <<op>> \o ops
  \/ LET ns == UNION {Names(ops[i]) : i \in 1..Len(ops)} \cup Names(f)
     IN IF lg = "re"
        THEN \A tr \in Relevant("ldl", ns, ms) : \A i \in 1..(Len(tr) + 1) :
                Reach(f, tr, i) = Reach(<<op>> \o ops, tr, i)
        ELSE lg \in TraceLogics /\
             \A m \in Relevant(lg, ns, ms) : Holds(lg, f, m) = Holds(lg, <<op>> \o ops, m)

(* -------------------------------- events ------------------------------- *)
Ev == Trace[l]

BadBuild(ev) ==
  LET ops == Ops(ev.args)
      lg == ResultLogic(ev.op, Lgs(ev.args))
  IN IF ~Formula(lg, ev.res) THEN If("meaning", TRUE) \cup If("shape", ev.op \in {"and", "or", "not"})
     ELSE LET f == ev.res[2]
          IN If("meaning", lg # "fol" /\ ~Means(lg, f, ev.op, ops, ev.ms))
             \cup If("shape", ev.op \in {"and", "or", "not"} /\
                       ~(f = Mk(ev.op, ops) /\ NodeCanonical(f)))
             \cup If("literal", ~BuildResult(ev.op, ops, f))

BadParse(ev) ==
  LET r == ParseText(ev.lg, ev.text)
  IN CASE r.v = "ok" -> If("tree", ~(Formula(ev.lg, ev.res) /\ SameFormula(ev.res[2], r.f)))
       [] r.v = "no" -> If("refuse", ~IsErr(ev.res))
       [] OTHER -> If("answer", ~(Formula(ev.lg, ev.res) \/ IsErr(ev.res)))

BadShow(ev) ==      \* back: what the library parses from the text it printed
  LET e == heap[ev.i]
      r == IF IsOk(ev.res) THEN ParseText(e.lg, ev.res[2]) ELSE [v |-> "no", f |-> TT]
  IN If("roundtrip",
        r.v # "un" /\ ~ (/\ IsOk(ev.res)
                         /\ r.v = "ok" /\ SameFormula(r.f, e.f)
                         /\ Formula(e.lg, ev.back) /\ SameFormula(ev.back[2], e.f)
                         /\ ev.eq))

BadEval(ev) ==
  LET v == {ev.items[k][1] : k \in {j \in 1..Len(ev.items) : ev.items[j][2]}}
  IN If("eval", ~(IsOk(ev.res) /\ ev.res[2] = EvalPL(heap[ev.i].f, v)))
     \cup If("pure", ~ev.same)

BadCmp(ev) ==
  LET x == heap[ev.i]
      y == heap[ev.j]
      same == x.lg = y.lg /\ SameFormula(x.f, y.f)
  IN If("equal", ~(ev.eq = same /\ ev.qe = same /\ ev.ne = ~same /\ ev.member = same
                   /\ (same => ev.heq)))

BadClone(ev) ==
  LET e == heap[ev.i]
  IN If("clone", ~(/\ Formula(e.lg, ev.res) /\ ev.res[2] = e.f
                   /\ ev.eq /\ ev.heq /\ ev.member /\ ev.orig = <<"ok", e.f>>))

BadObs(ev) ==
  If("stable", ~(/\ ev.res = <<"ok", heap[ev.i].f>>
                 /\ ev.lg = heap[ev.i].lg
                 /\ ev.i \in DOMAIN hashes => hashes[ev.i] = ev.hash))

BadRegistry(ev) ==   \* ev.has: sequence of [lg, f]
  LET seen == {<<ev.has[k].lg, Canon(ev.has[k].f)>> : k \in 1..Len(ev.has)}
  IN If("registry", ~ (registry \subseteq seen /\ Cardinality(seen) = Len(ev.has)))

BadForget(ev) == If("registry", ev.left # 0)

BadAttempt(ev) ==    \* a construction, legal or not; lgs: what the operands are
  LET v == BuildVerdict(ev.op, ev.lgs)
  IN If("attempt", \/ v = "no" /\ ~IsErr(ev.res)
                   \/ v = "ok" /\ ~IsOk(ev.res))

BadName(ev) ==       \* an atom built from a name
  If("name", IF IsName(ev.name) THEN ev.res # <<"ok", Atom(ev.name)>> ELSE ~IsErr(ev.res))

\* The same call in this session and in one that nothing happened in before:
\* the same text, an equal formula, or refused in both.
BadTwin(ev) ==
  If("history", CASE IsErr(ev.there) -> ~IsErr(ev.here)
                  [] IsOk(ev.there) /\ ev.what \in {"text", "eval", "eq"} -> ev.here # ev.there
                  [] IsOk(ev.there) -> ~(IsOk(ev.here) /\ SameFormula(ev.here[2], ev.there[2]))
                  [] OTHER -> FALSE)

BadMust(ev) ==       \* calls that must fail, or must not, whatever the state
  If("must", IF ev.ok THEN ~IsOk(ev.res) ELSE ~IsErr(ev.res))

BadCall(ev) ==       \* a function or predicate symbol of some arity, applied
  If("must", IF CallVerdict(ev.arity, ev.lgs) = "ok" THEN ev.res # <<"ok", ev.want>> ELSE ~IsErr(ev.res))

\* The abbreviations, by what they mean on every trace.
AbbrMeaning(lg, which, tr) ==
  CASE which = "last"  /\ lg = "ltl" -> Len(tr) = 1   \* no next instant
    [] which = "last"  /\ lg = "ldl" -> Len(tr) = 1   \* one more instant, then the end
    [] which = "end"   -> Len(tr) = 0
    [] which = "start" -> Len(tr) = 1                 \* no previous instant
    [] which \in {"tt", "true"} -> TRUE
    [] which \in {"ff", "false"} -> FALSE

BadAbbr(ev) ==       \* tail: the trace after which the formula is evaluated
  If("abbr", ~(/\ Formula(ev.lg, ev.res)
               /\ \A tr \in Models(ev.lg, {<<97>>}, 4) :
                     Holds(ev.lg, ev.res[2], tr) = AbbrMeaning(ev.lg, ev.which, tr)))

\* A constant: its value, and its logic; the two of a logic differ.
BadConstant(ev) ==
  If("abbr", ev.res # <<"ok", <<IF ev.v THEN TT ELSE FF, ev.lg, TRUE>>>>)

\* The operators ~ & | and >>, the last of which is the disjunction of the
\* right operand with the negation of the left one.
BadInfix(ev) ==
  LET ops == Ops(ev.args)
      want == IF ev.op = "rshift" THEN Mk("or", <<MkNot(ops[1]), ops[2]>>) ELSE Mk(ev.op, ops)
  IN If("infix", ~(Formula(Lgs(ev.args)[1], ev.res) /\ ev.res[2] = want))

\* A call made while others are: what comes back is what would without them.
BadMeanwhile(ev) ==
  If("meanwhile",
     CASE ev.do = "build" ->
            LET f == IF ev.op = "" THEN ev.ops[1] ELSE Mk(ev.op, ev.ops)
            IN ~(Formula(ResultLogic(ev.op, ev.lgs), ev.res) /\ SameFormula(ev.res[2], f))
       [] ev.do = "parse" ->
            LET r == ParseText(ev.lg, ev.text)
            IN IF r.v = "ok" THEN ~(Formula(ev.lg, ev.res) /\ SameFormula(ev.res[2], r.f))
               ELSE ~(IsErr(ev.res) \/ (r.v = "un" /\ Formula(ev.lg, ev.res)))
       [] ev.do = "text" ->
            LET r == IF IsOk(ev.res) THEN ParseText(ev.lg, ev.res[2]) ELSE [v |-> "no", f |-> TT]
            IN ~(r.v = "un" \/ (r.v = "ok" /\ SameFormula(r.f, ev.f)))
       [] ev.do = "eval" -> ev.res # <<"ok", EvalPL(ev.f, Elems(ev.true))>>
       [] ev.do = "eq"   -> ev.res # <<"ok", SameFormula(ev.f, ev.g)>>
       [] ev.do = "hash" -> ev.res # <<"ok", <<TRUE>>>>
       [] ev.do = "copy" -> ev.res # <<"ok", ev.f>>
       [] ev.do = "proof" ->
            LET why == IF Proofs!DistinctRows(ev.items) THEN Proofs!Reasons(ev.items) ELSE {"gray"}
            IN \/ ~(IsErr(ev.res) \/ ev.res = <<"ok", TRUE>> \/ ev.res = <<"ok", FALSE>>)
               \/ ~("gray" \in why) /\ (ev.res = <<"ok", TRUE>>) # (why = {})
       [] OTHER -> ~IsOk(ev.res))

\* The negation of a formula is its complement on every trace, and negating
\* twice gives back the formula.
BadDual(ev) ==
  LET e == heap[ev.i]
  IN If("dual", ~(/\ Formula(e.lg, ev.neg) /\ ev.negneg = <<"ok", e.f>>
                  /\ \A m \in Relevant(e.lg, Names(e.f), ev.ms) :
                        Holds(e.lg, ev.neg[2], m) = ~Holds(e.lg, e.f, m)))

Bad(ev) ==
  CASE ev.e = "build"    -> BadBuild(ev)
    [] ev.e = "parse"    -> BadParse(ev)
    [] ev.e = "show"     -> BadShow(ev)
    [] ev.e = "eval"     -> BadEval(ev)
    [] ev.e = "cmp"      -> BadCmp(ev)
    [] ev.e = "clone"    -> BadClone(ev)
    [] ev.e = "obs"      -> BadObs(ev)
    [] ev.e = "registry" -> BadRegistry(ev)
    [] ev.e = "forget"   -> BadForget(ev)
    [] ev.e = "attempt"  -> BadAttempt(ev)
    [] ev.e = "name"     -> BadName(ev)
    [] ev.e = "must"     -> BadMust(ev)
    [] ev.e = "twin"     -> BadTwin(ev)
    [] ev.e = "call"     -> BadCall(ev)
    [] ev.e = "abbr"     -> BadAbbr(ev)
    [] ev.e = "constant" -> BadConstant(ev)
    [] ev.e = "infix"    -> BadInfix(ev)
    [] ev.e = "meanwhile" -> BadMeanwhile(ev)
    [] ev.e = "dual"     -> BadDual(ev)
    [] ev.e = "leaf"     -> If("literal", ev.res # <<"ok", ev.f>>)
    [] ev.e \in {"new", "trouble"} -> {}

(* The step of Session that the event is, or else (Observed) what came back. *)
Observed(lg, r, want) == heap' = Append(heap, Entry(lg, IF Formula(lg, r) THEN r[2] ELSE want))
                         /\ UNCHANGED registry

Step(ev) ==
  CASE ev.e = "new" -> heap' = <<>> /\ registry' = {}
    [] ev.e = "leaf" -> IF ev.res = <<"ok", ev.f>> THEN Leaf(ev.lg, ev.f)
                        ELSE Observed(ev.lg, ev.res, ev.f)
    [] ev.e = "build" ->
         LET lg == ResultLogic(ev.op, Lgs(ev.args))
         IN IF Formula(lg, ev.res) /\ CanBuild(ev.op, ev.args, ev.res[2])
            THEN Build(ev.op, ev.args, ev.res[2])
            ELSE Observed(lg, ev.res, Mk(ev.op, Ops(ev.args)))
    [] ev.e = "parse" ->
         IF ~Formula(ev.lg, ev.res) THEN UNCHANGED svars
         ELSE LET r == ParseText(ev.lg, ev.text)
              IN IF r.v = "ok" /\ SameFormula(r.f, ev.res[2]) THEN
                    heap' = Append(heap, Entry(ev.lg, ev.res[2])) /\ Remember(ev.lg, ev.res[2])
                 ELSE Observed(ev.lg, ev.res, TT)
    [] ev.e = "clone" -> Clone(ev.i)
    [] ev.e = "meanwhile" ->    \* another session's step; the registry is everybody's
         /\ UNCHANGED heap
         /\ IF ev.do = "build" /\ IsOk(ev.res) /\ (ev.op = "" \/ (/\ Tag(ev.res[2]) = ev.op
                                                                 /\ \A i \in 1..Len(ev.ops) : ~SameFormula(ev.res[2], ev.ops[i])))
            THEN Remember(ResultLogic(ev.op, ev.lgs), ev.res[2]) ELSE UNCHANGED registry
    [] ev.e = "forget" -> Forget
    [] OTHER -> Look

Hashes(ev) ==
  CASE ev.e = "new" -> [x \in {} |-> ""]
    [] ev.e = "obs" -> [x \in DOMAIN hashes \cup {ev.i} |->
                          IF x \in DOMAIN hashes THEN hashes[x] ELSE ev.hash]
    [] OTHER -> hashes

Report(bad, ev) ==
  IF bad = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([line |-> l, id |-> ev.id, clauses |-> bad]))

TInit == SInit /\ l = 1 /\ hashes = [x \in {} |-> ""]

TNext ==
  /\ l <= Len(Trace)
  /\ Report(Bad(Ev), Ev)
  /\ Step(Ev)
  /\ hashes' = Hashes(Ev)
  /\ l' = l + 1

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
