----------------------------- MODULE GrammarMC -----------------------------
(***************************************************************************)
(* Exhaustive exploration of short texts. A text is typed token by token;  *)
(* a pushdown automaton says what may come next. It is another definition  *)
(* of the languages than the parser of Grammar, and both must agree: a     *)
(* text is a formula iff the automaton ends in its accepting state, and    *)
(* what a chain of operators denotes is what splitting it at its loosest   *)
(* operator says.                                                          *)
(*                                                                         *)
(*   toks   the tokens typed so far                                        *)
(*   mode   "operand": an operand is due; "after": one was typed           *)
(*   stack  the brackets that are open, innermost last                     *)
(*   errs   how many tokens were typed where they may not be (0 or 1)      *)
(*   atoms  how many symbols were typed; each one has another name         *)
(***************************************************************************)
EXTENDS Session, TLC, Json

CONSTANTS Logic, Theme, MaxTokens, Errors, Export

VARIABLES toks, mode, stack, errs, atoms
vars == <<toks, mode, stack, errs, atoms, heap, registry>>

Sp == <<32>>
Txt == [and |-> <<38>>, or |-> <<124>>, implies |-> <<45, 62>>, equivalence |-> <<60, 45, 62>>, not |-> <<126>>,
        until |-> <<85>>, release |-> <<82>>, weak_until |-> <<87>>, strong_release |-> <<77>>,
        next |-> <<88, 91, 33, 93>>, weak_next |-> <<88>>, eventually |-> <<70>>, always |-> <<71>>,
        since |-> <<83>>, triggers |-> <<84>>, before |-> <<89>>, weakbefore |-> <<90>>, once |-> <<79>>,
        historically |-> <<72>>, seq |-> <<59>>, union |-> <<43>>, star |-> <<42>>, test |-> <<63>>,
        true |-> KwTrue, false |-> KwFalse, tt |-> KwTT, ff |-> KwFF, last |-> KwLast, end |-> KwEnd, start |-> KwStart,
        lpar |-> <<40>>, rpar |-> <<41>>, lt |-> <<60>>, gt |-> <<62>>, lb |-> <<91>>, rb |-> <<93>>]

Name(k) == <<96 + k>>                                \* a, b, c, ...
Text(t) == IF t \in DOMAIN Txt THEN Txt[t] ELSE Name(atoms)
TextOf(ts) == FoldLeft(LAMBDA acc, t : IF acc = <<>> THEN t ELSE acc \o Sp \o t, <<>>, ts)
\* "regex": what is typed is the regular expression of a diamond
Framed == Theme = "regex"
Typed == IF Framed THEN <<60>> \o TextOf(toks) \o <<62>> \o KwTT ELSE TextOf(toks)

(* ------------------------------- the tokens ---------------------------- *)
LogicBin == BoolBin \cup (CASE Logic = "ltl" -> LtlBin [] Logic = "pltl" -> PltlBin [] OTHER -> {})
LogicUn == CASE Logic = "ltl" -> LtlUn [] Logic = "pltl" -> PltlUn [] OTHER -> {}
Consts == CASE Logic = "pl" -> {"true"} [] Logic = "ltl" -> {"ff", "last"} [] Logic = "pltl" -> {"true", "start"}
            [] OTHER -> {"tt", "end"}

\* "chain": symbols and binary operators; "prefix": a few of those and all of
\* the unary ones; "nest": a few operators and brackets; "modal": for LDL
Bins == CASE Theme = "chain"  -> LogicBin
          [] Theme = "prefix" -> (IF Logic = "ltl" THEN {"until", "implies"} ELSE IF Logic = "pltl" THEN {"since", "and"}
                                  ELSE {"or", "implies"})
          [] Theme = "nest"   -> (IF Logic = "ltl" THEN {"and", "release"} ELSE IF Logic = "pltl" THEN {"implies", "triggers"}
                                  ELSE {"and", "or", "implies"})
          [] Theme = "regex"  -> BoolBin \cup {"seq", "union"}
          [] OTHER -> {"and", "implies", "seq", "union"}
Uns == CASE Theme = "chain" -> {} [] Theme = "nest" -> {"not"} [] Theme \in {"modal", "regex"} -> {"not"}
         [] OTHER -> {"not"} \cup LogicUn
Lefs == CASE Theme = "chain" -> {"sym"} [] Theme = "modal" -> {"sym", "tt", "true"}
          [] Theme = "regex" -> {"sym", "tt"}
          [] Theme = "nest" -> {"sym"} [] OTHER -> {"sym"} \cup Consts
Opens == CASE Theme \in {"nest", "prefix"} -> {"lpar"} [] Theme = "modal" -> {"lpar", "lt", "lb"} [] OTHER -> {}
Closes == {CASE o = "lpar" -> "rpar" [] o = "lt" -> "gt" [] OTHER -> "rb" : o \in Opens}
Posts == IF Theme \in {"modal", "regex"} THEN {"star", "test"} ELSE {}
Tokens == Bins \cup Uns \cup Lefs \cup Opens \cup Closes \cup Posts

Partner(c) == CASE c = "rpar" -> "lpar" [] c = "gt" -> "lt" [] OTHER -> "lb"
Top == IF stack = <<>> THEN "" ELSE stack[Len(stack)]

May(t) == CASE t \in Uns \cup Lefs \cup Opens -> mode = "operand"
            [] t \in Bins \cup Posts -> mode = "after"
            [] t \in Closes -> mode = "after" /\ Top = Partner(t)

(* ------------------------------- typing -------------------------------- *)
Init == /\ toks = <<>> /\ mode = "operand" /\ stack = <<>> /\ errs = 0 /\ atoms = 0
        /\ SInit

Write(t) ==
  /\ atoms' = IF t = "sym" THEN atoms + 1 ELSE atoms
  /\ toks' = Append(toks, IF t = "sym" THEN Name(atoms + 1) ELSE Txt[t])

Type(t) ==
  /\ May(t)
  /\ Write(t)
  /\ mode' = CASE t \in Lefs \cup Posts -> "after"
               [] t = "rpar" -> "after"
               [] OTHER -> "operand"       \* the closing of < > and [ ] too
  /\ stack' = CASE t \in Opens -> Append(stack, t)
                [] t \in Closes -> SubSeq(stack, 1, Len(stack) - 1)
                [] OTHER -> stack
  /\ UNCHANGED <<errs, heap, registry>>

\* a token that may not come; then, as if it were not there, or as if an
\* operand were, or an operator
Err(t) ==
  /\ errs < Errors /\ ~May(t)
  /\ Write(t)
  /\ errs' = errs + 1
  /\ mode' \in {"operand", "after"}
  /\ UNCHANGED <<stack, heap, registry>>

Next == Len(toks) < MaxTokens /\ \E t \in Tokens : Type(t) \/ Err(t)
Spec == Init /\ [][Next]_vars

(* ----------------------------- invariants ------------------------------ *)
Complete == errs = 0 /\ mode = "after" /\ stack = <<>> /\ Len(toks) > 0
Result == ParseText(Logic, Typed)

\* The automaton and the parser agree. (In LDL, formulae and regular
\* expressions can be exchanged, which the automaton takes no notice of.)
Recognised ==
  LET r == Result
  IN /\ Complete /\ Logic # "ldl" => r.v = "ok"
     /\ r.v = "ok" => Complete
     /\ r.v = "un" => Logic = "ldl"

Good == Complete /\ Result.v = "ok"

ResultShape == Good => WellFormed(Logic, Result.f) /\ Canonical(Result.f)
Printed == Good => RoundTripOf(Entry(Logic, Result.f))
Bracketed == Good => ParseText(Logic, <<40>> \o Typed \o <<41>>) = Result
Spaced == Good => ParseText(Logic, <<10, 32>> \o Typed \o <<9>>) = Result
\* brackets around all of its text, negated
NotOver == Good => ParseText(Logic, <<33, 40>> \o Typed \o <<41>>).f = MkNot(Result.f)

(* Splitting a chain at the loosest of its operators.                      *)
OpOf(x) == CHOOSE o \in LogicBin : Txt[o] = x
Level(o) == CHOOSE k \in 1..Len(Levels(Logic)) : Levels(Logic)[k] = o
IsOp(x) == \E o \in LogicBin : Txt[o] = x
RECURSIVE Split(_, _, _, _)
RECURSIVE Group(_)
Split(ts, o, cur, acc) ==       \* the operands of o, in ts
  IF ts = <<>> THEN Append(acc, Group(cur))
  ELSE IF Head(ts) = Txt[o] THEN Split(Tail(ts), o, <<>>, Append(acc, Group(cur)))
  ELSE Split(Tail(ts), o, Append(cur, Head(ts)), acc)
Group(ts) ==
  IF Len(ts) = 1 THEN Atom(ts[1])
  ELSE LET used == {OpOf(ts[i]) : i \in {j \in 1..Len(ts) : IsOp(ts[j])}}
           o == CHOOSE x \in used : \A y \in used : Level(x) <= Level(y)
       IN Mk(o, Split(ts, o, <<>>, <<>>))
Grouped == Complete /\ Theme = "chain" => Result.f = Group(toks)

Exported == Export /\ Len(toks) > 0 /\ (Complete \/ errs > 0 \/ Len(toks) <= MaxTokens - 1)
            => PrintT("CASE " \o ToJson(Typed))
=============================================================================
