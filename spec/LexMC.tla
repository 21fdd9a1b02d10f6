------------------------------- MODULE LexMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of texts glued together, without blanks, from    *)
(* pieces of words, keywords, operators and quotes: what is a symbol, what *)
(* a keyword, what an operator, and what none of them.                     *)
(***************************************************************************)
EXTENDS Session, TLC, Json

CONSTANTS Logic, MaxPieces, Framed, Export

VARIABLES s, n
vars == <<s, n, heap, registry>>

A == 97
Words == {<<A>>, <<Under>>, <<48>>, <<Hyphen>>}
Keys == CASE Logic = "pl" -> {KwTrue, KwTT, <<84>>}
          [] Logic = "ltl" -> {KwTrue, KwTT, KwLast, <<85>>, <<88>>}
          [] Logic = "pltl" -> {KwFalse, KwFF, KwStart, <<83>>, <<89>>}
          [] Logic = "ldl" -> {KwTrue, KwTT, KwEnd, <<85>>}
Marks == {<<Space>>, <<Quote>>, <<40>>, <<41>>} \cup (IF Framed THEN {} ELSE {<<126>>})
Others == IF Framed THEN {<<63>>, <<59>>} ELSE {<<233>>, <<10>>, <<46>>}
Pieces == Words \cup Keys \cup Marks \cup Others

\* in LDL, symbols occur in regular expressions only
Typed == IF Framed THEN <<60>> \o s \o <<32, 62>> \o KwTT ELSE s

Init == s = <<>> /\ n = 0 /\ SInit
Next == n < MaxPieces /\ \E p \in Pieces : s' = s \o p /\ n' = n + 1 /\ UNCHANGED <<heap, registry>>
Spec == Init /\ [][Next]_vars

Result == ParseText(Logic, Typed)

(* ----------------------------- invariants ------------------------------ *)
IsWord == Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] \in WordChar
Quoted == Len(s) > 1 /\ s[1] = Quote /\ s[Len(s)] = Quote /\ \A i \in 2..(Len(s) - 1) : s[i] # Quote
Meant(f) == IF Framed THEN Result.f = <<"diamond", <<"prop", f>>, TT>> ELSE Result.f = f

\* A word is read in one piece: a symbol with this name, a keyword, or nothing.
WordsWhole ==
  IsWord =>
    IF IsName(s) /\ ~Reserved(Logic, s)
    THEN IF Logic = "ldl" /\ ~Framed THEN Result.v = "no" ELSE Result.v = "ok" /\ Meant(Atom(s))
    ELSE IF IsName(s)
         THEN Result.v = "ok" => Names(Result.f) = {}
         ELSE Result.v = "no"

QuotedWhole ==
  Quoted => IF Len(s) > 2 /\ \A i \in 1..Len(s) : s[i] \in 32..126
            THEN IF Logic = "ldl" /\ ~Framed THEN Result.v = "no" ELSE Result.v = "ok" /\ Meant(Atom(s))
            ELSE Result.v = "no"

\* Blanks before and after change nothing.
Around == LET r == ParseText(Logic, <<32, 9>> \o Typed \o <<10>>)
          IN Result.v # "un" /\ r.v # "un" => r = Result

\* Every symbol of the formula is a name, found in the text; it is none of the keywords.
SymbolsTyped ==
  Result.v = "ok" => \A m \in Names(Result.f) :
     /\ IsName(m) /\ ~Reserved(Logic, m)
     /\ \E i \in 1..Len(Typed) : SubSeq(Typed, i, i + Len(m) - 1) = m

ResultShape == Result.v = "ok" => WellFormed(Logic, Result.f) /\ RoundTripOf(Entry(Logic, Result.f))

Exported == Export /\ n > 0 => PrintT("CASE " \o ToJson(Typed))
=============================================================================
