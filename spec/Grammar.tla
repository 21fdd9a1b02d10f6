------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The concrete syntax: which texts are formulae of a logic, and which     *)
(* formula each of them denotes. A text is a sequence of character codes.  *)
(*                                                                         *)
(* ParseText(lg, s) is a record [v, f]; v is                               *)
(*   "ok"  the text denotes formula f                                      *)
(*   "no"  the text is not a formula of logic lg                           *)
(*   "un"  the language leaves the text unspecified                        *)
(***************************************************************************)
EXTENDS Ast, Integers

(* ----------------------------- characters ------------------------------ *)
Lower  == 97..122
Upper  == 65..90
Digit  == 48..57
Under  == 95
Hyphen == 45
Quote  == 34
Space  == 32
Blank  == {9, 10, 11, 12, 13, 32}
\* blank for Unicode, or control characters that regular expressions treat so
OddBlank == (28..31) \cup {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)

WordStart == Lower \cup {Under}
WordChar  == Lower \cup Upper \cup Digit \cup {Under, Hyphen}
InQuotes  == (32..126) \ {Quote}

(* ------------------------------ symbol names --------------------------- *)
\* A name: a word that neither starts with upper case or digits, nor ends
\* with a hyphen; or anything printable between double quotes.
IsName(s) ==
  \/ /\ Len(s) >= 1 /\ s[1] \in WordStart /\ s[Len(s)] # Hyphen
     /\ \A i \in 1..Len(s) : s[i] \in WordChar
  \/ /\ Len(s) >= 3 /\ s[1] = Quote /\ s[Len(s)] = Quote
     /\ \A i \in 2..(Len(s) - 1) : s[i] \in InQuotes

KwTrue  == <<116, 114, 117, 101>>
KwFalse == <<102, 97, 108, 115, 101>>
KwTT    == <<116, 116>>
KwFF    == <<102, 102>>
KwLast  == <<108, 97, 115, 116>>
KwEnd   == <<101, 110, 100>>
KwStart == <<115, 116, 97, 114, 116>>
KwFirst == <<102, 105, 114, 115, 116>>

Keyword(lg, w) ==
  CASE w = KwTrue  -> "true"
    [] w = KwFalse -> "false"
    [] w = KwTT    /\ lg # "pl" -> "tt"
    [] w = KwFF    /\ lg # "pl" -> "ff"
    [] w = KwLast  /\ lg \in {"ltl", "ldl"} -> "last"
    [] w = KwEnd   /\ lg = "ldl" -> "end"
    [] w = KwEnd   /\ lg = "ltl" -> "un"      \* reserved, of no use
    [] w = KwStart /\ lg = "pltl" -> "start"
    [] w = KwFirst /\ lg = "pltl" -> "un"     \* reserved, of no use
    [] OTHER -> "sym"

Reserved(lg, n) == Keyword(lg, n) # "sym"

(* -------------------------------- lexer -------------------------------- *)
Letter(lg, c) ==  \* the operators that are upper case letters
  CASE lg = "ltl" /\ c = 85 -> "until"          \* U
    [] lg = "ltl" /\ c = 82 -> "release"        \* R
    [] lg = "ltl" /\ c = 71 -> "always"         \* G
    [] lg = "ltl" /\ c = 70 -> "eventually"     \* F
    [] lg = "ltl" /\ c = 88 -> "weak_next"      \* X
    [] lg = "ltl" /\ c = 87 -> "weak_until"     \* W
    [] lg = "ltl" /\ c = 77 -> "strong_release" \* M
    [] lg = "pltl" /\ c = 83 -> "since"         \* S
    [] lg = "pltl" /\ c = 84 -> "triggers"      \* T
    [] lg = "pltl" /\ c = 72 -> "historically"  \* H
    [] lg = "pltl" /\ c = 79 -> "once"          \* O
    [] lg = "pltl" /\ c = 89 -> "before"        \* Y
    [] lg = "pltl" /\ c = 90 -> "weakbefore"    \* Z
    [] OTHER -> ""

Tok(k, x, n) == [k |-> k, x |-> x, n |-> n]   \* kind, name, next index
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF At(s, i) \in WordChar THEN RunEnd(s, i + 1) ELSE i
RECURSIVE TrimHyphens(_, _)
TrimHyphens(s, i) == IF s[i] = Hyphen THEN TrimHyphens(s, i - 1) ELSE i

\* an operator that is a letter must not be part of a word
LetterTok(s, i, n, op) ==
  CASE n > Len(s) -> Tok("no", <<>>, n)         \* nothing can follow it
    [] At(s, n) \in {Space, Quote, 40} -> Tok(op, <<>>, n)
    [] At(s, n) \in WordChar -> Tok("no", <<>>, n)
    [] OTHER -> Tok("un", <<>>, n)

NextTok(lg, s, i) ==
  LET c == s[i]
      d == At(s, i + 1)
      one(k) == Tok(k, <<>>, i + 1)
      two(k) == Tok(k, <<>>, i + 2)
  IN CASE c = 40 -> one("(")
       [] c = 41 -> one(")")
       [] c = 38 -> IF d = 38 THEN two("and") ELSE one("and")
       [] c = 124 -> IF d = 124 THEN two("or") ELSE one("or")
       [] c \in {33, 126} -> one("not")
       [] c = 45 /\ d = 62 -> two("implies")
       [] c = 62 /\ d = 62 -> two("implies")
       [] c = 60 /\ d = 45 /\ At(s, i + 2) = 62 -> Tok("equivalence", <<>>, i + 3)
       [] lg = "ldl" /\ c = 60 -> one("<")
       [] lg = "ldl" /\ c = 62 -> one(">")
       [] lg = "ldl" /\ c = 91 -> one("[")
       [] lg = "ldl" /\ c = 93 -> one("]")
       [] lg = "ldl" /\ c = 43 -> one("union")
       [] lg = "ldl" /\ c = 59 -> one("seq")
       [] lg = "ldl" /\ c = 63 -> one("?")
       [] lg = "ldl" /\ c = 42 -> one("*")
       [] c \in WordStart ->
            LET e == TrimHyphens(s, RunEnd(s, i) - 1)
                w == SubSeq(s, i, e)
            IN Tok(Keyword(lg, w), w, e + 1)
       [] c = Quote ->
            IF \E j \in (i + 1)..Len(s) : s[j] = Quote
            THEN LET e == CHOOSE j \in (i + 1)..Len(s) :
                            s[j] = Quote /\ \A k \in (i + 1)..(j - 1) : s[k] # Quote
                     w == SubSeq(s, i, e)
                 IN IF IsName(w) THEN Tok("sym", w, e + 1) ELSE Tok("no", <<>>, e + 1)
            ELSE Tok("no", <<>>, i + 1)
       [] lg = "ltl" /\ c = 88 /\ d = 91 /\ At(s, i + 2) = 33 /\ At(s, i + 3) = 93 ->
            LetterTok(s, i, i + 4, "next")
       [] Letter(lg, c) # "" -> LetterTok(s, i, i + 1, Letter(lg, c))
       [] c \in OddBlank -> Tok("un", <<>>, i + 1)
       [] OTHER -> Tok("no", <<>>, i + 1)

RECURSIVE Lex(_, _, _, _)
Lex(lg, s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] \in Blank THEN Lex(lg, s, i + 1, acc)
  ELSE LET t == NextTok(lg, s, i) IN Lex(lg, s, t.n, Append(acc, t))

(* -------------------------------- parser ------------------------------- *)
(* Levels of precedence, loosest first. A chain of operators of the same   *)
(* level makes one node.                                                   *)
BoolLevels == <<"equivalence", "implies", "or", "and">>
Levels(lg) ==
  CASE lg = "pl"   -> BoolLevels
    [] lg = "ltl"  -> BoolLevels \o <<"weak_until", "until", "release", "strong_release">>
    [] lg = "pltl" -> BoolLevels \o <<"since", "triggers">>
    [] lg = "ldl"  -> <<"union", "seq", "*", "?">> \o BoolLevels

LdlFormulaLevel == 5      \* where formulae start in Levels("ldl")

UnaryOps(lg) ==
  CASE lg = "ltl"  -> {"not"} \cup LtlUn
    [] lg = "pltl" -> {"not"} \cup PltlUn
    [] OTHER -> {"not"}

(* The outcome of parsing from token i: verdict, formula, its sort (the    *)
(* logic it belongs to), next token, and whether a keyword of LDL occurs   *)
(* where a parser that expects a propositional formula may read a symbol.  *)
Out(f, srt, i, kw) == [v |-> "ok", f |-> f, s |-> srt, i |-> i, kw |-> kw]
Fail(v) == [v |-> v, f |-> <<"tt">>, s |-> "", i |-> 0, kw |-> FALSE]

Kind(toks, i) == IF i <= Len(toks) THEN toks[i].k ELSE "$"

\* propositional formulae are regular expressions
AsRe(r) == CASE r.s = "re" -> r
             [] r.s = "pl" -> Out(<<"prop", r.f>>, "re", r.i, r.kw)
             [] OTHER -> IF r.kw THEN Fail("un") ELSE Fail("no")

RECURSIVE ParseLevel(_, _, _, _)
RECURSIVE ParseChain(_, _, _, _)
RECURSIVE ParseUnary(_, _, _)

Join(lg, k, rs) ==
  LET op == Levels(lg)[k]
      lasti == rs[Len(rs)].i
      kw == \E j \in 1..Len(rs) : rs[j].kw
  IN IF Len(rs) = 1 THEN rs[1]
     ELSE IF lg # "ldl"
          THEN Out(Mk(op, [j \in 1..Len(rs) |-> rs[j].f]), lg, lasti, FALSE)
     ELSE IF op \in ReBin
          THEN LET res == [j \in 1..Len(rs) |-> AsRe(rs[j])]
               IN IF \E j \in 1..Len(rs) : res[j].v # "ok"
                  THEN (IF \E j \in 1..Len(rs) : res[j].v = "un" THEN Fail("un") ELSE Fail("no"))
                  ELSE Out(Mk(op, [j \in 1..Len(rs) |-> res[j].f]), "re", lasti, kw)
     ELSE LET sorts == {rs[j].s : j \in 1..Len(rs)}
          IN IF sorts \in {{"pl"}, {"ldl"}}
             THEN Out(Mk(op, [j \in 1..Len(rs) |-> rs[j].f]), rs[1].s, lasti, kw)
             ELSE IF kw THEN Fail("un") ELSE Fail("no")

ParseChain(lg, k, toks, rs) ==    \* rs: the operands so far
  LET i == rs[Len(rs)].i
  IN IF Kind(toks, i) # Levels(lg)[k] THEN Join(lg, k, rs)
     ELSE LET r == ParseLevel(lg, k + 1, toks, i + 1)
          IN IF r.v # "ok" THEN r ELSE ParseChain(lg, k, toks, Append(rs, r))

ParseLevel(lg, k, toks, i) ==
  IF k > Len(Levels(lg)) THEN ParseUnary(lg, toks, i)
  ELSE LET r == ParseLevel(lg, k + 1, toks, i)
           op == Levels(lg)[k]
       IN IF r.v # "ok" THEN r
          ELSE IF op = "*"
               THEN IF Kind(toks, r.i) # "*" THEN r
                    ELSE LET e == AsRe(r)
                         IN IF e.v # "ok" THEN e
                            ELSE Out(<<"star", e.f>>, "re", r.i + 1, r.kw)
          ELSE IF op = "?"
               THEN IF Kind(toks, r.i) # "?" THEN r
                    ELSE IF r.s = "ldl" THEN Out(<<"test", r.f>>, "re", r.i + 1, r.kw)
                    ELSE IF r.kw THEN Fail("un") ELSE Fail("no")
          ELSE ParseChain(lg, k, toks, <<r>>)

\* [re] f  and  <re> f
ParseModal(toks, i, op, close) ==
  LET r0 == ParseLevel("ldl", 1, toks, i + 1)
      r == IF r0.v = "ok" THEN AsRe(r0) ELSE r0
  IN IF r.v # "ok" THEN r
     ELSE IF Kind(toks, r.i) # close THEN Fail("no")
     ELSE LET t == ParseUnary("ldl", toks, r.i + 1)
          IN IF t.v # "ok" THEN t
             ELSE IF t.s # "ldl" THEN Fail("no")
             ELSE Out(<<op, r.f, t.f>>, "ldl", t.i, FALSE)

ParseUnary(lg, toks, i) ==
  LET k == Kind(toks, i)
      leaf(f, srt, kw) == Out(f, srt, i + 1, kw)
      srt == IF lg = "ldl" THEN "pl" ELSE lg
      end == <<"box", <<"prop", TT>>, FF>>
  IN CASE k \in UnaryOps(lg) ->
            LET r == ParseUnary(lg, toks, i + 1)
            IN IF r.v # "ok" THEN r
               ELSE IF r.s = "re" THEN (IF r.kw THEN Fail("un") ELSE Fail("no"))
               ELSE Out(Mk(k, <<r.f>>), r.s, r.i, r.kw)
       [] lg = "ldl" /\ k = "<" -> ParseModal(toks, i, "diamond", ">")
       [] lg = "ldl" /\ k = "[" -> ParseModal(toks, i, "box", "]")
       [] k = "(" ->
            LET r == ParseLevel(lg, 1, toks, i + 1)
            IN IF r.v # "ok" THEN r
               ELSE IF Kind(toks, r.i) # ")" THEN Fail("no")
               ELSE Out(r.f, r.s, r.i + 1, r.kw)
       [] k = "sym" -> leaf(Atom(toks[i].x), srt, FALSE)
       [] k = "true"  -> leaf(IF lg \in {"pl", "ldl"} THEN TT ELSE <<"true">>, srt, FALSE)
       [] k = "false" -> leaf(IF lg \in {"pl", "ldl"} THEN FF ELSE <<"false">>, srt, FALSE)
       [] k = "tt" -> leaf(TT, lg, TRUE)
       [] k = "ff" -> leaf(FF, lg, TRUE)
       [] k = "last" -> IF lg = "ltl" THEN leaf(<<"weak_next", FF>>, lg, FALSE)
                        ELSE leaf(<<"diamond", <<"prop", TT>>, end>>, lg, TRUE)
       [] k = "end" -> leaf(end, lg, TRUE)
       [] k = "start" -> leaf(<<"not", <<"before", TT>>>>, lg, FALSE)
       [] OTHER -> Fail("no")

ParseTokens(lg, toks) ==
  LET r == ParseLevel(lg, IF lg = "ldl" THEN LdlFormulaLevel ELSE 1, toks, 1)
  IN IF r.v # "ok" THEN r
     ELSE IF r.i # Len(toks) + 1 \/ r.s # lg THEN Fail("no")
     ELSE r

ParseText(lg, s) ==
  LET toks == Lex(lg, s, 1, <<>>)
      kinds == {toks[i].k : i \in 1..Len(toks)}
  IN IF "un" \in kinds THEN [v |-> "un", f |-> TT]
     ELSE IF "no" \in kinds THEN [v |-> "no", f |-> TT]
     ELSE LET r == ParseTokens(lg, toks) IN [v |-> r.v, f |-> r.f]

(* ------------------------------- printer ------------------------------- *)
(* One text for each formula, with brackets around every operand.          *)
Ascii == [x \in {"and", "or", "implies", "equivalence"} |->
            CASE x = "and" -> <<32, 38, 32>>  [] x = "or" -> <<32, 124, 32>>
              [] x = "implies" -> <<32, 45, 62, 32>>
              [] x = "equivalence" -> <<32, 60, 45, 62, 32>>]

Infix(op) ==
  CASE op \in BoolBin -> Ascii[op]
    [] op = "until" -> <<32, 85, 32>>      [] op = "release" -> <<32, 82, 32>>
    [] op = "weak_until" -> <<32, 87, 32>> [] op = "strong_release" -> <<32, 77, 32>>
    [] op = "since" -> <<32, 83, 32>>      [] op = "triggers" -> <<32, 84, 32>>
    [] op = "seq" -> <<59>>                [] op = "union" -> <<43>>

Prefix(op) ==
  CASE op = "not" -> <<126>>
    [] op = "next" -> <<88, 91, 33, 93>>   [] op = "weak_next" -> <<88>>
    [] op = "eventually" -> <<70>>         [] op = "always" -> <<71>>
    [] op = "before" -> <<89>>             [] op = "weakbefore" -> <<90>>
    [] op = "once" -> <<79>>               [] op = "historically" -> <<72>>
    [] op \in {"prop", "star", "test"} -> <<>>

Postfix(op) == CASE op = "star" -> <<42>> [] op = "test" -> <<63>> [] OTHER -> <<>>

RECURSIVE Show(_, _)
Show(lg, f) ==
  LET t == Tag(f)
      par(l, g) == <<40>> \o Show(l, g) \o <<41>>
      kid == CASE lg = "ldl" \/ t = "test" -> IF t = "test" THEN "ldl" ELSE lg
               [] t = "prop" -> "pl"
               [] OTHER -> lg
  IN CASE t = "tt" -> IF lg = "pl" THEN KwTrue ELSE KwTT
       [] t = "ff" -> IF lg = "pl" THEN KwFalse ELSE KwFF
       [] t = "true" -> KwTrue
       [] t = "false" -> KwFalse
       [] t = "atom" -> f[2]
       [] t = "diamond" -> <<60>> \o par("re", f[2]) \o <<62>> \o par("ldl", f[3])
       [] t = "box" -> <<91>> \o par("re", f[2]) \o <<93>> \o par("ldl", f[3])
       [] Len(f) = 2 -> Prefix(t) \o par(kid, f[2]) \o Postfix(t)
       [] OTHER -> FoldLeft(LAMBDA acc, g : (IF acc = <<>> THEN acc ELSE acc \o Infix(t))
                                            \o par(kid, g), <<>>, Kids(f))
=============================================================================
