"""Which models, sessions and clauses decide each property."""

INV = ["NewIsCanonical", "MeaningPreserved", "ReMeaningPreserved", "RoundTrip", "EqualityIsSound",
       "NegationDiffers", "NegationComplements", "Registered", "Exported"]


def session(lg, steps, arity, depthwise=True, export=True, tier="quick", inv=INV):
    return {"module": "SessionMC", "set": lg, "tier": tier,
            "constants": {"Logic": lg, "Steps": steps, "MaxArity": arity, "Depthwise": depthwise, "Export": export},
            "invariants": inv, "properties": ["HeapImmutable"]}


SMALL = {"pl": (2, 2), "ltl": (1, 2), "pltl": (1, 2), "ldl": (2, 2)}
BIG = {"pl": (2, 3), "ltl": (2, 2), "pltl": (2, 2), "ldl": (3, 2)}


def sessions(lgs, quick=SMALL, inv=INV):
    """Quick: the invariants of one property; thorough: all of them."""
    return ([session(l, *quick[l], inv=inv + ["Exported"]) for l in lgs]
            + [session(l, *BIG[l], tier="thorough") for l in lgs])


def texts(*specs, tier="quick"):
    """Typing: logic, theme, tokens, errors."""
    return [{"module": "GrammarMC", "set": lg, "tier": tier,
             "constants": {"Logic": lg, "Theme": t, "MaxTokens": n, "Errors": e, "Export": True},
             "invariants": ["Recognised", "ResultShape", "Printed", "Bracketed", "Spaced", "NotOver", "Grouped",
                            "Exported"]} for lg, t, n, e in specs]


def glued(*specs, tier="quick"):
    return [{"module": "LexMC", "set": lg, "tier": tier,
             "constants": {"Logic": lg, "MaxPieces": n, "Framed": fr, "Export": True},
             "invariants": ["WordsWhole", "QuotedWhole", "Around", "SymbolsTyped", "ResultShape", "Exported"]}
            for lg, n, fr in specs]


TREES = (texts(("pl", "chain", 9, 0), ("ltl", "chain", 7, 0), ("pltl", "chain", 7, 0), ("pl", "prefix", 6, 0),
               ("ltl", "prefix", 5, 0), ("pltl", "prefix", 5, 0), ("pl", "nest", 7, 0), ("ltl", "nest", 7, 0),
               ("pltl", "nest", 7, 0))
         + texts(("pl", "chain", 11, 0), ("ltl", "chain", 9, 0), ("pltl", "chain", 9, 0), ("pl", "prefix", 8, 0),
                 ("ltl", "prefix", 6, 0), ("pltl", "prefix", 6, 0), ("pl", "nest", 9, 0), ("ltl", "nest", 9, 0),
                 ("pltl", "nest", 9, 0), tier="thorough"))
LDL_TREES = texts(("ldl", "modal", 5, 0), ("ldl", "regex", 6, 0)) + texts(("ldl", "modal", 7, 0), ("ldl", "regex", 8, 0),
                                                                        tier="thorough")
WRONG = (texts(("pl", "nest", 5, 1), ("ltl", "nest", 5, 1), ("pltl", "nest", 5, 1), ("ltl", "prefix", 3, 1),
               ("pltl", "prefix", 3, 1), ("ldl", "modal", 4, 1), ("ldl", "regex", 4, 1))
         + texts(("pl", "nest", 7, 1), ("ltl", "nest", 7, 1), ("pltl", "nest", 7, 1), ("ltl", "prefix", 4, 1),
                 ("pltl", "prefix", 4, 1), ("ldl", "modal", 5, 1), ("ldl", "regex", 6, 1), tier="thorough"))
LEX = (glued(("pl", 4, False), ("ltl", 3, False), ("pltl", 3, False), ("ldl", 3, False), ("ldl", 3, True))
       + glued(("pl", 5, False), ("ltl", 4, False), ("pltl", 4, False), ("ldl", 4, False), ("ldl", 4, True), tier="thorough"))
OPERATORS = ["not", "and", "or", "implies", "equivalence", "next", "weak_next", "eventually", "always", "until", "release",
             "weak_until", "strong_release", "before", "weakbefore", "once", "historically", "since", "triggers", "prop",
             "test", "star", "seq", "union", "diamond", "box", "forall", "exists", "call-pred", "call-fun"]


def requests(n, tier="quick", ops=OPERATORS):
    return [{"module": "AttemptMC", "set": "", "tier": tier,
             "constants": {"Ops_": ops, "MaxGiven": n, "Export": True},
             "invariants": ["Legal", "Complete", "Illegal", "Exchange", "NoRepair", "Called", "Exported"]}]


def threads(*specs, tier="quick"):
    """Threads at a time: how many, steps of each, whether one may forget."""
    return [{"module": "ThreadsMC", "set": "", "tier": tier,
             "constants": {"Threads": n, "Granularity": g, "MayForget": fo, "Export": ex},
             "invariants": ["AsAlone", "Once", "Entered", "Kept", "Hashed", "Exported"], "properties": ["Ends"]}
            for n, g, fo, ex in specs]


ALL = ["pl", "ltl", "pltl", "ldl"]
S = {"trace": "SessionTrace"}

THREE = {"quick": 6, "thorough": 10}       # structures of three elements, as a power of two

N = {"trace": "NatDedTrace", "constants": ({"Bits2": 9, "Bits3": 9}, {"Bits2": 11, "Bits3": 12})}


def proofs(*specs, tier="quick"):
    """Right proofs: theory, lines, premises, nesting."""
    return [{"module": "ProofMC", "set": t, "tier": tier,
             "constants": {"Theory": t, "MaxLines": n, "Premises": p, "Nesting": d, "Export": True, "Bits3": THREE[tier]},
             "invariants": ["Right", "Sound", "Scoped", "Exported"]} for t, n, p, d in specs]


def last_lines(*specs, tier="quick"):
    """Right proofs and one line more: theory, lines, premises, nesting, rules, strays."""
    return [{"module": "StepMC", "set": "last", "tier": tier, "spec": "SSpec",
             "constants": {"Theory": t, "MaxLines": n, "Premises": p, "Nesting": d, "Export": True, "Bits3": THREE[tier],
                           "LastRules": rules, "Strays": strays},
             "invariants": ["OnlyTheLast", "RightIsSound", "UnsoundIsWrong", "Blame", "Told"]}
            for t, n, p, d, rules, strays in specs]


PLAIN = ["and_i", "impl_e", "MT", "neg_e", "and_e1", "and_e2", "or_i1", "or_i2", "bot_e", "dneg_e", "dneg_i", "copy",
         "premise", "assumption"]
BOXES = ["impl_i", "neg_i", "or_e"]
QUANT = ["forall_e", "exists_i", "forall_i", "exists_e"]
PL_STEPS = (last_lines(("pl12", 2, 2, 0, PLAIN, False), ("pl", 3, 1, 1, ["impl_i", "neg_i"], False),
                       ("contra", 3, 1, 2, ["impl_i", "neg_i"], False), ("cases", 4, 1, 1, ["or_e"], False))
            + last_lines(("pl", 3, 3, 0, PLAIN, False), ("pl12", 3, 1, 1, BOXES, False), ("contra", 4, 1, 2, BOXES, False),
                         ("cases", 5, 1, 1, ["or_e"], False), tier="thorough"))
SCOPE_STEPS = (last_lines(("tiny", 2, 1, 1, PLAIN + BOXES, True), ("tiny", 3, 1, 2, ["copy", "impl_i"], True),
                          ("contra", 2, 1, 2, ["neg_e", "neg_i", "impl_i", "copy"], True))
               + last_lines(("tiny", 3, 1, 2, PLAIN + ["impl_i", "neg_i"], True), ("cases", 3, 1, 1, ["or_e"], True),
                            ("tiny", 4, 1, 3, ["copy", "impl_i"], True), tier="thorough"))
FOL_STEPS = (last_lines(("monadic", 2, 1, 1, QUANT, False), ("vars", 2, 1, 1, QUANT, False),
                        ("dyadic", 2, 1, 1, QUANT, False), ("vars", 3, 1, 1, ["forall_i", "exists_e"], False))
             + last_lines(("monadic", 3, 1, 1, QUANT, False), ("vars", 3, 1, 1, QUANT, False),
                          ("dyadic", 3, 1, 1, QUANT, False), tier="thorough"))
PL_PROOFS = proofs(("pl", 3, 2, 2), ("pl3", 3, 2, 2)) + proofs(("pl", 5, 2, 2), ("pl3", 5, 2, 2), tier="thorough")
FOL_PROOFS = (proofs(("monadic", 3, 2, 1), ("vars", 3, 1, 1), ("dyadic", 3, 1, 1))
              + proofs(("monadic", 4, 2, 2), ("vars", 4, 2, 2), ("dyadic", 4, 1, 2), tier="thorough"))

CHECKS = {
    "C01": dict(S, mc=sessions(["pl"], BIG, inv=["MeaningPreserved"]), events=(30000, 200000), clauses={"eval", "pure", "stable"}),
    "C02": dict(S, mc=sessions(ALL, BIG, inv=["MeaningPreserved", "ReMeaningPreserved"]), events=(12000, 200000), clauses={"meaning"}),
    "C03": dict(S, mc=sessions(ALL, BIG, inv=["NewIsCanonical"]), events=(16000, 200000), clauses={"shape"}),
    "C04": dict(S, mc=TREES, events=(8000, 200000), clauses={"tree"}),
    "C05": dict(S, mc=LDL_TREES, events=(8000, 200000), clauses={"tree"}),
    "C06": dict(S, mc=WRONG, events=(12000, 200000), clauses={"refuse", "answer"}),
    "C07": dict(S, mc=LEX, events=(12000, 200000), clauses={"tree", "refuse", "name"}),
    "C08": dict(S, mc=sessions(ALL, BIG, inv=["RoundTrip"]), events=(10000, 200000), clauses={"roundtrip"}),
    "C09": dict(S, mc=sessions(ALL, BIG, inv=["EqualityIsSound", "NegationDiffers"]), events=(60000, 200000), clauses={"equal", "must"}),
    "C10": dict(S, mc=sessions(ALL, BIG, inv=["NewIsCanonical", "Registered"]), events=(40000, 200000),
                clauses={"stable", "registry", "shape", "literal", "history", "must"}),
    "C11": dict(S, mc=sessions(ALL, BIG, inv=["NewIsCanonical"]), events=(40000, 200000),
                clauses={"clone", "stable", "equal", "roundtrip", "must"}),
    "C17": dict(S, mc=requests(3) + requests(4, "thorough"), events=(40000, 200000), clauses={"attempt", "must"}),
    "C18": dict(S, mc=sessions(ALL, inv=["NegationComplements"]), events=(60000, 200000), clauses={"abbr", "dual", "infix"}),
    "C20": dict(S, mc=threads((2, 4, True, True), (3, 3, False, True)) + threads((2, 4, True, True), (3, 3, True, True), tier="thorough"),
                events=(30000, 200000), clauses={"meanwhile", "registry", "must"}),
    "C12": dict(N, mc=PL_PROOFS + PL_STEPS, events=(16000, 200000), clauses={"sound", "answer"}),
    "C13": dict(N, mc=PL_PROOFS + PL_STEPS, events=(16000, 200000), clauses={"rule", "refused", "answer"}),
    "C14": dict(N, mc=PL_PROOFS + SCOPE_STEPS, events=(16000, 200000), clauses={"scope", "refused", "answer"}),
    "C15": dict(N, mc=FOL_PROOFS + FOL_STEPS, events=(10000, 100000), clauses={"sound", "qside", "answer"}),
    "C16": dict(N, mc=FOL_PROOFS + FOL_STEPS, events=(10000, 100000), clauses={"qform", "refused", "answer"}),
    "C19": dict(N, mc=PL_PROOFS[:2] + FOL_PROOFS[:3], events=(10000, 100000), clauses={"stable", "answer"}),
}
