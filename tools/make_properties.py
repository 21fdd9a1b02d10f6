"""Writes properties.jsonl (the properties are edited here)."""
import json
import os

B = "pylogics_modalities/syntax/base.py"
ND = "pylogics_modalities/deduction/fol/nd.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)


prop("C01", "Propositional evaluation agrees with the truth tables",
     "Evaluating a propositional formula in an interpretation yields exactly the truth value that the truth tables give, "
     "for every formula however it was obtained and of any arity (an n-ary implication associates to the right, "
     "an n-ary equivalence chains from the left). The interpretation may be a set or a mapping of symbols to truth "
     "values; symbols it does not mention are false, symbols that the formula does not mention are irrelevant. "
     "Evaluation changes neither the formula nor the interpretation.",
     ["inputs"], "all propositional formulae (built, simplified or parsed) and all interpretations, in either representation",
     "The tests evaluate a handful of one-operator formulae over two symbols (one of them passed because every implication "
     "was true); nesting, arity above two and the interaction with simplification are not reached.",
     ["pylogics_modalities/semantics/base.py", "pylogics_modalities/semantics/pl.py", B],
     [("evaluate_pl and its dispatch table", "pylogics_modalities/semantics/pl.py"),
      ("evaluation of the boolean operators", "pylogics_modalities/semantics/base.py")],
     ["evaluate_pl(formula, interpretation)"])

prop("C02", "Simplification on construction preserves meaning",
     "What a constructor returns for an operator applied to operands has the same models as the operator applied to those "
     "operands: the same valuations for propositional logic, the same finite traces for LTL, past LTL and LDL, the same "
     "steps along traces for regular expressions. In particular constants, duplicates, complementary or nested operands "
     "are dropped or collapsed only when that changes no model.",
     ["inputs", "programs"], "all operators, all operand lists of any arity in any order, in every logic with a trace or "
     "valuation semantics, built by any sequence of construction calls",
     "The tests compare a few simplifications with expected objects for fixed operand orders; whether a simplification is "
     "sound is a statement about all operands and all models.",
     [B, "pylogics_modalities/syntax/ltl.py", "pylogics_modalities/syntax/pltl.py", "pylogics_modalities/syntax/ldl.py"],
     [("simplification of and/or", B + ": _MonotoneBinaryOp"),
      ("simplification of not, implies, equivalence", B + ": Not, _MetaImpliesOp, _MetaEquivalenceOp"),
      ("constructors of temporal and dynamic operators", "pylogics_modalities/syntax/")],
     ["operands, argument, type of the returned formula"])

prop("C03", "Conjunctions, disjunctions and negations come out in canonical form",
     "A conjunction or disjunction that is returned has at least two operands, pairwise different, none of them a "
     "conjunction (resp. disjunction) itself, the neutral or absorbing constant, or the complement of another; the operands "
     "that remain keep the order in which they were given. When one operand remains it is returned itself, when none the "
     "neutral constant, and an absorbing constant or complementary pair gives the absorbing constant; a negation never "
     "negates a negation or a constant of the logic.",
     ["inputs", "programs"], "all operand lists: any arity, order, nesting and repetition, in every logic",
     "Tests fix a few operand lists; canonical form after every interleaving of flattening, deduplication and "
     "complement detection needs all lists.",
     [B], [("monotone operator metaclass", B + ": _MonotoneBinaryOp"), ("negation", B + ": Not.__new__, __invert__")],
     ["operands and types of the returned formula"])

prop("C04", "Parsing PL, LTL and past LTL text yields the tree its grammar prescribes",
     "Every text of the documented language is accepted and yields the formula that the documented precedences and "
     "groupings prescribe: equivalence binds weakest, then implication, or, and, the binary temporal operators, the unary ones. Brackets and "
     "white space change nothing else, a chain of one operator is grouped as one operator whose meaning is the chain's, and the "
     "result equals what the constructors build for that tree.",
     ["inputs"], "all texts of the three languages, of any length and nesting",
     "The tests parse one operator at a time or small fixed strings; relative precedence of every pair of operators and "
     "nesting depth are not covered.",
     ["pylogics_modalities/parsers/pl.lark", "pylogics_modalities/parsers/ltl.lark", "pylogics_modalities/parsers/pltl.lark",
      "pylogics_modalities/parsers/pl.py", "pylogics_modalities/parsers/ltl.py", "pylogics_modalities/parsers/pltl.py",
      "pylogics_modalities/parsers/base.py"],
     [("grammars", "pylogics_modalities/parsers/*.lark"), ("tree transformers", "pylogics_modalities/parsers/*.py")],
     ["parse_pl, parse_ltl, parse_pltl"])

prop("C05", "Parsing LDL text yields the tree its grammar prescribes",
     "Every text of the documented LDL language is accepted and yields the formula the documented precedences prescribe, in "
     "the formula layer, inside the regular expression of a diamond or box (union weaker than sequence, then star, then test), and "
     "in the propositional formulae those expressions step over. The result equals what the constructors build for that tree.",
     ["inputs"], "all LDL texts, with regular expressions and formulae nested in each other to any depth",
     "The tests parse a few fixed strings and none mixes the three layers with operators of different precedence.",
     ["pylogics_modalities/parsers/ldl.lark", "pylogics_modalities/parsers/ldl.py", "pylogics_modalities/parsers/pl.lark"],
     [("grammar", "pylogics_modalities/parsers/ldl.lark"), ("tree transformer", "pylogics_modalities/parsers/ldl.py")],
     ["parse_ldl"])

prop("C06", "Text outside a language is refused with an error",
     "Parsing a text that is not in the language of the parser - unbalanced brackets, missing operands, operators of another "
     "logic, stray or trailing tokens, the empty text - raises an exception. It never returns an object that is not a formula of that logic, and no "
     "part of the text is silently ignored.",
     ["inputs"], "all texts, for the parser of each logic",
     "Tests try no or a few malformed strings per logic; acceptance of a single non-member among infinitely many is enough to break it.",
     ["pylogics_modalities/parsers/pl.lark", "pylogics_modalities/parsers/ltl.lark", "pylogics_modalities/parsers/pltl.lark",
      "pylogics_modalities/parsers/ldl.lark", "pylogics_modalities/parsers/base.py"],
     [("grammars", "pylogics_modalities/parsers/*.lark"), ("arity checks of the transformers", "pylogics_modalities/parsers/*.py")],
     ["parse_pl, parse_ltl, parse_pltl, parse_ldl"])

prop("C07", "Symbols and keywords are recognised exactly",
     "A propositional symbol is read with exactly its characters: letters, digits, underscores and hyphens as documented, or "
     "any quoted printable name, also when an operator letter or a keyword begins or ends it. A keyword or operator letter is "
     "itself only when it stands alone, and the same rule decides which names a proposition can be made of: all others are refused.",
     ["inputs"], "all symbol names and all texts in which names meet operators, keywords, quotes, brackets and white space",
     "Tests use one-letter symbols; names that start with operator letters or keywords, and tight spacing, are not tried.",
     ["pylogics_modalities/parsers/pl.lark", "pylogics_modalities/parsers/ltl.lark", "pylogics_modalities/parsers/pltl.lark",
      "pylogics_modalities/parsers/ldl.lark", "pylogics_modalities/syntax/base.py", "pylogics_modalities/syntax/pl.py",
      "pylogics_modalities/helpers/misc.py"],
     [("terminals of the grammars", "pylogics_modalities/parsers/*.lark"), ("atom names", B + ", pylogics_modalities/helpers")],
     ["parse_*; Atomic(name)"])

prop("C08", "Printing and parsing are inverse",
     "The text that the string conversion prints for a formula of propositional logic, LTL, past LTL or LDL is in the language "
     "of that logic's parser, denotes that formula by the documented precedences, and parsing it gives back an equal formula. "
     "(Symbols spelled like a keyword of the logic are excepted.)",
     ["inputs", "programs"], "all formulae of the four logics, built or parsed, at any nesting depth",
     "The tests round-trip formulae they parsed from a fixed list of strings; most operators and nestings are absent (several operators could not be printed at all).",
     ["pylogics_modalities/utils/to_string.py", "pylogics_modalities/parsers/"],
     [("to_string and its dispatch table", "pylogics_modalities/utils/to_string.py"), ("parsers", "pylogics_modalities/parsers/")],
     ["to_string, parse_*"])

prop("C09", "Equality and hash follow the structure of formulae",
     "Two formulae are equal exactly when they have the same logic, operator and equal operands - in the same order, except for "
     "conjunction, disjunction and equivalence, whose operands count as a set; for first-order formulae also the same terms and predicate names. Equality "
     "is an equivalence relation, agrees with inequality and with membership in sets and dictionaries, and equal formulae have equal hashes; it never "
     "depends on how, when or in which order they were built.",
     ["inputs", "programs", "histories"], "all pairs of formulae of all logics, whatever calls built them",
     "Tests compare each formula with one other; symmetry, transitivity and hash agreement are statements about all pairs and histories.",
     [B, "pylogics_modalities/syntax/fol.py", "pylogics_modalities/syntax/pl.py", "pylogics_modalities/helpers/cache_hash.py"],
     [("__eq__ and __hash__ of the formula classes", "pylogics_modalities/syntax/*.py"), ("hash caching", "pylogics_modalities/helpers/cache_hash.py")],
     ["==, !=, hash, in"])

prop("C10", "Formulae are immutable and construction does not depend on history",
     "No operation on formulae - building others from them, comparing, hashing, evaluating, printing, parsing, copying, resetting "
     "the cache, changing a list that operands were taken from - changes a formula that was handed out: its operator, operands and their order, hash, logic and text stay the same forever. "
     "What a call returns depends on its arguments only, never on what was built before or on cache resets. The "
     "cache lists under each logic, once each, every formula built since the last reset, and a reset empties it.",
     ["histories", "programs"], "all sequences of calls of the library in one process",
     "The tests start from an empty cache and never look at a formula again after other calls; this is a property of all histories.",
     [B, "pylogics_modalities/helpers/cache_hash.py"],
     [("hash consing metaclass and cache", B + ": _HashConsing"), ("operands returned as tuples", B)],
     ["operands, argument, hash, get_cache_context, reset_cache"],
     [("hash consing context", "formulae known, by logic", B)])

prop("C11", "Copies and pickles are equal, fully working formulae",
     "A copy, deep copy or unpickled pickle (any protocol, same or another process with other hash seeds) of a formula, alone or within a list, set or dictionary, is equal to the original, has the same "
     "hash as an equal formula built there, the same structure, and prints, compares, evaluates and combines the same, and is found in the sets and dictionaries that came with it. The original is unaffected.",
     ["inputs", "histories", "configurations"], "all formulae of all logics, all pickle protocols, all histories of copies of copies, any receiving process",
     "Only one copying of simple formulae is tested; nested negations could not be copied, and hash caches must not travel between processes.",
     [B, "pylogics_modalities/helpers/cache_hash.py"],
     [("__getnewargs__, __getstate__", B), ("hash caching", "pylogics_modalities/helpers/cache_hash.py")],
     ["copy, deepcopy, pickle.dumps/loads"])

prop("C12", "Accepted propositional proofs are sound",
     "If the natural deduction checker accepts a proof over propositional formulae, then every line of it is a semantic consequence of "
     "the premises above it and of the assumptions of the subproofs around it. In particular every line outside subproofs of an accepted proof "
     "without premises (and without assumptions outside subproofs) is a tautology.",
     ["inputs", "programs"], "all proofs: any lines, rules, citations and nesting of subproofs, right or wrong",
     "There are no tests of proofs at all; soundness quantifies over all wrong proofs.",
     [ND, "pylogics_modalities/deduction/fol/base.py"],
     [("rule checks", ND), ("proof structure", "pylogics_modalities/deduction/fol/base.py")], ["check(proof)"])

prop("C13", "Each propositional rule accepts exactly its instances",
     "A proof whose lines each instantiate their rule - premise, assumption, copy, and/or/implication/negation introductions and eliminations, bottom "
     "elimination, double negation, modus tollens - citing earlier visible lines of the right form in the customary order (phi and phi->psi; phi->psi and ~psi; "
     "phi and ~phi; a disjunction and its two subproofs) is accepted. Formulae are compared as written, up to what the operators &, |, ~ and >> make of them; "
     "rules numbered 1 and 2 speak of the first and the second operand. "
     "A line that is no instance of its rule (another formula, connective, operand or kind of citation) makes the proof be refused.",
     ["inputs", "programs"], "all propositional proofs, right or with one wrong line, at any size and nesting",
     "There are no tests of proofs at all; one-line defects in any of some twenty rules must be told from valid uses.",
     [ND], [("rule checks", ND)], ["check(proof)"])

prop("C14", "Subproofs are respected: scoping and discharge",
     "A citation of a later line, the line itself, a line that does not exist or one inside a closed subproof provides nothing: a proof is refused when the other citations do not justify the line. "
     "So it is when a rule that discharges a subproof is given lines, or a "
     "subproof where lines are needed, or when a subproof is cited that does not open with the formula discharged and end with the conclusion required. "
     "Lines of enclosing open subproofs and of the main proof can be cited from inside; "
     "a premise is not accepted inside a subproof and an assumption only as its first line.",
     ["inputs", "programs"], "all proofs: all nestings of subproofs, and all citations from any line",
     "There are no tests of proofs at all; each forbidden citation is one among arbitrarily many combinations of nesting.",
     [ND, "pylogics_modalities/deduction/fol/base.py"],
     [("lookup of cited rows", ND), ("proof structure", "pylogics_modalities/deduction/fol/base.py")], ["check(proof)"])

prop("C15", "Accepted first-order proofs are sound",
     "If the checker accepts a first-order proof, every line is true in every structure and assignment that makes the premises above it and the assumptions around it "
     "true (the terms that subproofs introduce being arbitrary): quantifiers are instantiated without capture of variables, universal generalisation is over a term about which nothing is "
     "assumed, and the witness of an existential elimination is fresh and does not escape its subproof.",
     ["inputs", "programs"], "all first-order proofs, right or wrong, of any size and nesting, checked against finite structures",
     "There are no tests of proofs at all; unsoundness needs particular combinations of terms, scopes and nested quantifiers.",
     [ND, "pylogics_modalities/syntax/fol.py"],
     [("quantifier rules and substitution", ND), ("terms and equality", "pylogics_modalities/syntax/fol.py")], ["check(proof)"])

prop("C16", "Valid quantifier rule instances are accepted",
     "A first-order proof in which every line is a proper instance of its rule - in particular universal and existential introduction and elimination, with "
     "substitution reaching every free occurrence also under other quantifiers and connectives, and with different witnesses in nested subproofs - is accepted. A wrong instance (the wrong "
     "variable or term replaced, some occurrences left out) is refused.",
     ["inputs", "programs"], "all first-order proofs, with any predicates, terms, quantifier nesting",
     "There are no tests of proofs at all.",
     [ND, "pylogics_modalities/syntax/fol.py"], [("quantifier rules and substitution", ND)], ["check(proof)"])

prop("C17", "Ill-formed constructions are refused",
     "Constructors refuse with an exception what is not a formula: the wrong number of operands, operands that are no formulae, operands of different logics "
     "in a conjunction or disjunction, regular expressions under boolean operators, regular expressions and formulae exchanged under the dynamic operators, quantification "
     "over what is no variable, predicates and functions applied to the wrong number of terms or to non-terms. Well-formed constructions never fail.",
     ["inputs"], "all operators with all combinations of operands, well-formed or not, also those that would simplify away",
     "The tests try a few ill-typed calls; each operator has many ways to be misused, and simplification could hide a misuse.",
     [B, "pylogics_modalities/syntax/fol.py", "pylogics_modalities/syntax/ldl.py", "pylogics_modalities/helpers/misc.py"],
     [("checks in the metaclasses and constructors", B)], ["constructors, &, |, ~, >>"])

prop("C18", "Abbreviations, constants and negation denote what they say",
     "The abbreviations for the first, last and end instants and for the constants of each temporal logic hold on exactly the finite traces and instants that they "
     "name, and making a boolean gives the constant of the asked logic. The negation of a formula holds on exactly the traces or valuations on which "
     "the formula does not, and negating twice gives back the formula; the infix operators give what the constructors of negation, conjunction and disjunction give, "
     "a >> b being the disjunction of the negation of a with b.",
     ["inputs"], "all formulae and all finite traces, including those of length one",
     "The tests compare the abbreviations with a fixed tree (for one of them a wrong one); that they denote the instants they name is about all traces.",
     ["pylogics_modalities/syntax/ltl.py", "pylogics_modalities/syntax/pltl.py", "pylogics_modalities/syntax/ldl.py", B],
     [("Last, End, Start, and the constants", "pylogics_modalities/syntax/*.py"), ("negation", B + ": Not, TrueFormula, FalseFormula")],
     ["Last(), End(), Start(), make_boolean, ~, &, |, >>"])

prop("C19", "Proof checking is a pure function of the proof",
     "Checking a proof changes neither the proof nor the formulae in it, and gives the same verdict whenever and however often it is "
     "repeated, whatever other proofs were built or checked before. Consistently renaming the rows, or building the same proof again "
     "from fresh formulae written the same, or copying or pickling it, does not change the verdict.",
     ["inputs", "histories"], "all proofs, right or wrong, and all sequences of checks in one process",
     "There are no tests of proofs at all; dependence on earlier checks or on object identity needs sequences of calls.",
     [ND, "pylogics_modalities/deduction/fol/base.py"], [("proof structure and checker", ND)], ["check(proof)"])

prop("C20", "Several calls at a time do not disturb each other",
     "A call that is made while other threads make calls - building, parsing, printing, comparing, hashing, evaluating or copying formulae, checking "
     "proofs, with formulae, parsers and checkers shared or not, or resetting the cache - returns what it would return alone, and no call fails because of another. "
     "Afterwards the cache lists, once each, every formula whose building began after the last reset.",
     ["schedules", "histories"], "all schedules of any number of threads, switched at any instruction of the library, and all calls they can make",
     "No test uses threads; what is left half done when a thread is interrupted shows at particular instructions only.",
     [B, "pylogics_modalities/helpers/cache_hash.py", "pylogics_modalities/parsers/base.py", ND, "pylogics_modalities/semantics/pl.py"],
     [("hash consing metaclass and cache", B + ": _HashConsing"), ("memoised hashes", "pylogics_modalities/helpers/cache_hash.py"),
      ("parser singletons", "pylogics_modalities/parsers/*.py"), ("checker instances", ND)],
     ["the outcome of each call; get_cache_context"],
     [("hash consing context", "formulae known, by logic", B)])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
