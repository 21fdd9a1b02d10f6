"""Calls that go wrong midway: what comes after them goes on as if they had not been made."""
import obs
from obs import base, fol, ldl, ltl, pl, pltl

TEXTS = ["(a & b", "((((a", "a & & b", "a -> (b |", "a)", "(a) b", "a <-> ((b)) )", '"a', "a ^ b", "~(a & ~(b", "", "   ",
         "X[!] (a U", "F(G(X a)", "G F", "a U (b R", "a U U b", "X X X", "(a U b) )", "F (a S b)", "Y (O (H a", "a S (b",
         "<a>", "<a tt", "<a*", "<(a;b)* + c", "[a? ] tt", "<<a>tt?; [b]ff", "[ [ a ] tt? ] tt)", "<a;b> (tt & [c]", "<tt> a"]


def _print():
    P, Q = (fol.Predicate(n, [fol.Variable("x")]) for n in "PQ")
    f = base.And(P, base.Not(Q))
    return [lambda: P, lambda: base.Not(P), lambda: f, lambda: base.Or(Q, base.Implies(Q, Q, f)),
            lambda: base.Equivalence(base.Not(f), fol.ForAll(fol.Variable("x"), f))]


def _evaluate():
    a, b = ltl.Atomic("a"), ltl.Next(ltl.Atomic("b"))
    return [lambda: b, lambda: base.Implies(a, b), lambda: base.Implies(a, a, base.Not(b)), lambda: base.And(a, base.Not(base.Or(a, b))),
            lambda: base.Equivalence(b, base.Not(a)), lambda: pltl.Since(pltl.Atomic("a"), pltl.Atomic("b"))]


def _build():
    a, b = pl.Atomic("a"), ltl.Atomic("b")
    return [lambda: base.And(a, b), lambda: base.And(), lambda: base.Or(a, base.Not(a), None), lambda: base.And(a, "b"),
            lambda: base.Not(None), lambda: base.Implies(a), lambda: base.Implies(), lambda: ltl.Until(b), lambda: ltl.Next(),
            lambda: ldl.Seq(ldl.Prop(a), b),
            lambda: ldl.Diamond(a, b), lambda: fol.ForAll(a, a), lambda: fol.Exists(fol.Variable("x"), None),
            lambda: fol.Predicate("P", [a]), lambda: fol.Predicate("P", [fol.Variable("x")])(), lambda: pl.Atomic("A b"),
            lambda: ltl.Atomic(""), lambda: pltl.Atomic("X"), lambda: base.Or(a, base.And(a, b)), lambda: a & b, lambda: ~a | None]


def _check():
    from pylogics_modalities.deduction.fol.nd import NaturalDeduction as ND, NaturalDeductionRule as R
    a, b, c = (pl.Atomic(x) for x in "abc")
    x = fol.Variable("x")
    P = fol.Predicate("P", [x])
    inner = lambda last: [1, base.And(a, b), [R.premise], 2, [a, [R.assumption], 3, [b, [R.assumption], 4, *last]]]
    wrongs = [lambda: inner([c, [R.and_e1, 1]]), lambda: inner([c, [R.copy, 9]]), lambda: inner([base.And(a, b), [R.and_i, 2]]),
              lambda: inner([c, ["no rule", 1]]), lambda: inner([c, []]), lambda: inner([None, [R.copy, 1]]),
              lambda: [1, a, [R.premise], 2, [x, 3, P, [R.assumption], 4, c, [R.forall_e, 3]], 5, c, [R.copy, 1]],
              lambda: [1, fol.ForAll(x, P), [R.premise], 2, [x, 3, [x, 4, P, [R.forall_e, 1]]]], lambda: [1], lambda: [1, []]]
    return [lambda w=w: ND.check(ND.Proof(w())) for w in wrongs]


def _copy():
    import copy
    import pickle
    a = pl.Atomic("a")
    return [lambda: pickle.dumps([base.Not(a), base.And(a, pl.Atomic("b")), lambda: 0]),
            lambda: copy.deepcopy([base.And(a, base.Not(pl.Atomic("b"))), (k for k in "a")])]


def _compare():
    a = pl.Atomic("a")
    f = base.And(a, base.Not(pl.Atomic("b")))
    return [lambda: f < a, lambda: f.operands[7], lambda: a.operands, lambda: {f: 1}[base.Not(f)], lambda: f(a), lambda: f.logic(),
            lambda: f & 1, lambda: [f].index(a)]


def calls():
    """(what, the call)"""
    from pylogics_modalities.semantics.pl import evaluate_pl

    def lazily(what, make, use):
        for k in range(40):
            yield f"{what} {k}", lambda k=k: use(make()[k % len(make())])

    out = [(f"parse {lg} {t!r}", lambda p=p, t=t: p(t)) for t in TEXTS for lg, p in obs.PARSE.items()]
    out += lazily("print", _print, lambda f: obs.to_string(f()))
    out += lazily("evaluate", _evaluate, lambda f: evaluate_pl(f(), {"a"}))
    for what, make in (("build", _build), ("check", _check), ("copy", _copy), ("use", _compare)):
        out += lazily(what, make, lambda f: f())
    return out


def about(f, k):
    """(what, a call that goes wrong with the formula f)"""
    import copy
    import pickle
    from pylogics_modalities.semantics.pl import evaluate_pl

    one = [("evaluate in a list", lambda: evaluate_pl(f, ["a"])), ("evaluate in None", lambda: evaluate_pl(f, None)),
           ("and with None", lambda: base.And(f, None)), ("not of two", lambda: base.Not(f, f)), ("or with a text", lambda: f | "a"),
           ("pickled with a function", lambda: pickle.dumps([f, lambda: 0])), ("copied with a generator", lambda: copy.deepcopy([f, (c for c in "a")])),
           ("parsed, and more", lambda: obs.PARSE["pl"](obs.to_string(f) + " )")), ("implies nothing", lambda: f >> None),
           ("less than itself", lambda: f < f), ("under a quantifier", lambda: fol.Exists(f, f)),
           ("parsed in part", lambda: obs.PARSE["ltl"]("(" + obs.to_string(f)))]
    return one[k % len(one)]
