"""What the specification sees of the library: formulae as nested lists.

Only the public interface of the library is used, so that the way it is
written does not matter.
"""
import copy
import pickle

from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pl, parse_pltl
from pylogics_modalities.syntax import base, fol, ldl, ltl, pl, pltl
from pylogics_modalities.syntax.base import Logic
from pylogics_modalities.utils.to_string import to_string

PARSE = {"pl": parse_pl, "ltl": parse_ltl, "pltl": parse_pltl, "ldl": parse_ldl}
LOGIC = {"pl": Logic.PL, "ltl": Logic.LTL, "pltl": Logic.PLTL, "ldl": Logic.LDL,
         "fol": Logic.FOL, "re": Logic.RE}
LOGIC_NAME = {v: k for k, v in LOGIC.items()}
ATOM = {"pl": pl.Atomic, "ltl": ltl.Atomic, "pltl": pltl.Atomic}

NARY = {
    base.And: "and", base.Or: "or", base.Implies: "implies", base.Equivalence: "equivalence",
    ltl.Until: "until", ltl.Release: "release", ltl.WeakUntil: "weak_until",
    ltl.StrongRelease: "strong_release", pltl.Since: "since", pltl.Triggers: "triggers",
    ldl.Seq: "seq", ldl.Union: "union",
}
UNARY = {
    base.Not: "not", ltl.Next: "next", ltl.WeakNext: "weak_next", ltl.Eventually: "eventually",
    ltl.Always: "always", pltl.Before: "before", pltl.WeakBefore: "weakbefore",
    pltl.Once: "once", pltl.Historically: "historically", ldl.Star: "star", ldl.Test: "test",
    ldl.Prop: "prop",
}
MODAL = {ldl.Diamond: "diamond", ldl.Box: "box"}
QUANT = {fol.ForAll: "forall", fol.Exists: "exists"}
CTOR = {v: k for d in (NARY, UNARY, MODAL, QUANT) for k, v in d.items()}
PROPCONST = {(ltl.PropositionalTrue, "ltl"): "true", (ltl.PropositionalFalse, "ltl"): "false",
             (pltl.PropositionalTrue, "pltl"): "true", (pltl.PropositionalFalse, "pltl"): "false"}


class NotAFormula(Exception):
    """The object is none of the formulae of the specification."""


def codes(s):
    return [ord(c) for c in s]


def text(cs):
    return "".join(map(chr, cs))


def logic_of(f):
    if isinstance(f, fol.Variable):
        return "var"
    if isinstance(f, fol.Term):
        return "term"
    return LOGIC_NAME[f.logic]


def dump(f):
    """Formula (or term) as nested lists; NotAFormula if it is none."""
    t = type(f)
    try:
        if t is base.TrueFormula:
            return ["tt"]
        if t is base.FalseFormula:
            return ["ff"]
        lg = None
        if isinstance(f, (base.TrueFormula, base.FalseFormula)):
            return [PROPCONST[t, LOGIC_NAME[f.logic]]]
        if t in UNARY:
            return [UNARY[t], dump(f.argument)]
        if t in NARY:
            ops = [dump(o) for o in f.operands]
            if len(ops) < 2:
                raise NotAFormula(f"{t.__name__} of {len(ops)} operands")
            return [NARY[t]] + ops
        if t in MODAL:
            return [MODAL[t], dump(f.regular_expression), dump(f.tail_formula)]
        if t in QUANT:
            return [QUANT[t], dump(f.variable), dump(f.formula)]
        if t is fol.Predicate:
            return ["pred", codes(f.name)] + [dump(o) for o in f.operands]
        if t is fol.Variable:
            return ["var", codes(f.name)]
        if t is fol.Constant:
            return ["const", codes(f.name)]
        if t is fol.Function:
            return ["fun", codes(f.name)] + [dump(o) for o in f.operands]
        if t in ATOM.values():
            if not isinstance(f.name, str):
                raise NotAFormula("the name of an atom is no string")
            if ATOM[LOGIC_NAME[f.logic]] is not t:
                raise NotAFormula("an atom of the wrong logic")
            return ["atom", codes(f.name)]
    except NotAFormula:
        raise
    except Exception as e:
        raise NotAFormula(f"{t.__name__}: {type(e).__name__} {e}")
    raise NotAFormula(t.__name__)


def answer(call, convert=dump):
    """The outcome of a call, as the specification reads it, and the value."""
    try:
        value = call()
    except (KeyboardInterrupt, SystemExit):
        raise
    except Timeout:
        return ["bad", "no answer"], None
    except RecursionError:
        return ["bad", "RecursionError"], None
    except Exception as e:
        return ["err", type(e).__name__], None
    try:
        return ["ok", convert(value)], value
    except Timeout:
        return ["bad", "no answer"], None
    except NotAFormula as e:
        return ["bad", "not a formula: " + ascii(str(e))[:80]], None


class Timeout(BaseException):
    """The library gave no answer in time."""


def build(d, lg):
    """The formula that nested list d denotes, by means of the constructors."""
    t = d[0]
    if t in ("tt", "ff"):
        return base.make_boolean(t == "tt", logic=LOGIC[lg])
    if t in ("true", "false"):
        m = {"ltl": ltl, "pltl": pltl}[lg]
        return m.PropositionalTrue() if t == "true" else m.PropositionalFalse()
    if t == "atom":
        return ATOM[lg](text(d[1]))
    if t in ("diamond", "box"):
        return CTOR[t](build(d[1], "re"), build(d[2], "ldl"))
    if t in ("forall", "exists"):
        return CTOR[t](term(d[1]), build(d[2], lg))
    if t == "pred":
        return fol.Predicate(text(d[1]), [term(x) for x in d[2:]])
    sub = {"prop": "pl", "test": "ldl"}.get(t, lg)
    return CTOR[t](*[build(x, sub) for x in d[1:]])


def term(d):
    if d[0] == "var":
        return fol.Variable(text(d[1]))
    if d[0] == "const":
        return fol.Constant(text(d[1]))
    return fol.Function(text(d[1]), [term(x) for x in d[2:]])
