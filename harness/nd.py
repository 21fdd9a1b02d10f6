"""Proofs of natural deduction: items, their mutations, and the real ones.

An item is ["f", row, formula, rule, cites], ["t", row, term] or
["b", row, items], as in spec/NatDed.tla. Formulae and terms are nested lists.
"""
import copy
import json

import obs
from obs import base, codes

from pylogics_modalities.deduction.fol import NaturalDeduction

RULES = ["and_e1", "and_e2", "and_i", "assumption", "bot_e", "copy", "dneg_e", "dneg_i", "exists_e", "exists_i",
         "forall_e", "forall_i", "impl_e", "impl_i", "MT", "neg_e", "neg_i", "or_e", "or_i1", "or_i2", "premise"]
PL_RULES = [r for r in RULES if r[:6] not in ("exists", "forall")]


# ------------------------------------------------------- formulae as lists
FF, TT = ["ff"], ["tt"]


def key(f):
    return repr(f)


def atom(n):
    return ["atom", codes(n)]


def is_term(d):
    return d[0] in ("var", "const", "fun")


def form(d):
    """The formula; the constants are those of propositional logic."""
    if d[0] == "tt":
        return base.TrueFormula()
    if d[0] == "ff":
        return base.FalseFormula()
    if d[0] == "atom":
        return obs.ATOM["pl"](obs.text(d[1]))
    if d[0] in ("forall", "exists"):
        return obs.CTOR[d[0]](obs.term(d[1]), form(d[2]))
    if d[0] == "pred":
        return obs.build(d, "fol")
    return obs.CTOR[d[0]](*[form(x) for x in d[1:]])


def make(op, *ops):
    """What the library makes of op over formulae."""
    return obs.dump(form([op] + list(ops)))


def neg(f):
    return make("not", f)


def arrow(f, g):
    return make("or", neg(f), g)


def conj(f, g):
    return make("and", f, g)


def disj(f, g):
    return make("or", f, g)


def subst(f, x, t):
    """f[t/x], no care taken of captures."""
    if f == x:
        return t
    if f[0] in ("tt", "ff", "atom", "var", "const"):
        return f
    if f[0] in ("pred", "fun"):
        return f[:2] + [subst(u, x, t) for u in f[2:]]
    if f[0] in ("forall", "exists"):
        return f if f[1] == x else [f[0], f[1], subst(f[2], x, t)]
    return make(f[0], *[subst(g, x, t) for g in f[1:]])


def replace_some(rng, f, t, u):
    """f with some occurrences of term t (any, also bound) replaced by u."""
    if f == t:
        return u if rng.random() < 0.6 else f
    if f[0] in ("tt", "ff", "atom", "var", "const"):
        return f
    if f[0] in ("pred", "fun"):
        return f[:2] + [replace_some(rng, g, t, u) for g in f[2:]]
    if f[0] in ("forall", "exists"):
        v = replace_some(rng, f[1], t, u)
        return [f[0], v if v[0] == "var" else f[1], replace_some(rng, f[2], t, u)]
    return make(f[0], *[replace_some(rng, g, t, u) for g in f[1:]])


def subformulae(f):
    out = [f]
    if f[0] in ("forall", "exists"):
        out += subformulae(f[2])
    elif f[0] not in ("tt", "ff", "atom", "pred"):
        for g in f[1:]:
            out += subformulae(g)
    return out


def terms_of(f):
    if is_term(f):
        return [f] + [u for g in f[2:] if f[0] == "fun" for u in terms_of(g)]
    if f[0] == "pred":
        return [u for g in f[2:] for u in terms_of(g)]
    if f[0] in ("tt", "ff", "atom"):
        return []
    if f[0] in ("forall", "exists"):
        return [f[1]] + terms_of(f[2])
    return [u for g in f[1:] for u in terms_of(g)]


# ---------------------------------------------------------- items and rows
def walk(items):
    for it in items:
        yield it
        if it[0] == "b":
            yield from walk(it[2])


def sequences(items):
    """All lists of items: the proof and its subproofs."""
    yield items
    for it in items:
        if it[0] == "b":
            yield from sequences(it[2])


def lines(items):
    return [it for it in walk(items) if it[0] == "f"]


def rows(items):
    return [it[1] for it in walk(items)]


def tidy(items):
    """Without empty subproofs; a subproof is labelled by its first row."""
    out = []
    for it in items:
        if it[0] == "b":
            sub = tidy(it[2])
            if sub:
                out.append(["b", sub[0][1], sub])
        else:
            out.append(it)
    return out


def plausible(items):
    """Rows are unique, but for the term and the line that open a subproof."""
    seen = set()
    for seq in sequences(items):
        for j, it in enumerate(seq):
            if it[0] == "b":
                continue
            if it[0] == "f" and j and seq[j - 1][0] == "t" and seq[j - 1][1] == it[1] and j == 1:
                continue
            if it[1] in seen:
                return False
            seen.add(it[1])
    return True


def renamed(items, name):
    out = []
    for it in items:
        if it[0] == "f":
            out.append(["f", name(it[1]), it[2], it[3], [name(c) for c in it[4]]])
        elif it[0] == "t":
            out.append(["t", name(it[1]), it[2]])
        else:
            out.append(["b", name(it[1]), renamed(it[2], name)])
    return out


def translated(d, to):
    """A formula or term with other names: to maps (kind, name) to names."""
    t = d[0]
    if t in ("tt", "ff"):
        return d
    if t in ("atom", "var", "const"):
        return [t, codes(to(t, obs.text(d[1])))]
    if t in ("pred", "fun"):
        return [t, codes(to(t, obs.text(d[1])))] + [translated(x, to) for x in d[2:]]
    return [t] + [translated(x, to) for x in d[1:]]


def spoken(items, to):
    """A proof with other names."""
    out = []
    for it in items:
        if it[0] == "f":
            out.append(["f", it[1], translated(it[2], to), it[3], it[4]])
        elif it[0] == "t":
            out.append(["t", it[1], translated(it[2], to)])
        else:
            out.append(["b", it[1], spoken(it[2], to)])
    return out


ALIKE = {"atom": [["a", "aa", "a_", "a1", "a-a"], ["p", "pP", "pp", "p0", "p00"], ['"a"', "a", '"a "', '" a"', '"A"'],
                  ["true", "false", '"true"', '"false"', "tt"], ["a-b", '"a b"', '"a, b"', "ab", '"(and a b)"'],
                  ["x", "xX", "x_x", "y", "xy"], ["aB", "ab", "a_b", "aBb", "abb"], ["rain", "raiN", "rains", "rAin", "ra-in"], ['"~a"', "a", '"~ a"', '"not a"', "not-a"],
                  ["_", "__", "_0", "_a", "a"], ['"(a)"', '"a"', '"a)"', '"(a"', "a"]],
         "pred": [["P", "p", "PP", "P1", "Pp"], ["Q", "q", "QQ", "Q1", "Qx"], ["Likes", "likes", "Like", "LIKES", "Lik"], ["P", "Q", "PQ", "QP", "PP"]],
         "var": [["x", "X", "xx", "x1", "x_"], ["y", "yy", "y0", "Y", "yx"], ["v1", "v", "v11", "v2", "v12"]],
         "const": [["k", "K", "kk", "k1", "k_"], ["c1", "c", "c11", "c2", "c12"], ["tom", "tommy", "Tom", "to", "om"]],
         "fun": [["f", "F", "ff", "f1", "g"], ["g", "gg", "f", "fg", "gf"]]}


WORDS = {"atom": ["true", "false", "tt", "ff", "last", "end", "start", "first", "not", "and", "or", "x", "none", "false-", "f"],
         "pred": ["True", "False", "true", "false", "Tt", "Ff", "TrueFormula", "FalseFormula", "Not", "And", "None", "Forall", "Bottom"],
         "var": ["true", "x", "forall", "v", "y", "z", "w"], "const": ["false", "c", "k", "none", "d", "exists"],
         "fun": ["f", "true", "false", "not", "and", "g"]}
WORDS["atom"] = [n for n in WORDS["atom"] if n[-1] != "-"]


def lengthy(rng, t):
    """Names of many characters, which differ somewhere."""
    n = rng.choice([20, 40, 70, 130, 200])
    where = rng.choice([n // 2, n // 2, n - 1, n // 3, 2])
    first = "P" if t == "pred" else "p"
    return [(first + "a" * (n - 1))[:where] + c + "b" * (n - 1 - where) for c in "cdefghijklm"]


def spelling(rng):
    """Other names for those of a proof: different ones, that look alike."""
    pools = {}
    how = rng.random()
    for t, choices in ALIKE.items():
        pools[t] = list(rng.choice(choices)) if how < 0.7 else list(WORDS[t]) if how < 0.85 else lengthy(rng, t)
        rng.shuffle(pools[t])
    if how >= 0.7:      # no name is both of a variable and of a constant
        pools["const"] = [n + "c" if how >= 0.85 else n for n in pools["const"] if how >= 0.85 or n not in pools["var"]]
    fixed = {}

    def to(t, n):
        if (t, n) not in fixed:
            fixed[t, n] = pools[t].pop() if pools[t] else f"{t[0]}{t[0]}{len(fixed)}"
        return fixed[t, n]
    return to


def misspelt(rng, items):
    """A proof with one symbol of one line spelt otherwise."""
    items = json.loads(json.dumps(items))       # no formula is shared
    ls = lines(items)
    places = []

    def go(d):
        if d[0] in ("atom", "pred", "var", "const", "fun", "ff", "ff", "tt"):
            places.extend([d] * (3 if d[0] in ("ff", "tt") else 1))
        for x in d[2 if d[0] in ("pred", "fun") else 1:]:
            if isinstance(x, list) and x and isinstance(x[0], str):
                go(x)
    for it in ([rng.choice(ls)] if ls else []) + [x for x in walk(items) if x[0] == "t" and rng.random() < 0.3]:
        go(it[2])
    if not places:
        return None
    d = rng.choice(places)
    if d[0] in ("ff", "tt"):    # a symbol that is called as the constant is
        kind = "pred" if any(p[0] == "pred" for p in places) or any(x[2][0] == "pred" for x in walk(items) if x[0] == "f") else "atom"
        d[:] = [kind, codes(rng.choice(["false", "false", "ff"] if d[0] == "ff" else ["true", "true", "tt"]))]
        return items
    n = obs.text(d[1])
    if d[0] in ("atom", "pred") and n in ("true", "false", "tt", "ff") and rng.random() < 0.5:
        d[:] = ["tt"] if n in ("true", "tt") else ["ff"]
        return items
    near = [m for p in ALIKE[d[0]] + [WORDS[d[0]]] if n in p for m in p if m != n]
    if len(n) > 19:
        where = rng.choice([len(n) // 2, len(n) // 2, len(n) - 2, len(n) // 3])
        near = [n[:where] + ("z" if n[where] != "z" else "y") + n[where + 1:]]
    near += [m for m in (n.lower(), n.upper(), n.swapcase(), n + n[-1]) if m != n and d[0] != "atom"] * 2
    near += [m for m in (n[0] + n[1:].swapcase(), n + "_") if m != n and d[0] == "atom" and n[0] != '"'] * 2
    if not near:
        return None
    new = codes(rng.choice(near))
    if d[0] in ("var", "const"):    # no name is both of a variable and of a constant
        taken = {repr(t[1]) for x in walk(items) if x[0] != "b" for t in ([x[2]] if x[0] == "t" else terms_of(x[2]))
                 if t[0] != d[0] and t[0] in ("var", "const")}
        if repr(new) in taken:
            return None
    d[1] = new
    return items


def scattered(rng, items):
    """Other numbers for the rows: in no order, not all positive."""
    all_ = sorted({r for r in rows(items)} | {c for it in lines(items) for c in it[4]}, key=str)
    numbers = rng.sample(range(-3 * len(all_) - 3, 5 * len(all_) + 3), len(all_))
    if rng.random() < 0.3 and 0 not in numbers:
        numbers[rng.randrange(len(all_))] = 0
    return renamed(items, dict(zip(all_, numbers)).__getitem__)


# ----------------------------------------------------------- real proofs
def rule_of(name):
    return getattr(NaturalDeduction.rule, name, name)


def real(items, inner=False):
    """The list that a user writes."""
    out = []
    R = NaturalDeduction.rule
    j = 0
    while j < len(items):
        it = items[j]
        first = inner and j == 0
        if it[0] == "b":
            out += ([] if first else [it[1]]) + [real(it[2], True)]
        elif it[0] == "t":
            nxt = items[j + 1] if j + 1 < len(items) else None
            if first and nxt and nxt[0] == "f" and nxt[1] == it[1]:
                out += [obs.term(it[2]), form(nxt[2]), (rule_of(nxt[3]),) + tuple(nxt[4])]
                j += 1
            else:
                out += ([] if first else [it[1]]) + [obs.term(it[2]), (R.assumption,)]
        else:
            out += ([] if first else [it[1]]) + [form(it[2]), (rule_of(it[3]),) + tuple(it[4])]
        j += 1
    return out


def snapshot(x):
    """A proof, or the list it was made of, in full."""
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snapshot(y) for y in x]
    if isinstance(x, base.Formula) or type(x).__module__.endswith("syntax.fol"):
        return obs.dump(x)
    return str(x)


# ------------------------------------------------------------- mutations
def mutate(rng, items, theory="pl"):
    items = copy.deepcopy(items)
    for _ in range(rng.choice([1, 1, 1, 1, 2])):
        items = tidy(mutate1(rng, items, theory))
        if not items:
            return None
    return items if plausible(items) else None


def odd_formula(rng, items, f, theory):
    """A formula near f, or near the others of the proof."""
    fs = [it[2] for it in lines(items)]
    r = rng.random()
    g = rng.choice(fs)
    if r < 0.2:
        return rng.choice(subformulae(g))
    if r < 0.3:
        return neg(f)
    if r < 0.4 and f[0] in ("and", "or") and len(f) >= 3:
        ops = f[1:]
        rng.shuffle(ops)
        return make(f[0], *ops)
    if r < 0.5 and f[0] in ("and", "or") and len(f) >= 3:
        return make("or" if f[0] == "and" else "and", *f[1:])
    if r < 0.58 and f[0] in ("and", "or"):
        k = rng.randrange(1, len(f))
        return make(f[0], *(f[1:k] + [rng.choice([neg(f[k]), g])] + f[k + 1:]))
    ts = [t for h in fs for t in terms_of(h)]
    if r < 0.85 and ts:
        t = rng.choice(terms_of(f) or ts)
        return replace_some(rng, f, t, rng.choice(ts))
    if r < 0.93 and f[0] in ("forall", "exists"):
        return rng.choice([["exists" if f[0] == "forall" else "forall", f[1], f[2]], f[2]])
    return g


def mutate1(rng, items, theory):
    ls = lines(items)
    allrows = rows(items)
    fresh = max([r for r in allrows if isinstance(r, int)] + [0]) + 1
    it = rng.choice(ls) if ls else None
    r = rng.random()
    rules = PL_RULES if theory == "pl" else RULES
    if it is None:
        return items
    if r < 0.17:
        it[2] = odd_formula(rng, items, it[2], theory)
    elif r < 0.29:
        it[3] = rng.choice(rules)
    elif r < 0.48 and it[4]:
        k = rng.randrange(len(it[4]))
        it[4][k] = rng.choice(allrows + [fresh + 7, it[1]])
    elif r < 0.53 and len(it[4]) > 1:
        i, j = rng.sample(range(len(it[4])), 2)
        it[4][i], it[4][j] = it[4][j], it[4][i]
    elif r < 0.56 and it[4]:
        del it[4][rng.randrange(len(it[4]))]
    elif r < 0.58:
        it[4].insert(rng.randrange(len(it[4]) + 1), rng.choice(allrows))
    elif r < 0.62:
        seq = rng.choice([s for s in sequences(items) if s])
        del seq[rng.randrange(len(seq))]
    elif r < 0.68:          # the last line of a subproof, outside of it
        for seq in sequences(items):
            for j, b in enumerate(seq):
                if b[0] == "b" and len(b[2]) > 1 and rng.random() < 0.6:
                    out = b[2].pop()
                    seq.insert(j + 1, out)
                    return items
    elif r < 0.72:          # the lines of a subproof, without it
        for seq in sequences(items):
            for j, b in enumerate(seq):
                if b[0] == "b" and rng.random() < 0.6:
                    seq[j:j + 1] = b[2]
                    return items
    elif r < 0.76:          # lines, in a subproof
        seq = rng.choice([s for s in sequences(items) if s])
        i = rng.randrange(len(seq))
        j = rng.randrange(i, len(seq))
        seq[i:j + 1] = [["b", seq[i][1], seq[i:j + 1]]]
    elif r < 0.80:
        seq = rng.choice([s for s in sequences(items) if s])
        if len(seq) > 1:
            i = rng.randrange(len(seq) - 1)
            seq[i], seq[i + 1] = seq[i + 1], seq[i]
    elif r < 0.84 and theory != "pl":      # another term
        ts = [x for x in walk(items) if x[0] == "t"]
        cand = [t for l in ls for t in terms_of(l[2])]
        if ts and cand:
            rng.choice(ts)[2] = rng.choice(cand)
    elif r < 0.88 and theory != "pl":      # one term for another one throughout
        cand = [t for l in ls for t in terms_of(l[2])] + [x[2] for x in walk(items) if x[0] == "t"]
        if cand:
            t, u = rng.choice(cand), rng.choice(cand)
            for x in walk(items):
                if x[0] == "f":
                    x[2] = obs.dump(form(replace_all(x[2], t, u)))
                elif x[0] == "t" and x[2] == t:
                    x[2] = u
    else:                   # one more line
        seq = rng.choice([s for s in sequences(items) if s] + [items] * 3)
        rule = rng.choice(rules)
        n = {"premise": 0, "assumption": 0, "or_e": 3}.get(rule, rng.choice([1, 1, 2]))
        new = ["f", fresh, odd_formula(rng, items, it[2], theory), rule, [rng.choice(allrows) for _ in range(n)]]
        seq.insert(rng.choice([len(seq), rng.randint(0, len(seq))]), new)
    return items


def replace_all(f, t, u):
    if f == t:
        return u
    if f[0] in ("tt", "ff", "atom", "var", "const"):
        return f
    if f[0] in ("pred", "fun"):
        return f[:2] + [replace_all(g, t, u) for g in f[2:]]
    if f[0] in ("forall", "exists"):
        return [f[0], u if f[1] == t and u[0] == "var" else f[1], replace_all(f[2], t, u)]
    return [f[0]] + [replace_all(g, t, u) for g in f[1:]]
