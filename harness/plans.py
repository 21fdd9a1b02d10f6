"""What is done with the library for each property: the sessions."""
import copy
import itertools
import pickle

import gen
import nd
import ndplans
import obs
import race
from obs import base, codes, fol

LGS = ["pl", "ltl", "pltl", "ldl"]


def leafset(lg):
    a, b = ["atom", codes("a")], ["atom", codes("b")]
    return {"pl": [("pl", a), ("pl", b), ("pl", ["tt"]), ("pl", ["ff"])],
            "ltl": [("ltl", x) for x in (a, b, ["tt"], ["ff"], ["true"], ["false"])],
            "pltl": [("pltl", x) for x in (a, b, ["tt"], ["ff"], ["true"], ["false"])],
            "ldl": [("ldl", ["tt"]), ("ldl", ["ff"]), ("pl", a), ("re", ["prop", a]), ("re", ["prop", b])],
            }[lg]


def replay(s, lg, script, share=False):
    """Replay a session that TLC enumerated; or only its last step (share), when
    the session before it began alike."""
    base_ = (lg, repr(script[:-1]))
    if share and s.shared == base_ and len(s.heap) < 400 and not s.broken():
        return s.build(script[-1]["op"], script[-1]["args"])
    s.new()
    for l, d in leafset(lg):
        s.leaf(l, d)
    for step in script:
        if s.broken():
            return
        s.build(step["op"], step["args"])
    if share:
        s.shared = base_
    return len(s.heap)


# -------------------------------------------------------- C01: evaluation
def interpretations(rng, names, k):
    names = sorted(names)
    for _ in range(k):
        how = rng.choice(["set", "dict", "dict", "same set", "same dict", "ordered", "default", "subset", "subdict"])
        items = []
        for n in names + ["zz"] * (rng.random() < 0.2):
            r = rng.random()
            if r < 0.45:
                items.append((n, True))
            elif r < 0.75 and "set" not in how:
                items.append((n, False))
        if rng.random() < 0.03:     # a great many symbols that do not matter
            items += [(f"{rng.choice('am_z')}{j}", rng.random() < 0.8 or "set" in how) for j in range(rng.choice([9, 40, 150, 400]))
                      if f"a{j}" not in names]
            items = list(dict(reversed(items)).items())
        rng.shuffle(items)
        yield how, items


def c01_case(s, lg, script):
    i = replay(s, lg, script, share=True)
    if not i or s.broken():
        return
    s.count += 1
    for k in range(4):
        items = [(n, bool(k >> j & 1)) for j, n in enumerate("ab")]
        s.evaluate(i, "dict" if (s.count + k) % 2 else "set", items)
    s.obs(i)


def c01(s, rng):
    s.new()
    names = gen.pick_names(rng, "pl")
    d = gen.formula(rng, "pl", rng.choice([1, 2, 3, 4]), names)
    if rng.random() < 0.4:
        i = s.parse("pl", gen.glue(rng, gen.sentence(rng, "pl", rng.randint(1, 4), names)))
    elif rng.random() < 0.15:       # wide
        names = [f"v{k}" for k in range(rng.randint(6, 14))]
        ops = [gen.formula(rng, "pl", 1, names) for _ in range(rng.randint(5, 12))]
        i = s.tree([rng.choice(gen.BOOL)] + ops, "pl")
    elif rng.random() < 0.1:        # deep
        for _ in range(rng.randint(20, 40)):
            d = rng.choice([["not", d], [rng.choice(gen.BOOL), d, ["atom", codes(rng.choice(names))]],
                            [rng.choice(gen.BOOL), ["atom", codes(rng.choice(names))], d]])
        i = s.tree(d, "pl")
    else:
        i = s.tree(d, "pl")
    if not i or s.broken():
        return
    if rng.random() < 0.25:
        i = s.clone(i, rng.choice(["copy", "deepcopy", "2", "5"]))
    ns = gen.names_of(s.dumps[i - 1]) | set(names)
    for how, items in interpretations(rng, ns, 6):
        if rng.random() < 0.05:
            s.trouble()
        s.evaluate(i, how, items)
    if len(ns) <= 3:
        for vals in itertools.product([False, True], repeat=len(ns)):
            s.evaluate(i, rng.choice(["set", "dict", "same set", "same dict"]), list(zip(sorted(ns), vals)))
    s.obs(i)


# ----------------------------------------- C02, C03: construction and shape
def c02_case(s, lg, script):
    replay(s, lg, script, share=True)


def c02(s, rng):
    s.new()
    lg = rng.choice(LGS)
    names = gen.pick_names(rng, lg, odd=0.1, k=rng.choice([1, 2, 2, 2, 3]))
    if rng.random() < 0.3:
        literals(s, rng, rng.choice([lg, "pl"]))
        return
    if lg == "ldl" and rng.random() < 0.4:
        regexes(s, rng, names)
        return
    for _ in range(rng.randint(1, 3)):
        d = gen.scaled(rng, lg, names) if rng.random() < 0.06 else gen.formula(rng, lg, rng.choice([1, 2, 2, 3]), names)
        s.tree(d, lg, gen.models(rng, lg, gen.names_of(d), 6 if size(d) < 40 else 3) if gen.temporal_depth(d) < 5 else ())
        if s.broken():
            return
    if rng.random() < 0.5:      # the parts of a formula against the formula
        pool = [i for i, l in enumerate(s.lgs, 1) if l == lg and size(s.dumps[i - 1]) < 30]
        for _ in range(3):
            op = rng.choice(["and", "or", "not", "implies"])
            i = s.build(op, kin(s, rng, pool, 2)[:1 if op == "not" else 2])
            if s.broken():
                return
            pool.append(i)
    recombine(s, rng, lg, names, rng.randint(2, 6))


def regexes(s, rng, names):
    """Regular expressions of steps, tests and stars, and what they lead to."""
    for _ in range(5):
        e = gen.flat(rng, names)
        for _ in range(rng.choice([1, 2, 2, 3])):
            op = rng.choice(["star", "star", "seq", "union"])
            e = [op, e] if op == "star" else [op] + rng.choice([[e, gen.flat(rng, names)], [gen.flat(rng, names), e], [e, e],
                                                                [e, gen.flat(rng, names), gen.flat(rng, names)]])
        d = [rng.choice(["diamond", "box"]), e, rng.choice([["tt"], ["ff"], ["diamond", ["prop", ["atom", codes(names[0])]], ["tt"]]])]
        s.tree(d, "ldl", gen.models(rng, "ldl", set(names), 6))
        if s.broken():
            return


def literals(s, rng, lg):
    """Conjunctions and the like of literals and of small formulae of those literals."""
    names = gen.pick_names(rng, lg, odd=0, k=rng.choice([2, 3, 3]))
    atoms = [i for n in names for i in [s.tree(gen.formula(rng, lg, 0, [n]), lg)]]
    if s.broken():
        return
    lits = atoms + [s.build("not", [i]) for i in atoms]
    for _ in range(6):
        if s.broken():
            return
        some = [rng.choice(lits) for _ in range(rng.choice([1, 2, 2, 3]))]
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(["implies", "equivalence", "and", "or", "implies", "not"] + gen.UN[lg] + gen.BIN[lg])
            if op == "not":
                args = [s.build(rng.choice(["implies", "equivalence", "and", "or"]), rng.sample(lits, 2))]
            elif op in gen.UN[lg]:
                args = [rng.choice(lits)]
            else:
                args = [rng.choice(lits if rng.random() < 0.6 else [x for x in lits if x not in some] or lits)
                        for _ in range(rng.choice([2, 2, 3, 3, 4]))]
            if s.broken():
                return
            some.append(s.build(op, args, gen.models(rng, lg, set(names), 6)))
        if s.broken():
            return
        if rng.random() < 0.5:
            rng.shuffle(some)
        s.build(rng.choice(["and", "or", "and", "or", "implies", "equivalence"]), some, gen.models(rng, lg, set(names), 6))


def kin(s, rng, pool, n):
    """Operands that are related: a formula, its parts, their negations."""
    args = [rng.choice(pool)]
    while len(args) < n:
        d = s.dumps[rng.choice(args) - 1]
        near = [d] + [x for x in d[1:] if x and isinstance(x[0], str)]
        near += [y for x in near[1:] for y in x[1:] if y and isinstance(y, list) and isinstance(y[0], str)]
        near += [["not", x] for x in near] + [x[1] for x in near if x[0] == "not"]
        cand = [i for i in pool if s.dumps[i - 1] in near]
        if rng.random() < 0.35:
            more = [i for i in pool if s.dumps[i - 1][0] in ("not", "and", "or")
                    and any(x in near or ["not", x] in near for x in s.dumps[i - 1][1:])]
            cand = more or cand
        args.append(rng.choice(cand or pool))
    rng.shuffle(args)
    return args


def recombine(s, rng, lg, names, k, ops=None):
    """More formulae out of those on the heap, in all sorts of numbers."""
    for _ in range(k):
        if s.broken():
            return
        pool = [i for i, l in enumerate(s.lgs, 1) if l == lg and s.heap[i - 1] is not None]
        if not pool:
            return
        op = rng.choice(ops or ["and", "or", "and", "or", "not", "implies", "equivalence"] + gen.BIN[lg])
        n = 1 if op == "not" else rng.choice([1, 2, 2, 3, 4, 5, 7]) if op in gen.BOOL else rng.choice([2, 3, 4])
        args = kin(s, rng, pool, n) if rng.random() < 0.5 else [rng.choice(pool) for _ in range(n)]
        big = sum(size(s.dumps[i - 1]) for i in args) > 120
        if big:
            args = args[:2] if op not in ("not",) else args
        if sum(size(s.dumps[i - 1]) for i in args) > 300:
            return
        s.build(op, args, gen.models(rng, lg, set(names), 6))


def size(d):
    return 1 + sum(size(x) for x in d[1:] if isinstance(x, list) and x and isinstance(x[0], str))


def c03(s, rng):
    s.new()
    lg = rng.choice(LGS)
    names = gen.pick_names(rng, lg, odd=0.1, k=rng.choice([2, 3, 4]))
    pool = []
    for _ in range(rng.randint(2, 5)):
        i = s.tree(gen.scaled(rng, lg, names) if rng.random() < 0.03 else gen.formula(rng, lg, rng.choice([0, 0, 1, 2]), names), lg)
        if s.broken():
            return
        pool.append(i)
    if rng.random() < 0.15:     # many, to be joined
        for x in [f"w{k}" for k in range(rng.randint(8, 20))]:
            pool.append(s.leaf(lg if lg != "ldl" else "pl", ["atom", codes(x)]))
            if lg == "ldl":
                pool[-1] = s.build("diamond", [s.build("prop", [pool[-1]]), s.leaf("ldl", ["tt"])])
        many = pool[-8:] + rng.sample(pool, rng.randint(0, len(pool) // 2))
        rng.shuffle(many)
        if rng.random() < 0.7:
            many.insert(rng.randrange(len(many)), s.build("not", [rng.choice(many)]))
        for op in rng.sample(["and", "or"], rng.choice([1, 2])):
            pool.append(s.build(op, many))
            if s.broken():
                return
    for i in list(pool)[:3]:
        pool.append(s.build("not", [i]))
        if s.broken():
            return
    if rng.random() < 0.5:
        pool.append(s.leaf(lg, [rng.choice(["tt", "ff"])]))
    for _ in range(rng.randint(4, 10)):
        op = rng.choice(["and", "or", "and", "or", "not"])
        n = 1 if op == "not" else rng.choice([1, 2, 2, 3, 3, 4, 6, 9, 12])
        args = kin(s, rng, pool, n) if rng.random() < 0.4 else [rng.choice(pool) for _ in range(n)]
        if sum(size(s.dumps[i - 1]) for i in args) > 200:
            continue
        i = s.build(op, args)
        if s.broken():
            return
        pool.append(i)


# ------------------------------------------------------ C04..C07: the parsers
def c04(s, rng, lgs=("pl", "ltl", "pltl")):
    s.new()
    for _ in range(8):
        lg = rng.choice(lgs)
        names = gen.pick_names(rng, lg, odd=0.1)
        long = rng.random() < 0.04
        toks = gen.long_sentence(rng, lg, names) if long else gen.sentence(rng, lg, rng.choice([1, 2, 2, 3, 4]), names)
        if len(toks) <= (200 if long else 120):
            s.parse(lg, gen.glue(rng, toks))


def text_case(names=False):
    """Texts that TLC enumerated."""
    def go(s, lg, text):
        if getattr(s, "batch", 0) % 16 == 0:
            s.new()
        s.batch = getattr(s, "batch", 0) + 1
        text = obs.text(text)
        s.parse(lg, text)
        if names and lg in obs.ATOM:
            s.name(lg, text)
    return go


def c05(s, rng):
    c04(s, rng, ("ldl",))


def c06(s, rng):
    s.new()
    for _ in range(12):
        lg = rng.choice(LGS)
        names = gen.pick_names(rng, lg, odd=0.15)
        toks = gen.sentence(rng, lg, rng.choice([1, 2, 3]), names)
        if len(toks) > 60:
            continue
        r = rng.random()
        if r < 0.55:
            text = gen.glue(rng, gen.mutate_tokens(rng, lg, toks))
        elif r < 0.78:
            text = gen.mutate_chars(rng, gen.glue(rng, toks))
        elif r < 0.82:
            text = gen.commented(rng, gen.glue(rng, toks))
        elif r < 0.84:
            text = gen.lookalike(rng, gen.glue(rng, toks))
        elif r < 0.86:      # blanks, and little else
            text = "".join(rng.choice(" \t\n\r\x0b\x0c  ") for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 30])))
            if rng.random() < 0.4:
                k = rng.randint(0, len(text))
                text = text[:k] + rng.choice(gen.TOKENS[lg] + gen.STRANGE) + text[k:]
        elif r < 0.93:
            text = "".join(rng.choice(gen.TOKENS[lg]) + rng.choice(["", " "]) for _ in range(rng.randint(0, 7)))
        else:       # a text of another logic
            other = rng.choice(LGS)
            text = gen.glue(rng, gen.sentence(rng, other, 2, gen.pick_names(rng, other)))
        s.parse(lg, text)
    # a character that is none of the language, somewhere
    s.count += 1
    x = EDGES[s.count % len(EDGES)]
    lg = rng.choice(LGS)
    toks = gen.sentence(rng, lg, rng.choice([0, 1]), gen.pick_names(rng, lg))
    if len(toks) <= 30:
        text = gen.glue(rng, toks)
        k = rng.randint(0, len(toks))
        for t in (x + text, text + x, rng.choice([x + " " + text, text + " " + x]), gen.glue(rng, toks[:k] + [x] + toks[k:])):
            s.parse(lg, t)


EDGES = gen.LIKE + [chr(k) for k in list(range(0x20)) + [0x7f, 0x80, 0x200c, 0x200e, 0x2029, 0x202f, 0x2060, 0xfffe, 0xd7ff, 0x10ffff]] + list(".,;:$%^'`\\{}=#@/")

MARKS = "\\%&$#'`{}[]<>/*:;nxu0"


def c07(s, rng):
    s.new()
    for _ in range(5):
        lg = rng.choice(LGS)
        names = gen.pick_names(rng, lg, odd=0.8, k=3)
        if rng.random() < 0.08:
            names = [gen.long_name(rng) for _ in range(3)]
        toks = gen.sentence(rng, lg, rng.choice([0, 1, 2]), names)
        if lg == "ldl" and rng.random() < 0.7:
            toks = ["<"] + gen.sentence(rng, "pl", 1, [n for n in names]) + [">", "tt"]
        if len(toks) <= 60:
            s.parse(lg, gen.glue(rng, toks, wild=True))
        s.name(rng.choice(["pl", "ltl", "pltl"]), gen.name_candidate(rng))
        n = gen.name_candidate(rng)
        s.parse(lg if lg != "ldl" else "pl", n)
    s.count += 1
    doubled = [c for k in range(3) for x in [chr(32 + (3 * s.count + k) % 95)] for c in (x + x, x + rng.choice(MARKS), rng.choice(MARKS) + x)]
    for c in doubled:       # two characters that may mean something together
        n = '"' + rng.choice(["", "a", "b "]) + c + rng.choice(["", "a", " b"]) + '"'
        s.parse(rng.choice(["pl", "ltl", "pltl"]), n)
    # the same words in every logic
    w = rng.choice(["tt", "ff", "last", "end", "start", "first", "true", "false", "t", "f"])
    w += rng.choice(["", "", "x", "0", "_", "-a", "--9", "-", "U", "F"])
    for lg in LGS:
        s.parse(lg, w)
        s.parse(lg, f"~{w}")
    s.parse("ldl", f"<{w}>tt")


# ------------------------------------------------- C08: printing and parsing
def c08_case(s, lg, script):
    i = replay(s, lg, script, share=True)
    if i and not s.broken() and s.lgs[i - 1] in LGS:
        s.show(i)


def c08(s, rng):
    s.new()
    for _ in range(3):
        lg = rng.choice(LGS)
        names = [n for n in gen.pick_names(rng, lg, odd=0.3) if n not in gen.RESERVED[lg]] or ["a"]
        if rng.random() < 0.3:
            toks = gen.sentence(rng, lg, rng.choice([1, 2, 3]), names)
            if len(toks) > 80:
                continue
            i = s.parse(lg, gen.glue(rng, toks))
        else:
            d = gen.scaled(rng, lg, names) if rng.random() < 0.08 else gen.formula(rng, lg, rng.choice([1, 2, 3, 3]), names)
            if size(d) > 80:
                continue
            i = s.tree(d, lg)
        if i and not s.broken():
            s.show(i)


# ------------------------------------------------------ C09: equality, hash
def shuffled(rng, d):
    """The same formula, with the operands of commutative operators elsewhere."""
    if d[0] in ("atom", "tt", "ff", "true", "false", "pred", "var", "const", "fun"):
        return d
    kids = [shuffled(rng, x) for x in d[1:]]
    if d[0] in ("and", "or", "equivalence", "union"):
        rng.shuffle(kids)
    return [d[0]] + kids


NAMES_F = ["P", "Q", "R"]


def fterm(rng, depth=2):
    r = rng.random()
    if depth and r < 0.25:
        return ["fun", codes(rng.choice(["f", "g"]))] + [fterm(rng, depth - 1) for _ in range(rng.choice([1, 1, 2]))]
    if r < 0.65:
        return ["var", codes(rng.choice(["x", "y"]))]
    return ["const", codes(rng.choice(["k", "m"]))]


def folformula(rng, depth):
    r = rng.random()
    if depth <= 0 or r < 0.25:
        return ["pred", codes(rng.choice(NAMES_F))] + [fterm(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
    if r < 0.5:
        return [rng.choice(["forall", "exists"]), ["var", codes(rng.choice(["x", "y"]))], folformula(rng, depth - 1)]
    if r < 0.6:
        return ["not", folformula(rng, depth - 1)]
    return [rng.choice(gen.BOOL)] + [folformula(rng, depth - 1) for _ in range(rng.choice([2, 2, 3]))]


def respelt(rng, name):
    """Another name that looks like it."""
    n = obs.text(name)
    if n[0] == '"':
        w = n[1:-1]
        return codes(rng.choice([w] * (w.isalnum() and w[0].islower() and w not in gen.RESERVED["ldl"])
                                + [n[:-1] + ' "', n.swapcase()]))
    return codes(rng.choice([f'"{n}"', f'"{n}"', n[0] + n[1:].swapcase(), n + "_"]))


KINDS = [gen.BOOL, gen.BOOL, ["diamond", "box"], ["forall", "exists"], ["seq", "union"]] + \
    [gen.UN["ltl"], gen.UN["pltl"], gen.BIN["ltl"], gen.BIN["pltl"]]


def tweak(rng, d):
    """A formula that differs a little."""
    if d[0] in ("atom", "tt", "ff", "true", "false"):
        return rng.choice([["atom", codes(rng.choice("abc"))], ["tt"], ["ff"], ["atom", respelt(rng, d[1])],
                           ["atom", respelt(rng, d[1])]]) if d[0] == "atom" else \
            rng.choice([["tt"], ["ff"]])
    if d[0] in ("var", "const"):
        return rng.choice([["var", codes("x")], ["var", codes("y")], ["const", codes("k")], ["const", codes("m")]])
    if d[0] in ("pred", "fun"):
        return tweak_named(rng, d)
    d = list(d)
    r = rng.random()
    if d[0] in ("forall", "exists"):
        if r < 0.3:
            return [d[0], ["var", codes(rng.choice("xyz"))], d[2]]
        if r >= 0.5:
            return d[:2] + [tweak(rng, d[2])]
    if r < 0.3:
        kin_ = [k for k in KINDS if d[0] in k]
        if kin_:
            d[0] = rng.choice(rng.choice(kin_))
    elif r < 0.4 and len(d) > 3:
        del d[rng.randrange(1, len(d))]
        return d
    elif r < 0.5 and len(d) >= 3 and d[0] not in ("diamond", "box", "forall", "exists"):
        d[1:] = reversed(d[1:])
    else:
        i = rng.randrange(1, len(d))
        d[i] = tweak(rng, d[i])
    return d


def tweak_named(rng, d):
    """A predicate, or a term, that differs a little."""
    r = rng.random()
    if r < 0.25:
        return [d[0], codes(rng.choice(NAMES_F if d[0] == "pred" else ["f", "g"]))] + d[2:]
    if r < 0.4:
        return d[:2] + d[:1:-1]
    if r < 0.5:
        return d + [fterm(rng)]
    if r < 0.6 and len(d) > 3:
        return d[:-1]
    if len(d) == 2:
        return d
    i = rng.randrange(2, len(d))
    return d[:i] + [tweak(rng, d[i])] + d[i + 1:]


def c09_case(s, lg, script):
    i = replay(s, lg, script, share=True)
    if not i or s.broken():
        return
    if i <= len(leafset(lg)) + len(script):     # a new session
        s.near = {}
        for j in range(1, i):
            s.cmp(i, j)
    s.cmp(i, i)
    # those with the same operands, of this operator or another one
    d = s.dumps[i - 1]
    k = repr(sorted(map(repr, d[1:])))
    alike = s.near.setdefault(k, [])
    for j in alike[-25:]:
        s.cmp(i, j)
    for j in s.near.get(repr([repr(d)]), [])[-5:]:      # those made of it
        s.cmp(i, j)
    s.cmp(i, 1 + s.n % i)
    alike.append(i)


def c09(s, rng):
    s.new()
    lg = rng.choice(LGS + ["fol"])
    if lg == "fol":
        if rng.random() < 0.2:
            t = ["fun", codes("f"), fterm(rng)]
            for d in (t, t, tweak(rng, t), fterm(rng), tweak(rng, t)):
                if d[0] != "var":
                    s.leaf("term", d)
        d = folformula(rng, rng.choice([0, 1, 2, 3]))
    else:
        names = gen.pick_names(rng, lg, odd=0.1, k=2)
        d = gen.scaled(rng, lg, names) if rng.random() < 0.06 else gen.formula(rng, lg, rng.choice([0, 1, 2, 3]), names)
    if size(d) > 60:
        return
    roots = []
    for v in (d, d, shuffled(rng, d), tweak(rng, d), shuffled(rng, tweak(rng, d))):
        roots.append(s.tree(v, lg))
        if s.broken():
            return
    if lg in ("pl", "ltl", "pltl") and not any(x in str(d) for x in ("true", "false") + tuple(gen.UN[lg] + gen.BIN[lg])):
        roots.append(s.tree(d, rng.choice(["pl", "ltl", "pltl"])))     # the same in another logic
        if s.broken():
            return
    for i in roots:
        for j in roots:
            if i <= j:
                s.cmp(i, j)
    for _ in range(6):
        i, j = (rng.randint(1, len(s.heap)) for _ in range(2))
        s.cmp(i, j)


# -------------------------------- C10: immutability, history independence
def c10_case(s, lg, script):
    s.new()
    s.forget()
    for l, d in leafset(lg):
        s.leaf(l, d)
    for step in script:
        if s.broken():
            return
        s.build(step["op"], step["args"])
        s.registry()
    for i in range(1, len(s.heap) + 1):
        s.obs(i)
    s.forget()
    for step in script:
        s.build(step["op"], step["args"])
    if not s.broken():
        s.registry()
        for i in range(1, len(s.heap) + 1):
            s.obs(i)


def c10_fol(s, rng):
    """First-order formulae; the lists that they were made of are changed."""
    s.new()
    if rng.random() < 0.7:
        s.forget()
    for _ in range(rng.randint(2, 10)):
        if s.broken() or len(s.heap) > 45:
            break
        r = rng.random()
        pool = [i for i, l in enumerate(s.lgs, 1) if l == "fol" and size(s.dumps[i - 1]) <= 30]
        if r < 0.3 or not pool:
            s.loose(folformula(rng, 0))
        elif r < 0.45:
            s.tree(folformula(rng, rng.choice([0, 1, 2])), "fol")
        elif r < 0.55:
            s.build(rng.choice(["forall", "exists"]), [s.leaf("var", ["var", codes(rng.choice("xyz"))]), rng.choice(pool)])
        elif r < 0.75:
            op = rng.choice(gen.BOOL + ["not"])
            args = [rng.choice(pool) for _ in range(1 if op == "not" else rng.choice([1, 2, 2, 3]))]
            s.twin("op", op=op, args=args) if rng.random() < 0.4 else s.build(op, args)
        elif r < 0.80:
            s.clone(rng.choice(pool), rng.choice(["copy", "deepcopy", "2", "4"]))
        elif r < 0.86:
            s.cmp(rng.choice(pool), rng.choice(pool))
        elif r < 0.90:
            s.forget()
        else:
            for i in pool:
                s.obs(i)
        if rng.random() < 0.3:
            s.registry()
    if not s.broken():
        for i in range(1, len(s.heap) + 1):
            if s.lgs[i - 1] == "fol":
                s.meddle(i)
                s.obs(i)
        rng.choice([s.registry, s.lapse])()


def c10(s, rng):
    if not getattr(s, "crowded", False):    # once
        s.crowded, before = True, s.n
        crowd(s, rng)
        s.extra += s.n - before
        return
    if rng.random() < 0.15:
        return c10_fol(s, rng)
    if rng.random() < 0.08:
        return hammer(s, rng)
    s.new()
    lg = rng.choice(LGS)
    names = gen.pick_names(rng, lg, odd=0.2, k=2)
    if rng.random() < 0.7:
        s.forget()
    for _ in range(rng.randint(2, 12)):
        if s.broken() or len(s.heap) > 45:
            break
        r = rng.random()
        if r < 0.3 or not s.heap:
            if rng.random() < 0.03 and len(s.heap) < 5:
                d = gen.scaled(rng, lg, names)
            else:
                d = gen.formula(rng, lg, rng.choice([0, 1, 2]), names)
            if size(d) <= (15 if s.heap else 40):
                s.tree(d, lg)
        elif r < 0.5:
            recombine(s, rng, lg, names, 2)
        elif r < 0.6:
            text = gen.glue(rng, gen.sentence(rng, lg, 2, names))
            s.twin("parse", lg=lg, text=text) if rng.random() < 0.4 else s.parse(lg, text)
        elif r < 0.64:
            i = rng.choice([i for i, l in enumerate(s.lgs, 1) if l == lg] or [0])
            if i and size(s.dumps[i - 1]) <= 15:
                s.tree(shuffled(rng, s.dumps[i - 1]), lg)       # equal, but not the same
        elif r < 0.70:
            i = rng.randint(1, len(s.heap))
            if s.lgs[i - 1] in LGS:
                s.show(i)
        elif r < 0.74:
            i = rng.randint(1, len(s.heap))
            s.clone(i, rng.choice(["copy", "deepcopy", "2", "4"]))
        elif r < 0.80:
            s.cmp(rng.randint(1, len(s.heap)), rng.randint(1, len(s.heap)))
        elif r < 0.84:
            s.forget()
        elif r < 0.87:
            s.trouble()
        elif r < 0.90 and lg == "pl":
            i = rng.randint(1, len(s.heap))
            s.evaluate(i, rng.choice(["set", "dict"]), [(n, rng.random() < 0.5) for n in names])
        else:
            for i in range(1, len(s.heap) + 1):
                s.obs(i)
        if rng.random() < 0.3:
            s.registry()
    if not s.broken():
        deep = [i for i, l in enumerate(s.lgs, 1) if l in LGS and 3 <= size(s.dumps[i - 1]) <= 20]
        for i in rng.sample(deep, min(2, len(deep))):
            s.twin("text", i)
            j = s.tree(shuffled(rng, s.dumps[i - 1]), s.lgs[i - 1])
            if s.broken():
                return
            s.twin("text", j)
        for _ in range(3):
            pool = [i for i, l in enumerate(s.lgs, 1) if l == lg and size(s.dumps[i - 1]) <= 15]
            if pool:
                op = rng.choice(gen.BOOL + ["not"] + gen.UN[lg] + gen.BIN[lg])
                n = 1 if op == "not" or op in gen.UN[lg] else rng.choice([2, 2, 3])
                s.twin("op", op=op, args=[rng.choice(pool) for _ in range(n)])
        for i in range(1, len(s.heap) + 1):
            s.meddle(i)
            s.obs(i)
        rng.choice([s.registry, s.lapse])()


def hammer(s, rng):
    """One formula of some operands; everything is done with it, again and again."""
    s.new()
    lg = rng.choice(["pl", "pl", "pl", "ltl", "pltl", "ldl"])
    names = [f"v{k}" for k in range(rng.randint(3, 7))]
    ops = [["atom", codes(n)] for n in names] if lg != "ldl" else \
        [[rng.choice(["diamond", "box"]), ["prop", ["atom", codes(n)]], ["tt"]] for n in names]
    ops = [["not", x] if rng.random() < 0.3 else x for x in ops]
    if rng.random() < 0.3:
        ops[1] = [rng.choice(["or", "implies"]), ops[1], ops[0], ops[2]]
    i = s.tree([rng.choice(gen.BOOL), *ops], lg)
    if s.broken():
        return
    for k in range(rng.randint(8, 20)):
        r = rng.random()
        if lg == "pl" and r < 0.6:
            s.evaluate(i, rng.choice(["set", "dict"]), [(n, rng.random() < 0.75) for n in names])
        elif r < 0.7:
            s.show(i)
        elif r < 0.8:
            s.clone(i, rng.choice(["copy", "deepcopy", "2", "4"]))
        elif r < 0.9:
            s.cmp(i, rng.randint(1, len(s.heap)))
        else:
            j = s.tree(shuffled(rng, s.dumps[i - 1]), lg)
            if s.broken():
                return
            s.cmp(i, j)
        if s.broken():
            return
        if rng.random() < 0.1:
            s.trouble()
        if rng.random() < 0.2:
            s.obs(i)
    for _ in range(2):
        if lg == "pl":
            s.twin("eval", args=[i], true=[n for n in names if rng.random() < 0.75])
        s.twin("eq", args=[i, rng.randint(1, len(s.heap))])
    s.twin("text", i)
    for j in range(1, len(s.heap) + 1):
        s.obs(j)


def crowd(s, rng):
    """More formulae than any other session has."""
    s.new()
    s.forget()
    lg = rng.choice(["pl", "ltl", "pltl"])
    n = rng.choice([140, 270, 530, 1030, 1030, 1300, 1300, 2060])
    for k in range(n):
        s.leaf(lg, ["atom", codes(f"v{k}")])
    for _ in range(10):
        s.build(rng.choice(["and", "or", "implies", "equivalence"]), [rng.randint(1, n) for _ in range(2)])
    if not s.broken():
        for i in rng.sample(range(1, n + 1), 20):
            s.obs(i)
        s.registry()


# --------------------------------------------------- C11: copies and pickles
HOWS = ["copy", "deepcopy", "0", "1", "2", "3", "4", "5", "list", "set", "frozenset", "key", "value"]


def c11_case(s, lg, script):
    i = replay(s, lg, script)
    if i and not s.broken():
        for how in ("copy", "deepcopy", "2", "5", ("list", "set", "key", "value")[s.n % 4]):
            s.clone(i, how)
            s.obs(i)
        s.travel(i)


def c11(s, rng):
    s.new()
    lg = rng.choice(LGS + ["fol"])
    names = gen.pick_names(rng, lg if lg != "fol" else "pl", odd=0.3, k=2)
    d = folformula(rng, rng.choice([0, 1, 2])) if lg == "fol" else \
        gen.scaled(rng, lg, names) if rng.random() < 0.05 else gen.formula(rng, lg, rng.choice([0, 1, 2, 3]), names)
    if size(d) > 70:
        return
    i = s.tree(d, lg)
    if not i or s.broken():
        return
    todo = [i] + [rng.randint(1, len(s.heap)) for _ in range(2)]
    for i in todo:
        if rng.random() < 0.5:
            s.obs(i)            # hashed before
        if rng.random() < 0.3:
            s.forget()
        j = s.travel(i) if rng.random() < 0.4 else s.clone(i, rng.choice(HOWS))
        s.obs(i)
        s.obs(j)
        s.cmp(i, j)
        if s.lgs[i - 1] in LGS:
            s.show(j)
            k = s.build("not", [j])
            m = s.build("and", [i, j])
            if s.broken():
                return
            s.obs(m)
        if rng.random() < 0.4:
            s.clone(j, rng.choice(HOWS))        # a copy of the copy


# ------------------------------------------------- C17: ill-formed requests
JUNK = [None, 1, "a", "true", ["a"], 3.5, object, (), {"a"}, True]


class Pretender:
    """Has a logic, and is no formula."""

    def __init__(self, logic):
        self.logic = logic
        self.operands = ()
        self.argument = None


PRETENDERS = [Pretender(lg) for lg in obs.LOGIC.values()] + [obs.pl.Atomic, obs.ltl.Atomic, base.TrueFormula]


def operand(s, rng, op=None):
    """Something to be given as an operand: (what it is, the object)."""
    r = rng.random()
    if r < 0.16:
        return "junk", rng.choice(PRETENDERS if op and op not in ("diamond", "box") and r < 0.06 else JUNK)
    if r < 0.24:
        lg = rng.choice(["pl", "ltl", "pltl", "ldl"])
        return "const-" + lg, base.make_boolean(rng.random() < 0.5, logic=obs.LOGIC[lg])
    if r < 0.28:
        return rng.choice([("var", fol.Variable("x")), ("term", fol.Constant("k"))])
    lg = rng.choice(["pl", "ltl", "pltl", "ldl", "re", "fol"])
    return lg, sample(rng, lg)


def sample(rng, lg):
    while True:
        if lg == "fol":
            d = folformula(rng, rng.choice([0, 1]))
        elif lg == "re":
            d = gen.regex(rng, rng.choice([0, 1]), ["a", "b"])
        else:
            d = gen.formula(rng, lg, rng.choice([0, 1, 2]), ["a", "b"])
            if lg == "ldl":
                d = ["diamond", ["prop", ["atom", codes("a")]], d]
        f = obs.build(d, lg)
        if not isinstance(f, (base.TrueFormula, base.FalseFormula)):
            return f


POOL = {}


def given(kind, k):
    """The k-th operand of a kind."""
    if not POOL:
        rng = __import__("random").Random(17)
        for lg in ("pl", "ltl", "pltl", "ldl", "re", "fol"):
            POOL[lg] = [sample(rng, lg) for _ in range(40)]
        POOL["junk"] = JUNK + [base.Formula, base.And, base.Logic.PL, {}, "", 0]
        POOL["var"] = [fol.Variable(x) for x in ("x", "y", "a")]
        POOL["term"] = [fol.Constant("k"), fol.Function("f", [fol.Variable("x")]), fol.Constant("x"), fol.Function("g", [])]
        for lg in LGS:
            POOL["const-" + lg] = [base.make_boolean(v, logic=obs.LOGIC[lg]) for v in (True, False)]
    return POOL[kind][k % len(POOL[kind])]


def c17_case(s, st, c):
    """A request that TLC enumerated, made with several operands."""
    s.count += 1
    if s.count % 50 == 1:
        s.new()
    op, kinds, k = c["op"], c["given"], s.count
    if op in ("call-pred", "call-fun"):
        if c["arity"] + len(kinds):
            apply(s, op == "call-pred", c["arity"], kinds, [given(x, k + i) for i, x in enumerate(kinds)])
        return
    many = [[given(x, k + 7 * i) for i, x in enumerate(kinds)]]
    if len(set(kinds)) < len(kinds):
        many.append([given(x, k) for x in kinds])
    for vals in many:
        s.attempt(op, kinds, vals, what=repr(kinds))
        if op in ("and", "or") and len(kinds) == 2 and kinds[0] not in ("junk", "var", "term"):
            s.attempt(op, kinds, vals, fn=lambda: s.construct(op, vals, infix=True), what="infix")


def c17(s, rng):
    s.new()
    for _ in range(8):
        op = rng.choice(list(obs.CTOR))
        n = rng.choice([0, 1, 1, 2, 2, 2, 2, 3, 3, 4, 5, 7, 10, 10, rng.choice([16, 34, 70, 140, 270])])
        if op in ("diamond", "box", "forall", "exists") and rng.random() < 0.8:
            n = 2
        ops = [operand(s, rng, op) for _ in range(n)]
        r = rng.random()
        if n and r < 0.55:      # mostly right, but for one operand perhaps
            good = {"next": "ltl", "prop": "pl", "test": "ldl", "star": "re", "seq": "re", "union": "re"}
            lg = good.get(op) or ("ltl" if op in gen.UN["ltl"] + gen.BIN["ltl"] else
                                  "pltl" if op in gen.UN["pltl"] + gen.BIN["pltl"] else
                                  rng.choice(["pl", "ltl", "pltl", "ldl", "fol", "re"]))
            fixed = [(lg, sample(rng, lg)) for _ in range(n)]
            if n > 1 and rng.random() < 0.3:        # the same again
                fixed = [rng.choice(fixed[:2]) for _ in range(n)]
            if op in ("diamond", "box") and n == 2:
                fixed = [("re", sample(rng, "re")), ("ldl", sample(rng, "ldl"))]
            if op in ("forall", "exists") and n == 2:
                fixed = [("var", fol.Variable("x")), ("fol", sample(rng, "fol"))]
            if r < 0.3:
                k = rng.randrange(n)
                fixed[k] = ops[k]
            ops = fixed
        s.attempt(op, [l for l, _ in ops], [v for _, v in ops], what=repr([l for l, _ in ops]))
    infix(s, rng)
    calls(s, rng)
    wrong_uses(s, rng)


def infix(s, rng):
    """The operators of Python: &, |, ~ (and >>)."""
    lg1, x = operand(s, rng)
    lg2, y = operand(s, rng)
    if lg1 in ("junk", "var", "term"):
        return
    s.attempt("and", [lg1, lg2], [x, y], fn=lambda: x & y, what="infix")
    s.attempt("or", [lg1, lg2], [x, y], fn=lambda: x | y, what="infix")


def calls(s, rng):
    """Predicates and functions applied to terms."""
    n = rng.randint(0, 3)
    kinds, vals = [], []
    for _ in range(n if rng.random() < 0.6 else rng.randint(0, 4)):
        if rng.random() < 0.2:
            kinds.append("junk")
            vals.append(rng.choice([None, 1, "x", sample(rng, "pl"), sample(rng, "fol")]))
        else:
            d = fterm(rng)
            kinds.append("var" if d[0] == "var" else "term")
            vals.append(obs.term(d))
    if n or vals:
        apply(s, rng.random() < 0.5, n, kinds, vals)


def apply(s, pred, n, kinds, vals):
    """A symbol of n places, applied; or built with these operands at once."""
    xs = [fol.Variable("x")] * n if s.n % 2 else [fol.Variable(f"x{k}") for k in range(n)]
    p = fol.Predicate("P", xs) if pred else fol.Function("f", xs)
    want = ["pred" if pred else "fun", codes("P" if pred else "f")]
    if all(k in ("var", "term") for k in kinds):
        want += [obs.dump(v) for v in vals]
    res, _ = s.call(lambda: p(*vals))
    s.emit(e="call", arity=n, lgs=kinds, want=want, res=res)
    res, _ = s.call(lambda: fol.Predicate("P", vals) if pred else fol.Function("f", vals))
    s.emit(e="call", arity=len(vals), lgs=kinds, want=want, res=res)


def wrong_uses(s, rng):
    from pylogics_modalities.semantics.pl import evaluate_pl

    lg = rng.choice(["ltl", "pltl", "ldl", "re", "fol"])
    f = {"ltl": lambda: obs.build([rng.choice(gen.UN["ltl"]), ["atom", codes("a")]], "ltl"),
         "pltl": lambda: obs.build([rng.choice(gen.BIN["pltl"]), ["atom", codes("a")], ["tt"]], "pltl"),
         "ldl": lambda: obs.build([rng.choice(["diamond", "box"]), ["prop", ["tt"]], ["tt"]], "ldl"),
         "re": lambda: obs.build(["star", ["prop", ["tt"]]], "re"),
         "fol": lambda: obs.build(["pred", codes("P"), ["var", codes("x")]], "fol")}[lg]()
    s.must(False, f"evaluate {lg}", lambda: evaluate_pl(f, {"a"}))
    atom = obs.ATOM["pl"]("a")
    bad = rng.choice([None, ["a"], "a", ("a",), 1, frozenset({"a"})])
    if not isinstance(bad, frozenset):
        s.must(False, f"evaluate in {bad!r}", lambda: evaluate_pl(atom, bad))
    s.must(True, "evaluate in a set", lambda: evaluate_pl(atom, {"a"}))
    s.must(True, "evaluate in a dict", lambda: evaluate_pl(atom, {"a": False}))
    s.must(False, "print fol", lambda: obs.to_string(sample_fol(rng)))


def sample_fol(rng):
    return obs.build(["pred", codes("P"), ["var", codes("x")]], "fol")


# ------------------------------------------ C18: abbreviations and negation
def c18_case(s, lg, script):
    i = replay(s, lg, script)
    if i and not s.broken() and s.lgs[i - 1] in LGS:
        s.dual(i)
        j = max(k for k, l in enumerate(s.lgs[:-1], 1) if l == s.lgs[i - 1]) if s.lgs[i - 1] in s.lgs[:-1] else i
        for op in ("and", "or", "rshift"):
            s.infix(op, [i, j])
            s.infix(op, [j, i])
        k, m = s.build("not", [i]), s.build("not", [j])
        if not s.broken():
            for args in ([k, m], [k, j], [i, m], [m, k], [i, k]):
                s.infix(("rshift", "and", "rshift", "or")[(s.n + args[0]) % 4], args)


def c18(s, rng):
    from pylogics_modalities.syntax import ldl, ltl, pltl

    s.new()
    P = obs.PARSE
    B = lambda v, lg: (lambda: base.make_boolean(v, logic=obs.LOGIC[lg]))
    space = lambda w: rng.choice([w, f"({w})", f" {w} ", f"(({w}))", f"~~{w}", f"!(~{w})"])
    for lg, which, fn in [
        ("ltl", "last", ltl.Last), ("ldl", "last", ldl.Last), ("ldl", "end", ldl.End),
        ("pltl", "start", pltl.Start),
        ("ltl", "true", ltl.PropositionalTrue), ("ltl", "false", ltl.PropositionalFalse),
        ("pltl", "true", pltl.PropositionalTrue), ("pltl", "false", pltl.PropositionalFalse),
    ]:
        s.abbr(lg, which, fn)
        s.abbr(lg, which, lambda: P[lg](space(which)))
    for lg in LGS:
        yes, no = ("true", "false") if lg == "pl" else ("tt", "ff")
        s.abbr(lg, "tt", B(True, lg))
        s.abbr(lg, "ff", B(False, lg))
        s.abbr(lg, "tt", lambda: P[lg](space(yes)))
        s.abbr(lg, "ff", lambda: P[lg](space(no)))
        s.abbr(lg, "tt", lambda: P[lg]("~" + no))
        s.abbr(lg, "ff", lambda: P[lg]("!" + yes))
        s.abbr(lg, "tt", lambda: base.Not(base.FalseFormula(obs.LOGIC[lg])))
        s.abbr(lg, "ff", lambda: ~base.TrueFormula(obs.LOGIC[lg]))
        s.abbr(lg, "tt", lambda: ~~B(True, lg)())
        s.abbr(lg, "ff", lambda: base.Not(base.Not(B(False, lg)())))
    for lg in obs.LOGIC:        # the constants of every logic
        for v in (True, False):
            s.constant(lg, v, B(v, lg))
            if lg != "re":
                s.constant(lg, not v, lambda: ~B(v, lg)())
                s.constant(lg, v, lambda: base.Not(base.Not(B(v, lg)())))
            s.constant(lg, v, lambda: (base.TrueFormula if v else base.FalseFormula)(obs.LOGIC[lg]))
            s.constant(lg, not v, lambda: ~(base.TrueFormula if v else base.FalseFormula)(obs.LOGIC[lg]))
    for lg in ("ltl", "pltl"):
        m = ltl if lg == "ltl" else pltl
        s.abbr(lg, "false", lambda: ~m.PropositionalTrue())
        s.abbr(lg, "true", lambda: ~m.PropositionalFalse())
        s.abbr(lg, "false", lambda: P[lg]("~true"))
        s.abbr(lg, "true", lambda: P[lg]("~false"))
    for _ in range(6):
        lg = rng.choice(LGS)
        names = ["a", "b"]
        big = rng.random() < 0.05
        d = gen.scaled(rng, lg, names) if big else gen.formula(rng, lg, rng.choice([0, 1, 2]), names)
        if size(d) > (80 if big else 30):
            continue
        i = s.tree(d, lg)
        if s.broken():
            return
        s.dual(i, gen.models(rng, lg, gen.names_of(d), 4) if gen.temporal_depth(d) < 5 else ())
        pool = [j for j, l in enumerate(s.lgs, 1) if l == lg]
        pool += [s.build("not", [rng.choice(pool)]) for _ in range(2)]
        if s.broken():
            return
        for op in ("not", "and", "or", "rshift", "rshift"):
            s.infix(op, [rng.choice(pool) for _ in range(1 if op == "not" else 2)])
    s.new()
    for _ in range(2):
        s.tree(folformula(rng, rng.choice([0, 1, 2])), "fol")
        if s.broken():
            return
    pool = [j for j, l in enumerate(s.lgs, 1) if l == "fol"]
    for op in ("not", "and", "or", "rshift"):
        s.infix(op, [rng.choice(pool) for _ in range(1 if op == "not" else 2)])


# ------------------------------------------- C20: several calls at a time
class Jobs:
    """Calls that share formulae; each is a record of what is called, and the call."""

    def __init__(self, s, rng):
        self.s, self.rng = s, rng
        self.nds = nd.NaturalDeduction()
        self.lg = rng.choice(LGS)
        self.names = gen.pick_names(rng, self.lg, odd=0.1, k=2)
        self.dumps = []
        while len(self.dumps) < 4:
            d = gen.formula(rng, self.lg, rng.choice([0, 0, 1, 1, 2]), self.names)
            res, f = obs.answer(lambda: obs.build(d, self.lg))
            if res[0] == "ok" and size(d) <= 20:
                self.dumps.append(res[1])
        self.said = []          # what is evaluated, by several mostly
        while len(self.said) < 2:
            res, f = obs.answer(lambda: obs.build(gen.formula(rng, "pl", 2, self.names), "pl"))
            if res[0] == "ok":
                self.said.append(res[1])
        self.again()

    def again(self):
        """Fresh formulae: nothing was done with them before."""
        self.objs = [obs.build(d, self.lg) for d in self.dumps]
        self.facts = [obs.build(d, "pl") for d in self.said]

    def one(self, kinds, instance=False):
        """A kind of call, to be made with the formulae that are there then."""
        rng, lg, D = self.rng, self.lg, self.dumps
        do = rng.choice(kinds)
        i, j = rng.randrange(len(D)), rng.randrange(len(D))
        if do == "build":
            op = rng.choice(["and", "or", "and", "or", "not", "implies", "equivalence"] + gen.UN[lg] + gen.BIN[lg])
            n = 1 if op == "not" or op in gen.UN[lg] else rng.choice([2, 2, 3])
            args = [rng.randrange(len(D)) for _ in range(n)]
            return ({"do": do, "op": op, "lgs": [lg] * n, "ops": [D[k] for k in args]},
                    lambda: obs.answer(lambda: obs.CTOR[op](*[self.objs[k] for k in args]))[0])
        if do == "atom":        # twice the same, new to the library
            d = ["atom", codes("n" + str(rng.randrange(10 ** 6)))]
            l = lg if lg != "ldl" else "pl"
            return ({"do": "build", "op": "", "lgs": [l], "ops": [d]},
                    lambda: obs.answer(lambda: obs.build(d, l))[0])
        if do == "parse":
            l = lg if rng.random() < 0.7 else rng.choice(LGS)
            toks = gen.sentence(rng, l, rng.choice([1, 2]), self.names)
            if rng.random() < 0.25:
                toks = gen.mutate_tokens(rng, l, toks)
            text = gen.glue(rng, toks[:25])
            return {"do": do, "lg": l, "text": codes(text)}, lambda: obs.answer(lambda: obs.PARSE[l](text))[0]
        if do == "text":
            return ({"do": do, "lg": lg, "f": D[i]},
                    lambda: obs.answer(lambda: obs.to_string(self.objs[i]), convert=codes)[0])
        if do == "eval":
            from pylogics_modalities.semantics.pl import evaluate_pl

            k = rng.choice([0, 0, 0, 1])
            true = [n for n in self.names if rng.random() < 0.5]
            interp = set(true) if rng.random() < 0.5 else {n: n in true for n in self.names}
            return ({"do": do, "f": self.said[k], "true": [codes(n) for n in true]},
                    lambda: obs.answer(lambda: evaluate_pl(self.facts[k], interp), convert=self.s.boolean)[0])
        if do == "eq":
            return ({"do": do, "f": D[i], "g": D[j]},
                    lambda: obs.answer(lambda: self.objs[i] == self.objs[j], convert=self.s.boolean)[0])
        if do == "hash":
            return ({"do": do, "f": D[i]},
                    lambda: obs.answer(lambda: hash(self.objs[i]), convert=int)[0])
        if do == "copy":
            how = rng.choice(["copy", "deepcopy", "2"])
            fn = {"copy": lambda: copy.copy(self.objs[i]), "deepcopy": lambda: copy.deepcopy(self.objs[i]),
                  "2": lambda: pickle.loads(pickle.dumps(self.objs[i], 2))}[how]
            return {"do": do, "lg": lg, "f": D[i]}, lambda: obs.answer(fn)[0]
        if do == "proof":
            items = None
            while not items:
                theory = rng.choice(["pl", "pl", "fol"])
                items = ndplans.any_proof(rng, theory)
                if instance and items and (all(it[0] != "b" for it in items) or len(items) > 12 and rng.random() < 0.8):
                    items = None
                if items and rng.random() < 0.5:
                    items = ndplans.mutant(rng, items, theory)
                items = items and ndplans.normal(nd.tidy(items))
            written, ready = nd.real(items), instance or rng.random() < 0.5
            proof = self.nds.proof(written) if ready else None
            check = self.nds.check_proof if instance else rng.choice([self.nds.check_proof, nd.NaturalDeduction.check])
            return ({"do": do, "items": items},
                    lambda: obs.answer(lambda: check(proof if ready else nd.NaturalDeduction.Proof(written)),
                                       convert=self.s.boolean)[0])
        return {"do": "forget"}, lambda: obs.answer(lambda: base.reset_cache(), convert=lambda x: 0)[0]


CALLS = ["build", "build", "build", "atom", "parse", "parse", "text", "eval", "eq", "hash", "copy", "proof", "proof"]


def meanwhile(s, jobs, chosen, schedule, fine, only=None):
    jobs.again()
    outcomes, steps = race.race([fn for _, fn in chosen], schedule, fine, only)
    forgot = any(rec["do"] == "forget" for rec, _ in chosen)
    for (rec, _), res in zip(chosen, outcomes):
        if rec["do"] == "hash" and res[0] == "ok":      # is it the hash of the formula?
            res, _ = s.call(lambda: [hash(obs.build(rec["f"], jobs.lg)) == res[1]], convert=list)
        s.emit(e="meanwhile", res=res, **rec)
    if forgot:
        s.forget()
    return steps


def c20_case(s, _, schedule):
    """A schedule that TLC enumerated: who takes a step, and who then."""
    rng = __import__("random").Random(repr(schedule) + str(s.count))
    if s.count % 10 == 0:
        s.new()
    s.count += 1
    jobs = Jobs(s, rng)
    n = max(schedule)
    chosen = [jobs.one(CALLS) for _ in range(n)]
    if rng.random() < 0.4:
        chosen = [jobs.one([chosen[0][0]["do"]]) if chosen[0][0]["do"] in CALLS else c for c in chosen]
    if rng.random() < 0.15:
        chosen[rng.randrange(n)] = jobs.one(["forget"])
    pace = rng.choice([1, 3, 8, 20, 50])
    fine = rng.random() < 0.4
    meanwhile(s, jobs, chosen, [(t - 1, rng.randint(1, pace)) for t in schedule], fine)
    if s.count % 5 == 0:
        s.registry()


def c20(s, rng):
    """One call is interrupted, at each place in turn, for another one."""
    s.new()
    jobs = Jobs(s, rng)
    same = rng.random() < 0.4
    proofs = rng.random() < 0.15
    a = jobs.one(["proof"], True) if proofs else jobs.one(CALLS)
    b = jobs.one(["proof"], True) if proofs else jobs.one([a[0]["do"]] if same and a[0]["do"] in CALLS else CALLS + ["forget"])
    if rng.random() < 0.15:
        b = a                   # the very same call
    fine = rng.random() < 0.35
    p, stride, only = 1, 1, None
    if rng.random() < 0.5:      # within one module, there more thoroughly
        race.Runner.seen.clear()
        meanwhile(s, jobs, [a, b], [(0, 0), (1, 0)], False)
        only = rng.choice(sorted(race.Runner.seen) or [None])
    for _ in range(200 if proofs else 60):
        steps = meanwhile(s, jobs, [a, b], [(0, p), (1, 0 if rng.random() < 0.8 else rng.randint(1, 30)), (0, 0)], fine, only)
        if p > steps[0]:
            break
        stride = max(stride, steps[0] // (150 if proofs else 40))
        p += stride if stride == 1 else rng.randint(1, 2 * stride - 1)
    s.registry()


# what TLC's sessions are followed by, and the random sessions
CASE = {"C04": text_case(), "C05": text_case(), "C06": text_case(), "C07": text_case(True), "C01": c01_case, "C02": c02_case, "C03": c02_case, "C08": c08_case, "C09": c09_case,
        "C10": c10_case, "C11": c11_case, "C17": c17_case, "C18": c18_case, "C20": c20_case}
RANDOM = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07,
          "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C17": c17, "C18": c18, "C20": c20}


# ------------------------------------------------- many operands, in particular
def wide(s, rng, prop):
    """An operator of very many operands, two of which have to do with each other."""
    s.new()
    lg = "pl" if prop == "C01" else rng.choice(LGS)
    n = rng.choice([34, 40, 65, 65, 101, 129, 140])
    names = [f"v{k}" for k in range(n)]
    ops = []
    for x in names:
        a = ["atom", codes(x)]
        i = s.tree(["diamond", ["prop", a], ["tt"]] if lg == "ldl" else a, lg)
        ops.append(s.build("not", [i]) if rng.random() < 0.15 else i)
    if s.broken():
        return
    op = rng.choice(["and", "or"] if prop == "C03" or rng.random() < 0.5 else ["implies", "equivalence"] + gen.BIN[lg])
    i = rng.choice([0, 1, 2, n // 2, rng.randrange(n)])
    j = rng.choice([n - 1, n - 2, n // 2 + 1, rng.randrange(n)])
    r = rng.random()
    if r < 0.3:
        ops[j] = s.build("not", [ops[i]])
    elif r < 0.55:
        ops[j] = ops[i]
    elif r < 0.7:
        ops[j] = s.leaf(lg, [rng.choice(["tt", "ff"])])
    elif r < 0.85:
        ops[j] = s.build(rng.choice([op, "and", "or"]), [ops[j], ops[i]] if rng.random() < 0.5 else [ops[i], ops[j]])
    if s.broken():
        return
    if rng.random() < 0.3:
        i, j = j, i
        ops.reverse()
    vals = []
    for k in range(8):      # all true, all false; all but some
        flip = set(rng.sample(range(n), rng.choice([0, 0, 1, 2]))) | ({i} if rng.random() < 0.3 else set())
        vals.append([(x, (k % 2 == 0) != (m in flip)) for m, x in enumerate(names)])
    worlds = [[codes(x) for x, v in val if v] for val in vals]
    ms = worlds if lg == "pl" else [rng.sample(worlds, rng.choice([1, 1, 2])) for _ in worlds]
    few = {"ms": ms} if op in ("and", "or", "implies", "equivalence") else {}
    top = s.build(op, ops, **few)
    if s.broken():
        return
    if prop == "C01":
        for val in vals:
            s.evaluate(top, rng.choice(["set", "dict"]), val)
        s.obs(top)
    elif prop == "C08":
        s.show(top)
        s.show(s.build("not", [top]))
        s.show(s.build(rng.choice(gen.BOOL), [ops[0], top]))
    elif prop == "C09":
        k = rng.choice([0, 1, n // 2, n - 2, n - 1])
        for v in (ops, ops[:k] + ops[k + 1:], ops[:k] + [ops[k - 2]] + ops[k + 1:], ops[1:] + ops[:1], rng.sample(ops, n),
                  [ops[1], ops[0]] + ops[2:], ops + ops[-1:]):
            s.cmp(top, s.build(op, v))
    elif prop == "C10":
        s.twin("op", op=op, args=ops)
        s.twin("text", top)
        s.show(top)
        s.build(op, ops[::-1])
        s.meddle(top)
        s.obs(top)
        s.registry()
    elif prop == "C11":
        for how in ("copy", "deepcopy", rng.choice(HOWS)):
            k = s.clone(top, how)
            s.obs(k)
            s.cmp(top, k)
            s.show(k)
        s.travel(top)
    elif prop == "C18":
        s.dual(top, ms)
        for o in ("and", "or", "rshift"):
            s.infix(o, [top, ops[i]])
            s.infix(o, [ops[j], top])


def also_wide(prop, plan):
    def run(s, rng):
        s.widened += 1
        if s.widened > 10:
            return plan(s, rng)
        before = s.n
        wide(s, rng, prop)
        s.extra += s.n - before
    return run


for _p in ("C01", "C02", "C03", "C08", "C09", "C10", "C11", "C18"):
    RANDOM[_p] = also_wide(_p, RANDOM[_p])
