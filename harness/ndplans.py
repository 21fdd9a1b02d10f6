"""Proofs for C12 - C16 and C19: enumerated, derived from schemata, random, and mutated."""
import copy
import itertools
import pickle

import nd
import obs
from nd import FF, arrow, atom, conj, disj, key, make, neg, subst
from nd import NaturalDeduction
from obs import codes

VX, VY, VZ = (["var", codes(v)] for v in "xyz")
CC, CD, CK, CM = (["const", codes(c)] for c in ["c", "d", "k", "m"])
SIMPLE = [VX, VY, VZ, CC, CD, CK, CM]


class Wrong(Exception):
    """The step cannot be taken."""


class Writer:
    """Writes a proof, line by line."""

    def __init__(self):
        self.items = []
        self.stack = [self.items]
        self.n = 0
        self.f = {}         # the formula of a row
        self.vis = [[]]     # visible rows of formulae, per level
        self.boxes = [[]]   # visible rows of subproofs, per level
        self.box = {}       # the items of a subproof

    # ------------------------------------------------------------ structure
    def line(self, f, rule, *cites, row=None):
        if row is None:
            self.n += 1
            row = self.n
        self.stack[-1].append(["f", row, f, rule, list(cites)])
        self.f[row] = f
        self.vis[-1].append(row)
        return row

    def premise(self, f):
        return self.line(f, "premise")

    def open(self, f=None, term=None, apart=False):
        """A new subproof, with an assumption, or a term, or both."""
        self.stack.append([])
        self.vis.append([])
        self.boxes.append([])
        if term is not None:
            self.n += 1
            self.stack[-1].append(["t", self.n, term])
        if f is None:
            return None
        return self.line(f, "assumption", row=self.n if term is not None and not apart else None)

    def close(self):
        sub = self.stack.pop()
        self.vis.pop()
        self.boxes.pop()
        if not sub:
            raise Wrong
        row = nd.tidy([["b", 0, sub]])[0][1]
        self.stack[-1].append(["b", row, sub])
        self.boxes[-1].append(row)
        self.box[row] = sub
        return row

    def visible(self):
        return [r for lv in self.vis for r in lv]

    def closed(self):
        return [r for lv in self.boxes for r in lv]

    def last(self):
        return self.stack[-1][-1]

    # ---------------------------------------------------------------- rules
    def and_i(self, i, j):
        return self.line(conj(self.f[i], self.f[j]), "and_i", i, j)

    def and_e(self, i, k):
        f = self.f[i]
        if f[0] != "and":
            raise Wrong
        return self.line(f[k], f"and_e{k}", i)

    def or_i1(self, i, g):
        return self.line(disj(self.f[i], g), "or_i1", i)

    def or_i2(self, i, g):
        return self.line(disj(g, self.f[i]), "or_i2", i)

    def impl_e(self, i, j, g):
        return self.line(g, "impl_e", i, j)

    def impl_i(self, b):
        box = self.box[b]
        if box[0][0] != "f" or box[-1][0] != "f":
            raise Wrong
        return self.line(arrow(box[0][2], box[-1][2]), "impl_i", b)

    def neg_e(self, i, j):
        return self.line(FF, "neg_e", i, j)

    def neg_i(self, b):
        box = self.box[b]
        if box[0][0] != "f":
            raise Wrong
        return self.line(neg(box[0][2]), "neg_i", b)

    def or_e(self, i, b1, b2):
        return self.line(self.box[b1][-1][2], "or_e", i, b1, b2)

    def copy(self, i):
        return self.line(self.f[i], "copy", i)

    def bot_e(self, i, f):
        return self.line(f, "bot_e", i)

    def mt(self, i, j, f):
        return self.line(neg(f), "MT", i, j)

    def forall_e(self, i, t):
        f = self.f[i]
        if f[0] != "forall":
            raise Wrong
        return self.line(subst(f[2], f[1], t), "forall_e", i)

    def exists_i(self, i, f):
        return self.line(f, "exists_i", i)

    def forall_i(self, b, f):
        return self.line(f, "forall_i", b)

    def exists_e(self, i, b):
        return self.line(self.box[b][-1][2], "exists_e", i, b)


# ------------------------------------------------ schemata: propositional
def pl_formula(rng, depth=1, names="abc"):
    r = rng.random()
    if depth <= 0 or r < 0.4:
        return atom(rng.choice(names)) if rng.random() < 0.93 else rng.choice([nd.FF, nd.TT])
    if r < 0.55:
        return neg(pl_formula(rng, depth - 1, names))
    f, g = pl_formula(rng, depth - 1, names), pl_formula(rng, depth - 1, names)
    return arrow(f, g) if r < 0.7 else make(rng.choice(["and", "or"]), f, g)


def s_and_comm(w, A, B, C):
    p = w.premise(conj(A, B))
    return w.and_i(w.line(B, "and_e2", p), w.line(A, "and_e1", p))


def s_syllogism(w, A, B, C):
    p, q = w.premise(arrow(A, B)), w.premise(arrow(B, C))
    a = w.open(A)
    w.impl_e(w.impl_e(a, p, B), q, C)
    return w.impl_i(w.close())


def s_contrapose(w, A, B, C):
    p = w.premise(arrow(A, B))
    a = w.open(neg(B))
    w.mt(p, a, A)
    return w.impl_i(w.close())


def s_or_comm(w, A, B, C):
    p = w.premise(disj(A, B))
    w.or_i2(w.open(A), B)
    b1 = w.close()
    w.or_i1(w.open(B), A)
    return w.or_e(p, b1, w.close())


def s_distribute(w, A, B, C):
    p = w.premise(conj(A, disj(B, C)))
    a, o = w.line(A, "and_e1", p), w.line(disj(B, C), "and_e2", p)
    g, h = conj(A, B), conj(A, C)
    w.or_i1(w.and_i(a, w.open(B)), h)
    b1 = w.close()
    w.or_i2(w.and_i(a, w.open(C)), g)
    return w.or_e(o, b1, w.close())


def s_demorgan(w, A, B, C):
    p = w.premise(neg(disj(A, B)))
    w.neg_e(w.or_i1(w.open(A), B), p)
    n1 = w.neg_i(w.close())
    w.neg_e(w.or_i2(w.open(B), A), p)
    return w.and_i(n1, w.neg_i(w.close()))


def s_explosion(w, A, B, C):
    return w.bot_e(w.neg_e(w.premise(A), w.premise(neg(A))), B)


def s_uncurry(w, A, B, C):
    p = w.premise(arrow(A, arrow(B, C)))
    x = w.open(conj(A, B))
    f = w.impl_e(w.line(A, "and_e1", x), p, arrow(B, C))
    w.impl_e(w.line(B, "and_e2", x), f, C)
    return w.impl_i(w.close())


def s_curry(w, A, B, C):
    p = w.premise(arrow(conj(A, B), C))
    a = w.open(A)
    b = w.open(B)
    w.impl_e(w.and_i(a, b), p, C)
    w.impl_i(w.close())
    return w.impl_i(w.close())


def s_disj_syll(w, A, B, C):
    p, q = w.premise(disj(A, B)), w.premise(neg(A))
    w.bot_e(w.neg_e(w.open(A), q), B)
    b1 = w.close()
    w.copy(w.open(B))
    return w.or_e(p, b1, w.close())


def s_weaken(w, A, B, C):
    a = w.open(A)
    w.open(B)
    w.copy(a)
    w.impl_i(w.close())
    return w.impl_i(w.close())


def s_reductio(w, A, B, C):
    p, q = w.premise(arrow(A, B)), w.premise(arrow(A, neg(B)))
    a = w.open(A)
    w.neg_e(w.impl_e(a, p, B), w.impl_e(a, q, neg(B)))
    return w.neg_i(w.close())


def s_cases(w, A, B, C):
    p, q, o = w.premise(arrow(A, C)), w.premise(arrow(B, C)), w.premise(disj(A, B))
    w.impl_e(w.open(A), p, C)
    b1 = w.close()
    w.impl_e(w.open(B), q, C)
    return w.or_e(o, b1, w.close())


def s_dneg(w, A, B, C):
    p = w.premise(A)
    d = w.line(neg(neg(A)), "dneg_i", p)
    return w.line(A, "dneg_e", d)


def s_nested_cases(w, A, B, C):
    p, q = w.premise(disj(A, B)), w.premise(disj(C, B))
    a = w.open(A)
    w.and_i(a, w.open(C))
    w.or_i1(w.last()[1], B)
    b1 = w.close()
    w.or_i2(w.open(B), conj(A, C))
    w.or_e(q, b1, w.close())
    b2 = w.close()
    w.or_i2(w.open(B), conj(A, C))
    return w.or_e(p, b2, w.close())


def s_indirect(w, A, B, C):
    """From not (A and not B), A: B, by the way of a contradiction."""
    p, a = w.premise(neg(conj(A, neg(B)))), w.premise(A)
    x = w.open(neg(B))
    w.neg_e(w.and_i(a, x), p)
    n = w.neg_i(w.close())
    return w.line(B, "dneg_e", n)


PL_SCHEMATA = [s_and_comm, s_syllogism, s_contrapose, s_or_comm, s_distribute, s_demorgan, s_explosion, s_uncurry,
               s_curry, s_disj_syll, s_weaken, s_reductio, s_cases, s_dneg, s_nested_cases, s_indirect]


# -------------------------------------------------- schemata: first order
def pred(n, *ts):
    return ["pred", codes(n)] + list(ts)


def fun(n, *ts):
    return ["fun", codes(n)] + list(ts)


def applied(rng, t, depth=3):
    """Functions of the term t (and of others)."""
    r = rng.random()
    f = fun("f", t) if r < 0.4 else fun("g", t) if r < 0.6 else \
        fun("h", t, rng.choice([CC, CD, t])) if r < 0.8 else fun("h", rng.choice([CC, VZ, t]), t)
    return applied(rng, f, depth - 1) if depth > 1 and rng.random() < 0.4 else f


def forall(x, f):
    return ["forall", x, f]


def exists(x, f):
    return ["exists", x, f]


def fol_formula(rng, free, depth=1, bound=(VY, VZ)):
    """A formula about the terms free."""
    r = rng.random()
    if depth <= 0 or r < 0.45:
        n, k = rng.choice([("P", 1), ("P", 1), ("Q", 1), ("R", 2), ("R", 2), ("A", 0)])
        if rng.random() < 0.05:
            n, k = rng.choice([("T", 3), ("T", 3), ("S", 4), ("W", 6)])
        ts = [rng.choice(list(free) * 3 + [CC, CD]) for _ in range(k)]
        if rng.random() < 0.12:
            ts = [applied(rng, t) if rng.random() < 0.6 else t for t in ts]
        return pred(n, *ts)
    if r < 0.55:
        return neg(fol_formula(rng, free, depth - 1, bound))
    if r < 0.75:
        x = rng.choice(list(bound) + [VX] * (rng.random() < 0.15))
        return [rng.choice(["forall", "exists"]), x, fol_formula(rng, list(free) + [x], depth - 1, bound)]
    f, g = fol_formula(rng, free, depth - 1, bound), fol_formula(rng, free, depth - 1, bound)
    return arrow(f, g) if r < 0.88 else make(rng.choice(["and", "or"]), f, g)


PLACES = {1: "P", 2: "R", 3: "T", 4: "S", 5: "V", 6: "W"}


def placed(rng, t, depth=None):
    """A formula with the term t in one place only, wherever that is."""
    def among(u, filler, k):
        xs = [filler(i) for i in range(k)]
        xs[rng.randrange(k)] = u
        return xs
    u = t
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        k = rng.choice([1, 2, 3, 4])
        u = fun("fhuv"[k - 1], *among(u, lambda i: rng.choice([CC, CD]), k))
    k = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    f = pred(PLACES[k], *among(u, lambda i: rng.choice([CC, CD]), k))
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if depth is None else depth):
        op = rng.choice(["not", "forall", "exists", "and", "or", "implies", "equivalence", "and", "or"])
        if op == "not":
            f = neg(f)
        elif op in ("forall", "exists"):
            f = [op, rng.choice([VY, VZ, VX]), f]
        else:
            names = rng.sample(["A", "B", "D", "E", "G"], 4)
            k = 2 if op == "implies" else rng.choice([2, 2, 3, 4])
            f = make(op, *among(f, lambda i: pred(names[i]), k))
    return f


class Matrix:
    """A formula with a hole for a term."""

    def __init__(self, rng, depth=None, hole=None):
        self.hole = hole or ["var", codes("w")]
        self.f = placed(rng, self.hole, depth) if rng.random() < 0.25 else \
            fol_formula(rng, [self.hole], rng.choice([0, 0, 1, 1, 2]) if depth is None else depth)

    def __call__(self, t):
        return subst(self.f, self.hole, t)


def pick_term(rng):
    return rng.choice([CK, CK, CM, VZ, VY, VX, CC])


def q_modus(w, rng, P, Q, R):
    """forall x (P -> Q), forall x P: forall x Q"""
    x, k, apart = VX, pick_term(rng), True
    p, q = w.premise(forall(x, arrow(P(x), Q(x)))), w.premise(forall(x, P(x)))
    w.open(term=k)
    f, g = w.forall_e(p, k), w.forall_e(q, k)
    w.impl_e(g, f, Q(k))
    return w.forall_i(w.close(), forall(x, Q(x)))


def q_some(w, rng, P, Q, R):
    """exists x P, forall x (P -> Q): exists x Q"""
    x, k = VX, pick_term(rng)
    p, q = w.premise(exists(x, P(x))), w.premise(forall(x, arrow(P(x), Q(x))))
    a = w.open(P(k), term=k, apart=rng.random() < 0.3)
    w.exists_i(w.impl_e(a, w.forall_e(q, k), Q(k)), exists(x, Q(x)))
    return w.exists_e(p, w.close())


def q_inst(w, rng, P, Q, R):
    t = rng.choice([CC, CD, VY, VX, fun("f", CC), fun("f", VZ), applied(rng, rng.choice(SIMPLE))])
    p = w.premise(forall(VX, P(VX)))
    return w.exists_i(w.forall_e(p, t), exists(rng.choice([VX, VX, VY, VZ]), P(VX)))


def q_inst2(w, rng, P, Q, R):
    t = rng.choice([CC, CD, VY, fun("f", CC), fun("f", VZ), applied(rng, rng.choice(SIMPLE))])
    y = rng.choice([VX, VX, VY, VZ])
    p = w.premise(forall(VX, P(VX)))
    return w.exists_i(w.forall_e(p, t), exists(y, P(y)))


def q_swap(w, rng, P, Q, R):
    """forall x forall y R: forall y forall x R"""
    k, m = pick_term(rng), pick_term(rng)
    p = w.premise(forall(VX, forall(VY, R(VX, VY))))
    w.open(term=k)
    w.open(term=m)
    f = w.forall_e(p, m)
    w.forall_e(f, k)
    w.forall_i(w.close(), forall(VX, R(VX, k)))
    return w.forall_i(w.close(), forall(VY, forall(VX, R(VX, VY))))


def q_uniform(w, rng, P, Q, R):
    """exists x forall y R: forall y exists x R"""
    k, m = pick_term(rng), pick_term(rng)
    p = w.premise(exists(VX, forall(VY, R(VX, VY))))
    w.open(term=m)
    a = w.open(forall(VY, R(k, VY)), term=k)
    w.exists_i(w.forall_e(a, m), exists(VX, R(VX, m)))
    w.exists_e(p, w.close())
    return w.forall_i(w.close(), forall(VY, exists(VX, R(VX, VY))))


def q_fallacy(w, rng, P, Q, R):
    """forall y exists x R: exists x forall y R, which does not follow"""
    k, m = pick_term(rng), pick_term(rng)
    p = w.premise(forall(VY, exists(VX, R(VX, VY))))
    w.open(term=m)
    e = w.forall_e(p, m)
    w.open(R(k, m), term=k)
    order = rng.random()
    if order < 0.4:
        w.copy(w.last()[1])
        w.exists_e(e, w.close())
        b = w.close()
        f = w.forall_i(b, forall(VY, R(k, VY)))
        return w.exists_i(f, exists(VX, forall(VY, R(VX, VY))))
    w.exists_e(e, w.close())
    return w.forall_i(w.close(), forall(VY, R(k, VY)))


def q_exists_swap(w, rng, P, Q, R):
    k, m = pick_term(rng), pick_term(rng)
    p = w.premise(exists(VX, exists(VY, R(VX, VY))))
    a = w.open(exists(VY, R(k, VY)), term=k)
    b = w.open(R(k, m), term=m)
    w.exists_i(w.exists_i(b, exists(VX, R(VX, m))), exists(VY, exists(VX, R(VX, VY))))
    w.exists_e(a, w.close())
    return w.exists_e(p, w.close())


def q_no_some(w, rng, P, Q, R):
    """not exists x P: forall x not P"""
    k = pick_term(rng)
    p = w.premise(neg(exists(VX, P(VX))))
    w.open(term=k)
    w.neg_e(w.exists_i(w.open(P(k)), exists(VX, P(VX))), p)
    w.neg_i(w.close())
    return w.forall_i(w.close(), forall(VX, neg(P(VX))))


def q_some_not(w, rng, P, Q, R):
    """exists x not P: not forall x P"""
    k = pick_term(rng)
    p = w.premise(exists(VX, neg(P(VX))))
    a = w.open(forall(VX, P(VX)))
    b = w.open(neg(P(k)), term=k)
    w.neg_e(w.forall_e(a, k), b)
    w.exists_e(p, w.close())
    return w.neg_i(w.close())


def q_both(w, rng, P, Q, R):
    """exists x (P and Q): exists x P and exists x Q"""
    k = pick_term(rng)
    p = w.premise(exists(VX, conj(P(VX), Q(VX))))
    a = w.open(conj(P(k), Q(k)), term=k)
    e1 = w.exists_i(w.line(P(k), "and_e1", a), exists(VX, P(VX)))
    e2 = w.exists_i(w.line(Q(k), "and_e2", a), exists(VX, Q(VX)))
    w.and_i(e1, e2)
    return w.exists_e(p, w.close())


def q_together(w, rng, P, Q, R):
    k = pick_term(rng)
    p, q = w.premise(forall(VX, P(VX))), w.premise(forall(VX, Q(VX)))
    w.open(term=k)
    w.and_i(w.forall_e(p, k), w.forall_e(q, k))
    return w.forall_i(w.close(), forall(VX, conj(P(VX), Q(VX))))


def q_either(w, rng, P, Q, R):
    """exists x (P or Q): exists x P or exists x Q"""
    k = pick_term(rng)
    p = w.premise(exists(VX, disj(P(VX), Q(VX))))
    f, g = exists(VX, P(VX)), exists(VX, Q(VX))
    a = w.open(disj(P(k), Q(k)), term=k)
    w.or_i1(w.exists_i(w.open(P(k)), f), g)
    b1 = w.close()
    w.or_i2(w.exists_i(w.open(Q(k)), g), f)
    w.or_e(a, b1, w.close())
    return w.exists_e(p, w.close())


def q_generalise(w, rng, P, Q, R):
    """P about a term: forall x P, which follows only for a new one"""
    k = pick_term(rng)
    x = rng.choice([VX, VX, VY])
    kind = rng.random()
    if kind < 0.35:        # the term is spoken of by the premise
        w.premise(P(k))
        w.open(term=k)
        w.copy(1)
    elif kind < 0.6:       # an assumption about it
        w.open(P(k), term=k)
        if rng.random() < 0.5:
            w.copy(w.last()[1])
    elif kind < 0.8:       # it remains in the conclusion
        w.premise(forall(VX, R(VX, VX)))
        w.open(term=k)
        w.forall_e(1, k)
        return w.forall_i(w.close(), forall(x, R(x, k)))
    else:                  # a subproof that is about it, around
        a = w.open(P(k))
        w.open(term=k)
        w.copy(a)
        w.forall_i(w.close(), forall(x, P(x)))
        return w.impl_i(w.close())
    return w.forall_i(w.close(), forall(x, P(x)))


def q_leak(w, rng, P, Q, R):
    """the witness of an existential formula is not any term"""
    k = pick_term(rng)
    p = w.premise(exists(VX, P(VX)))
    kind = rng.random()
    if kind < 0.3:         # it escapes
        w.open(P(k), term=k)
        w.copy(w.last()[1])
        return w.exists_e(p, w.close())
    if kind < 0.6:         # it is one that something is known about
        q = w.premise(Q(k))
        a = w.open(P(k), term=k)
        w.exists_i(w.and_i(a, q), exists(VX, conj(P(VX), Q(VX))))
        return w.exists_e(p, w.close())
    if kind < 0.8:         # it occurs in the existential formula
        p = w.premise(exists(VX, R(VX, k)))
        w.open(R(k, k), term=k)
        w.exists_i(w.last()[1], exists(VX, R(VX, VX)))
        return w.exists_e(p, w.close())
    w.open(P(k), term=k)   # all of them satisfy it?
    w.copy(w.last()[1])
    b = w.close()
    f = w.forall_i(b, forall(VX, P(VX)))
    return f


def q_capture(w, rng, P, Q, R):
    """forall x exists y R(x, y): exists y R(y, y), which does not follow"""
    q1, q2 = rng.choice([(forall, exists), (forall, forall), (exists, exists)])
    f = q2(VY, R(VX, VY))
    kind = rng.random()
    if kind < 0.5:
        p = w.premise(forall(VX, f))
        return w.line(subst(f, VX, VY), "forall_e", p)
    if kind < 0.75:
        p = w.premise(q2(VY, R(VY, VY)))
        return w.line(exists(VX, q2(VY, R(VX, VY))), "exists_i", p)
    p = w.premise(exists(VX, f))
    w.open(subst(f, VX, VY), term=VY)
    w.exists_i(w.last()[1], exists(VX, subst(f, VX, VY)))
    return w.exists_e(p, w.close())


def q_partly(w, rng, P, Q, R):
    """some occurrences only"""
    k = pick_term(rng)
    kind = rng.random()
    g = rng.choice([R(VX, k), R(k, VX), R(VX, VX)])
    if kind < 0.4:
        p = w.premise(R(k, k))
        return w.exists_i(p, exists(VX, g))
    if kind < 0.7:
        p = w.premise(forall(VX, R(VX, VX)))
        return w.line(subst(g, VX, CC), "forall_e", p)
    p = w.premise(forall(VX, arrow(P(VX), R(VX, VX))))
    w.open(term=k)
    a = w.open(P(k))
    w.impl_e(a, w.forall_e(p, k), R(k, k))
    w.impl_i(w.close())
    return w.forall_i(w.close(), forall(VX, arrow(P(VX), g)))


FOL_SCHEMATA = [q_modus, q_some, q_inst, q_inst2, q_swap, q_uniform, q_fallacy, q_exists_swap, q_no_some, q_some_not, q_both,
                q_together, q_either, q_generalise, q_leak, q_capture, q_partly]


class Dyadic:
    def __init__(self, rng):
        self.v, self.u = ["var", codes("w")], ["var", codes("u")]
        r = rng.random()
        if r < 0.4:
            self.f = pred("R", self.v, self.u)
        elif r < 0.6:
            k = rng.choice([3, 3, 4, 5, 6])
            ts = [rng.choice([CC, CD]) for _ in range(k)]
            for i, t in zip(rng.sample(range(k), 2), (self.v, self.u)):
                ts[i] = t
            self.f = pred(PLACES[k], *ts)
        else:
            self.f = make(rng.choice(["and", "or"]), pred("R", self.v, self.u),
                          fol_formula(rng, [self.v, self.u], rng.choice([0, 1]), bound=(VZ,)))

    def __call__(self, t, u):
        return subst(subst(subst(self.f, self.u, ["var", codes("@")]), self.v, t), ["var", codes("@")], u)


def from_schema(rng, theory):
    w = Writer()
    if theory == "pl":
        A, B, C = (pl_formula(rng, rng.choice([0, 0, 0, 1, 1, 2])) for _ in range(3))
        rng.choice(PL_SCHEMATA)(w, A, B, C)
    elif rng.random() < 0.1:
        A, B, C = (fol_formula(rng, [CC, CD], rng.choice([0, 1])) for _ in range(3))
        rng.choice(PL_SCHEMATA)(w, A, B, C)
    else:
        rng.choice(FOL_SCHEMATA)(w, rng, Matrix(rng), Matrix(rng), Dyadic(rng))
    return w.items


# ------------------------------------------------ proofs of a size
def many(rng, theory):
    """Several derivations, one after the other."""
    w = Writer()
    for _ in range(rng.randint(2, 7)):
        try:
            if theory == "pl":
                A, B, C = (pl_formula(rng, rng.choice([0, 0, 1, 1, 2])) for _ in range(3))
                rng.choice(PL_SCHEMATA)(w, A, B, C)
            else:
                rng.choice(FOL_SCHEMATA)(w, rng, Matrix(rng), Matrix(rng), Dyadic(rng))
        except Wrong:
            while len(w.stack) > 1:
                w.close()
    return w.items


def nested(rng, theory):
    """Subproofs in subproofs in subproofs; lines of all levels are used at all levels inside."""
    w = Writer()
    formula = (lambda: pl_formula(rng, rng.choice([0, 0, 1]), "abcd")) if theory == "pl" else \
        (lambda: fol_formula(rng, [CC, CD], rng.choice([0, 0, 1]), bound=(VZ,)))
    if rng.random() < 0.6:
        w.premise(formula())
    for level in range(rng.choice([3, 4, 5, 6, 7, 9, 12])):
        if theory == "fol" and rng.random() < 0.5:
            w.open(term=["const", codes(f"k{level}")])
        else:
            vis = w.visible()
            w.open(neg(w.f[rng.choice(vis)]) if vis and rng.random() < 0.25 else formula())
        for _ in range(rng.choice([0, 1, 1, 2])):
            some_line(w, rng, formula)
    while len(w.stack) > 1:
        box = w.stack[-1]
        if box[-1][0] != "f":
            if not w.visible():
                raise Wrong
            w.copy(rng.choice(w.visible()))
        first, last = box[0], box[-1]
        level = len(w.stack)
        b = w.close()
        if first[0] == "t":
            x = ["var", codes(f"x{level}")]
            w.forall_i(b, forall(x, subst(last[2], first[2], x)))
        elif last[2] == FF and rng.random() < 0.8:
            w.neg_i(b)
        else:
            w.impl_i(b)
        if rng.random() < 0.5:
            some_line(w, rng, formula)
    return w.items


def some_line(w, rng, formula):
    """A line that follows from what is visible."""
    vis = w.visible()
    if not vis:
        return
    i, j = rng.choice(vis), rng.choice(vis[-3:])
    for k in vis:
        if w.f[k] == neg(w.f[j]) and rng.random() < 0.7:
            w.neg_e(j, k)
            return
    ands = [k for k in vis if w.f[k][0] == "and" and len(w.f[k]) == 3]
    ors = [k for k in vis if w.f[k][0] == "or" and len(w.f[k]) == 3]
    alls = [k for k in vis if w.f[k][0] == "forall"]
    r = rng.random()
    if ands and r < 0.25:
        w.and_e(rng.choice(ands), rng.choice([1, 2]))
    elif ors and r < 0.4:
        do_cases(w, rng, rng.choice(ors), None)
    elif alls and r < 0.5:
        w.forall_e(rng.choice(alls), rng.choice([CC, CD] + [s[0][2] for s in w.stack if s and s[0][0] == "t"]))
    elif r < 0.65:
        w.and_i(i, j)
    elif r < 0.75:
        rng.choice([w.or_i1, w.or_i2])(i, formula())
    elif r < 0.85:
        w.line(w.f[i], "dneg_i", i)
    else:
        w.copy(i)


# -------------------------------------------------- random right proofs
def random_proof(rng, theory):
    w = Writer()
    formula = ((lambda d=1: pl_formula(rng, d)) if theory == "pl"
               else (lambda d=1: fol_formula(rng, [CC, CD, VX][:rng.choice([1, 2, 3])], d)))
    pool = [formula() for _ in range(rng.choice([2, 3]))]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        f, g = rng.choice(pool), rng.choice(pool)
        h = rng.choice([f, neg(f), arrow(f, g), conj(f, g), disj(f, g), arrow(f, neg(g))])
        if theory == "fol" and rng.random() < 0.5:
            m = Matrix(rng, 1)
            h = rng.choice([forall, exists])(VX, m(VX))
        w.premise(h)
    for _ in range(rng.randint(3, 12)):
        step(w, rng, pool, theory, formula)
    while len(w.stack) > 1:
        finish(w, rng, pool)
    return w.items


def finish(w, rng, pool):
    """Close the innermost subproof, and discharge it."""
    box = w.stack[-1]
    if box[-1][0] != "f":
        vis = w.visible()
        if not vis:
            w.line(pool[0], "premise")     # wrong, but for a reason
        else:
            w.copy(rng.choice(vis))
    box = w.stack[-1]
    first, last = box[0], box[-1]
    b = w.close()
    if first[0] == "f" and last[2] == FF and rng.random() < 0.6:
        w.neg_i(b)
    elif first[0] == "f" and rng.random() < 0.85:
        w.impl_i(b)
    elif first[0] == "t" and len(box) > 1 and last[0] == "f":
        x = VX if first[2] != VX else VY
        if box[1][0] == "f" and box[1][3] == "assumption":
            e = exists(x, subst(box[1][2], first[2], x))
            for r in w.visible():
                if w.f[r] == e:
                    w.exists_e(r, b)
                    return
        w.forall_i(b, forall(x, subst(last[2], first[2], x)))


def step(w, rng, pool, theory, formula):
    vis, boxes = w.visible(), w.closed()
    r = rng.random()
    depth = len(w.stack)
    try:
        if r < 0.14 and depth < 4:
            f = rng.choice(pool + [neg(p) for p in pool])
            w.open(f)
        elif r < 0.20 and theory == "fol" and depth < 4:
            ex = [i for i in vis if w.f[i][0] == "exists"]
            k = rng.choice([CK, CM, ["const", codes(f"e{w.n}")], VZ])
            if ex and rng.random() < 0.7:
                f = w.f[rng.choice(ex)]
                w.open(subst(f[2], f[1], k), term=k)
            else:
                w.open(term=k)
        elif r < 0.32 and depth > 1 and len(w.stack[-1]) > 1:
            finish(w, rng, pool)
        elif not vis:
            w.open(rng.choice(pool))
        elif r < 0.38:
            w.and_i(rng.choice(vis), rng.choice(vis))
        elif r < 0.46:
            ands = [i for i in vis if w.f[i][0] == "and"]
            w.and_e(rng.choice(ands), rng.choice([1, 2])) if ands else w.copy(rng.choice(vis))
        elif r < 0.52:
            (w.or_i1 if rng.random() < 0.5 else w.or_i2)(rng.choice(vis), rng.choice(pool))
        elif r < 0.58:
            w.line(w.f[i := rng.choice(vis)], rng.choice(["copy", "dneg_i", "dneg_e"]), i)
        elif theory == "fol" and r < 0.74:
            i = rng.choice(vis)
            f = w.f[i]
            if f[0] == "forall":
                w.forall_e(i, rng.choice([CC, CD, CK, VZ, VX, fun("f", CC), applied(rng, rng.choice(SIMPLE))] + [s[0][2] for s in w.stack if s and s[0][0] == "t"] * 3))
            else:
                ts = nd.terms_of(f) or [CC]
                x = rng.choice([VX, VY, VZ])
                w.exists_i(i, exists(x, subst(f, rng.choice(ts), x)))
        else:
            moves = []
            for i in vis:
                for j in vis:
                    f, g = w.f[i], w.f[j]
                    if g == neg(f):
                        moves.append(lambda i=i, j=j: w.neg_e(i, j))
                    if g[0] == "or" and g[1] == neg(f) and len(g) == 3:
                        moves += [lambda i=i, j=j, h=g[2]: w.impl_e(i, j, h)] * 2
                    if f[0] == "or" and len(f) == 3 and g == neg(f[2]):
                        moves += [lambda i=i, j=j, h=neg(f[1]): w.mt(i, j, h)] * 2
                if w.f[i] == FF:
                    moves.append(lambda i=i: w.bot_e(i, formula()))
            ors = [i for i in vis if w.f[i][0] == "or" and len(w.f[i]) == 3]
            if ors and depth < 4:
                moves.append(lambda i=ors[-1]: do_cases(w, rng, i, pool))
            if moves:
                rng.choice(moves)()
    except Wrong:
        pass


def do_cases(w, rng, i, pool):
    f, g = w.f[i][1:3]
    w.or_i1(w.open(f), g)
    b1 = w.close()
    w.or_i2(w.open(g), f)
    if w.last()[2] != disj(f, g):
        raise Wrong
    w.or_e(i, b1, w.close())


# ------------------------------------------- single steps, systematically
U = [atom("a"), atom("b"), nd.FF]
U2 = None


def universe():
    global U2
    if U2 is None:
        a, b = U[:2]
        U2 = [a, b, nd.FF, nd.TT, neg(a), neg(b), conj(a, b), conj(b, a), disj(a, b), disj(b, a), arrow(a, b), arrow(b, a),
              arrow(a, neg(b)), arrow(neg(a), b), conj(neg(a), b), neg(conj(a, b)), neg(disj(a, b)), disj(conj(a, b), a)]
    return U2


def fol_universe():
    """Quantified formulae and candidates for their instances."""
    P, Q = (lambda t: pred("P", t)), (lambda t: pred("Q", t))
    R = lambda t, u: pred("R", t, u)
    fc = fun("f", CC)
    quants = []
    for x in (VX, VY):
        for body in (P(x), P(CC), R(x, x), R(x, CC), R(x, VY), R(VX, VY), conj(P(x), Q(x)), arrow(P(x), Q(x)),
                     forall(VY, R(x, VY)), exists(VY, R(x, VY)), exists(VY, conj(R(x, VY), P(x))), forall(VX, P(VX)),
                     arrow(P(x), exists(VY, R(x, VY))), neg(P(x)), neg(exists(VY, R(VY, x))), P(fun("f", x)),
                     make("equivalence", P(x), Q(x)), make("implies", P(x), R(x, VY)), conj(P(x), exists(VX, Q(VX))),
                     disj(P(CC), P(x)), P(fun("g", fun("f", x))), R(fun("h", CC, x), fun("h", x, x))):
            quants.append((x, body))
    return quants, [CC, CD, VX, VY, VZ, fc, fun("f", VX), fun("f", VY), fun("h", VY, fun("f", VX))]


def single_pl(rng, k=None):
    """One step, of one rule, from two lines and up to two subproofs."""
    u = universe()
    w = Writer()
    rule = rng.choice([r for r in nd.PL_RULES if r not in ("premise",)])
    r = rng.random()
    f = rng.choice(u)
    if rule in ("impl_i", "neg_i"):
        p = w.premise(rng.choice(u))
        a, g = rng.choice(u), rng.choice(u + [FF] * 6)
        hyp = w.open(a)
        end_box(w, rng, hyp, p, g)
        b = w.close()
        good = arrow(a, w.box[b][-1][2]) if rule == "impl_i" else neg(a)
        w.line(good if r < 0.5 else f, rule, b)
    elif rule == "or_e":
        x, y = rng.choice(u), rng.choice(u)
        o = w.premise(disj(x, y) if r < 0.6 else rng.choice(u))
        goal = rng.choice(u)
        bs = []
        for z in (x, y):
            z = z if rng.random() < 0.8 else rng.choice(u)
            h = w.open(z)
            end_box(w, rng, h, o, goal if rng.random() < 0.7 else rng.choice(u))
            bs.append(w.close())
        if rng.random() < 0.15:
            bs.reverse()
        if rng.random() < 0.1:
            bs[1] = bs[0]
        w.line(w.box[bs[0]][-1][2] if rng.random() < 0.7 else goal, "or_e", o, *bs)
    else:
        n = len(TAKES[rule])
        fs = [rng.choice(u) for _ in range(max(n, 1))]
        x = fs[0]
        if r < 0.65:      # near an instance
            y = rng.choice(u)
            if rule in ("and_e1", "and_e2"):
                fs, f = [conj(x, y)], rng.choice([x, y, x, y, neg(x), f])
            elif rule == "and_i":
                fs, f = [x, y], rng.choice([conj(x, y)] * 2 + [conj(y, x), disj(x, y), x, f])
            elif rule in ("or_i1", "or_i2"):
                f = rng.choice([disj(x, y), disj(y, x), conj(x, y), f])
            elif rule == "impl_e":
                fs, f = rng.choice([[x, arrow(x, y)]] * 3 + [[y, arrow(x, y)], [arrow(x, y), x], [neg(x), arrow(x, y)], [x, disj(x, y)]]), \
                    rng.choice([y] * 4 + [x, neg(y), f])
            elif rule == "MT":
                fs, f = rng.choice([[arrow(x, y), neg(y)]] * 3 + [[arrow(x, y), neg(x)], [arrow(x, y), y], [neg(y), arrow(x, y)]]), \
                    rng.choice([neg(x)] * 4 + [neg(y), x, y])
            elif rule == "neg_e":
                fs, f = rng.choice([[x, neg(x)]] * 2 + [[neg(x), x], [x, x], [x, neg(y)]]), rng.choice([FF] * 4 + [nd.TT, f])
            elif rule in ("dneg_e", "dneg_i", "copy"):
                f = rng.choice([x, x, neg(x), f])
            elif rule == "bot_e":
                fs = [rng.choice([FF, FF, nd.TT, x, neg(x)])]
        cites = [w.premise(g) for g in fs[:max(n, 1)]][:n]
        if rng.random() < 0.1 and cites:
            rng.shuffle(cites)
        w.line(f, rule, *cites)
    return w.items


def end_box(w, rng, hyp, outer, g):
    """Some last line of a subproof, rightly derived."""
    h = w.f[hyp]
    r = rng.random()
    if r < 0.15:
        return
    if r < 0.3:
        w.copy(rng.choice([hyp, outer]))
    elif r < 0.45:
        (w.or_i1 if rng.random() < 0.5 else w.or_i2)(hyp, g)
    elif r < 0.55:
        w.and_i(hyp, outer)
    elif w.f[outer] == neg(h):
        w.neg_e(hyp, outer)
        if rng.random() < 0.5:
            w.bot_e(w.last()[1], g)
    elif h == FF:
        w.bot_e(hyp, g)
    elif h[0] == "and" and len(h) == 3:
        w.and_e(hyp, rng.choice([1, 2]))
    else:
        w.line(g, rng.choice(["copy", "impl_i", "premise", "assumption"]), hyp)


TAKES = {"and_e1": "f", "and_e2": "f", "and_i": "ff", "assumption": "", "bot_e": "f", "copy": "f", "dneg_e": "f",
         "dneg_i": "f", "impl_e": "ff", "MT": "ff", "neg_e": "ff", "or_i1": "f", "or_i2": "f"}


def single_fol(rng):
    quants, terms = fol_universe()
    x, body = rng.choice(quants)
    t, k = rng.choice(terms), rng.choice([CK, CM, VZ, VY, VX, CC])
    w = Writer()
    rule = rng.choice(["forall_e", "exists_i", "forall_i", "exists_e"])
    other = subst(rng.choice(quants)[1], rng.choice([VX, VY]), rng.choice(terms))

    def inst(u):
        r = rng.random()
        if r < 0.72:
            return subst(body, x, u)
        if r < 0.9:
            return obs.dump(nd.form(nd.replace_some(rng, body, x, u)))
        return other
    if rule == "forall_e":
        p = w.premise((forall if rng.random() < 0.92 else exists)(x, body))
        w.line(inst(t), "forall_e", p)
    elif rule == "exists_i":
        p = w.premise(inst(t))
        w.line((exists if rng.random() < 0.92 else forall)(x, body), "exists_i", p)
    elif rule == "forall_i":
        y = rng.choice([x, x, VZ])
        p = w.premise(forall(y, subst(body, x, y)) if rng.random() < 0.7 else inst(k))
        w.open(*([inst(k)] if rng.random() < 0.15 else []), term=k)
        if w.f[p][0] == "forall" and rng.random() < 0.9:
            w.forall_e(p, k if rng.random() < 0.85 else t)
        else:
            w.copy(p)
        b = w.close()
        w.line(forall(x, body if rng.random() < 0.85 else obs.dump(nd.form(nd.replace_some(rng, body, x, k)))), "forall_i", b)
    else:
        p = w.premise((exists if rng.random() < 0.92 else forall)(x, body))
        q = w.premise(other) if rng.random() < 0.2 else None
        a = w.open(inst(k), term=k, apart=rng.random() < 0.3)
        z = rng.choice([VX, VY, VZ])
        r = rng.random()
        if r < 0.5:
            w.exists_i(a, exists(z, subst(w.f[a], k, z)))
        elif r < 0.7:
            w.copy(rng.choice([a, p] + ([q] if q else [])))
        else:
            w.or_i1(a, other)
        b = w.close()
        w.line(w.box[b][-1][2] if rng.random() < 0.9 else other, "exists_e", p, b)
    return w.items


# --------------------------------------------------------------- sessions
def normal(items):
    """The formulae as the library has them; None if it refuses one."""
    out = []
    for it in items:
        if it[0] == "f":
            try:
                f = obs.dump(nd.form(it[2]))
                if obs.dump(nd.form(f)) != f:       # constants are not of the logic they were of
                    return None
            except (ValueError, nd.obs.NotAFormula, AttributeError, TypeError, KeyError, Exception):
                return None
            out.append(["f", it[1], f, it[3], it[4]])
        elif it[0] == "b":
            sub = normal(it[2])
            if sub is None:
                return None
            out.append(["b", it[1], sub])
        else:
            out.append(it)
    return out


def verdict(s, fn):
    res, _ = s.call(fn, convert=s.boolean)
    return res


def emit(s, items):
    """Build and check a proof; the proof, for more checks."""
    items = normal(nd.tidy(items))
    if not items:
        return None
    written = nd.real(items)
    holder = {}

    def first():
        holder["p"] = NaturalDeduction.Proof(written)
        return NaturalDeduction.check(holder["p"])
    s.emit(e="proof", items=items, res=verdict(s, first))
    return {"items": items, "written": written, "proof": holder.get("p")}


def family(s, rng, items, theory, k):
    """A proof and some that are nearly it."""
    to = nd.spelling(rng) if rng.random() < 0.4 else None
    other = [lambda: nd.misspelt(rng, nd.spoken(items, to) if to else items)] if rng.random() < 0.4 else []
    for m in [items] + [mutant(rng, items, theory) for _ in range(k)] + other:
        spoken = callable(m)
        m = m() if spoken else m
        if m:
            if to and not spoken:
                m = nd.spoken(m, to)
            if rng.random() < 0.15:
                m = nd.scattered(rng, nd.tidy(m))
            emit(s, m)


def mutant(rng, items, theory):
    try:
        return nd.mutate(rng, nd.tidy(copy.deepcopy(items)), theory)
    except (ValueError, IndexError, Exception):
        return None


def any_proof(rng, theory):
    r = rng.random()
    try:
        if r < 0.05:
            return rng.choice([many, nested, nested])(rng, theory)
        if r < 0.35:
            return from_schema(rng, theory)
        if r < 0.6:
            return random_proof(rng, theory)
        return single_pl(rng) if theory == "pl" else single_fol(rng)
    except Exception:       # no such formula, or no such step
        return None


def plan(theory, k):
    def go(s, rng):
        s.new()
        for _ in range(5):
            items = any_proof(rng, theory)
            if items:
                family(s, rng, items, theory, rng.randint(0, k))
    return go


def both(k):
    pl, fo = plan("pl", k), plan("fol", k)

    def go(s, rng):
        (pl if rng.random() < 0.85 else fo)(s, rng)
    return go


def case(k):
    def go(s, theory, items):
        import random
        rng = random.Random(key(items))
        s.count += 1
        if theory == "last":        # right or wrong, as it is
            if s.count % 20 == 1:
                s.new()
            emit(s, items)
            return
        s.new()
        family(s, rng, items, "pl" if theory.startswith("pl") else "fol", k)
    return go


# C19: the same proof again, in various guises
def c19(s, rng):
    s.new()
    nds = NaturalDeduction()
    made, k = [], 0
    for _ in range(rng.randint(2, 5)):
        theory = rng.choice(["pl", "fol"])
        items = any_proof(rng, theory)
        if items and rng.random() < 0.6:
            items = mutant(rng, items, theory) or items
        for x in ([items] if items else []) + alike(rng, items) if items else []:
            p = emit(s, x)
            if p:
                made.append(p)
    for _ in range(3 * len(made)):
        again(s, rng, nds, made)


def swapped(rng, f, p):
    """An equal formula, perhaps written otherwise."""
    if nd.is_term(f) or f[0] in ("tt", "ff", "atom", "pred"):
        return f
    if f[0] in ("forall", "exists"):
        return [f[0], f[1], swapped(rng, f[2], p)]
    kids = [swapped(rng, g, p) for g in f[1:]]
    if f[0] in ("and", "or", "equivalence") and rng.random() < p:
        kids.reverse()
    return [f[0]] + kids


def respelt(rng, items, p):
    out = []
    for it in items:
        if it[0] == "f":
            out.append(["f", it[1], swapped(rng, it[2], p if rng.random() < 0.6 else 0), it[3], it[4]])
        else:
            out.append(it if it[0] == "t" else ["b", it[1], respelt(rng, it[2], p)])
    return out


def alike(rng, items):
    """Proofs that a careless comparison takes for this one."""
    out = []
    r = rng.random()
    if r < 0.5:
        out.append(respelt(rng, items, rng.choice([0.5, 1])))
    if rng.random() < 0.25:
        m = copy.deepcopy(items)
        ls = [it for it in nd.lines(m) if it[3] in ("and_e1", "and_e2", "or_i1", "or_i2")]
        if ls:
            it = rng.choice(ls)
            it[3] = it[3][:-1] + ("1" if it[3][-1] == "2" else "2")
            out.append(m)
    if rng.random() < 0.25:
        m = copy.deepcopy(items)
        ls = [it for it in nd.lines(m) if len(it[4]) > 1]
        if ls:
            rng.choice(ls)[4].reverse()
            out.append(m)
    return out


def c19_case(s, theory, items):
    import random
    rng = random.Random(key(items))
    s.new()
    nds = NaturalDeduction()
    made = [emit(s, items)]
    m = mutant(rng, items, "pl" if theory.startswith("pl") else "fol")
    made = [p for p in made + [emit(s, x) for x in ([m] if m else []) + alike(rng, items)] if p]
    for _ in range(5):
        again(s, rng, nds, made)


def again(s, rng, nds, made):
    k = rng.randrange(len(made))
    p = made[k]
    items = p["items"]
    how = rng.choice(["object", "list", "fresh", "rows", "names", "scattered", "instance", "twin", "twin", "copy", "copied"])
    if how == "twin":       # where nothing was checked before
        s.emit(e="again", k=k + 1, how=how, res=s.pristine.ask(do="verdict", items=items), same=True)
        return
    if p["proof"] is None and how in ("object", "instance", "copy"):
        how = "fresh"
    copier = rng.choice([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x, 2)), lambda x: pickle.loads(pickle.dumps(x))])
    given = {"object": lambda: p["proof"], "instance": lambda: p["proof"], "list": lambda: p["written"], "copy": lambda: p["proof"],
             "copied": lambda: p["written"]}.get(how)
    if given is None:
        if how == "rows":
            step = rng.choice([1, 10, 100])
            off = rng.randint(1, 50)
            name = lambda r: r * step + off
        elif how == "names":
            old = sorted(set(nd.rows(items)) | {c for it in nd.lines(items) for c in it[4]}, key=str)
            names = [f"({r})" for r in old]
            if rng.random() < 0.7:
                pool = ["", " ", "a", "A", "1", "01", "1.", "line", "0", "None", "x", "y", "*", "(1)", "premise", 0, -1, 7, 10 ** 20]
                names = list(dict.fromkeys(rng.sample(pool, min(len(old), len(pool))) + names))[:len(old)]
                rng.shuffle(names)
            name = dict(zip(old, names)).__getitem__
        elif how == "scattered":
            items = nd.scattered(rng, items)
            name = lambda r: r
        else:
            name = lambda r: r
        new = nd.real(nd.renamed(items, name))
        given = lambda: new
    thing = given()
    before = nd.snapshot(thing)
    if how in ("copy", "copied"):       # of the proof, or of the list it was made of
        fn = lambda: NaturalDeduction.check(copier(thing) if how == "copy" else NaturalDeduction.Proof(copier(thing)))
    elif how == "object":
        fn = lambda: NaturalDeduction.check(thing)
    elif how == "instance":
        fn = lambda: nds.check_proof(thing)
    else:
        fn = lambda: NaturalDeduction.check(NaturalDeduction.Proof(thing))
    res = verdict(s, fn)
    s.emit(e="again", k=k + 1, how=how, res=res, same=nd.snapshot(thing) == before)


RANDOM = {"C12": plan("pl", 4), "C13": plan("pl", 4), "C14": both(5), "C15": plan("fol", 4), "C16": plan("fol", 4), "C19": c19}
CASE = {"C12": case(3), "C13": case(3), "C14": case(4), "C15": case(4), "C16": case(4), "C19": c19_case}
