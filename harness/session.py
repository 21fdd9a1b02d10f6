"""Sessions with the library: every call is recorded, with what came back."""
import base64
import collections
import copy
import gc
import json
import os
import pickle
import random
import signal

import obs
import trouble
from obs import Timeout, answer, base, codes, dump, fol, logic_of

LIMIT = int(os.environ.get("CALL_LIMIT", "20"))       # seconds for a call to return


def _found(x, f):
    """The element that is equal to f; a set finds it by its hash."""
    if f not in x:
        raise obs.NotAFormula("not found again")
    return next(g for g in x if g == f)


CARRIERS = {
    "list": (lambda f, gs: gs + [f, f] + gs, lambda x, f: x[len(x) // 2]),
    "set": (lambda f, gs: {f, *gs}, _found),
    "frozenset": (lambda f, gs: frozenset([f, *gs]), _found),
    "key": (lambda f, gs: {f: 1, **{g: 2 for g in gs if g != f}}, lambda x, f: _found(x, f) if x.get(f) == 1 else None),
    "value": (lambda f, gs: {"f": [f], "gs": gs, "again": (f, {f: f})}, lambda x, f: x["again"][1][x["f"][0]]),
}


def _alarm(*_):
    raise Timeout()


class Session:
    def __init__(self, out, pristine=None, elsewhere=None):
        self.out = out
        self.pristine = pristine
        self.elsewhere = elsewhere
        self.count = 0
        self.n = 0
        signal.signal(signal.SIGALRM, _alarm)
        self.shared = None
        self.heap = []
        self.dumps = []
        self.lgs = []
        self.reused = [set(), {}]
        self.troubles = None
        self.widened = self.extra = 0     # sessions out of the ordinary, and events that do not count

    # ------------------------------------------------------------ recording
    def emit(self, **ev):
        self.n += 1
        ev["id"] = self.n
        self.out.write(json.dumps(ev) + "\n")
        return ev

    def call(self, fn, convert=dump):
        signal.setitimer(signal.ITIMER_REAL, LIMIT)
        try:
            return answer(fn, convert)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def push(self, lg, res, value):
        """Keep what came back; the specification does the same."""
        self.heap.append(value)
        self.dumps.append(res[1] if res[0] == "ok" else None)
        self.lgs.append(lg)
        return len(self.heap)

    def new(self):
        self.heap, self.dumps, self.lgs = [], [], []
        self.shared = None
        self.emit(e="new")
        if self.n % 13 < 2:
            self.trouble()

    def trouble(self):
        """Calls that go wrong, for what follows them; TLC has nothing to judge here."""
        if self.troubles is None:
            self.troubles = trouble.calls()
            random.Random(self.n).shuffle(self.troubles)
        some = [self.troubles[(self.n * 7 + k) % len(self.troubles)] for k in range(3)]
        mine = [f for f, lg in zip(self.heap, self.lgs) if lg in obs.PARSE and f is not None]
        some += [trouble.about(mine[(self.n + 3 * k) % len(mine)], self.n + 5 * k) for k in range(2) if mine]
        for _, fn in some:
            self.call(fn, convert=lambda v: 0)
        self.emit(e="trouble", what=[w for w, _ in some])

    def broken(self):
        """Did a call not return a formula? Then the session ends here."""
        return any(v is None for v in self.heap)

    # -------------------------------------------------------------- actions
    def leaf(self, lg, d):
        if lg in ("var", "term"):
            res, v = self.call(lambda: obs.term(d))
        else:
            res, v = self.call(lambda: obs.build(d, lg))
        self.emit(e="leaf", lg=lg, f=d, res=res)
        return self.push(lg, res, v)

    def loose(self, d):
        """A predicate; the lists that were given as its operands change afterwards."""
        given = []

        def terms(ds):
            given.append([fol.Function(obs.text(t[1]), terms(t[2:])) if t[0] == "fun" else obs.term(t) for t in ds])
            return given[-1]
        res, v = self.call(lambda: fol.Predicate(obs.text(d[1]), terms(d[2:])))
        self.emit(e="leaf", lg="fol", f=d, res=res)
        for k, ts in enumerate(given):
            ts.reverse() if (k + self.n) % 3 == 0 else ts.clear() if (k + self.n) % 3 == 1 else ts.append(obs.term(["var", codes("z")]))
        return self.push("fol", res, v)

    def infix(self, op, args):
        """An operator written between (or in front of) its operands."""
        x, y = (self.heap[i - 1] for i in (args + args)[:2])
        fn = {"not": lambda: ~x, "and": lambda: x & y, "or": lambda: x | y, "rshift": lambda: x >> y}[op]
        res, _ = self.call(fn)
        self.emit(e="infix", op=op, args=args, res=res)

    def build(self, op, args, ms=()):
        vals = [self.heap[i - 1] for i in args]
        res, v = self.call(lambda: self.construct(op, vals))
        self.emit(e="build", op=op, args=args, res=res, ms=list(ms))
        lg = {"prop": "re", "test": "re", "star": "re", "seq": "re", "union": "re", "diamond": "ldl",
              "box": "ldl", "forall": "fol", "exists": "fol"}.get(op) or self.lgs[args[0] - 1]
        return self.push(lg, res, v)

    @staticmethod
    def construct(op, vals, infix=None):
        if infix:
            x, y = (vals + [None])[:2]
            return {"not": lambda: ~x, "and": lambda: x & y, "or": lambda: x | y}[op]()
        return obs.CTOR[op](*vals)

    def tree(self, d, lg, ms=()):
        """Build a formula bottom up; its place on the heap."""
        if d[0] in ("tt", "ff", "true", "false", "atom", "pred"):
            return self.leaf(lg, d)
        sub = {"prop": "pl", "test": "ldl"}.get(d[0], lg)
        if d[0] in ("diamond", "box"):
            args = [self.tree(d[1], "re", ms), self.tree(d[2], "ldl", ms)]
        elif d[0] in ("forall", "exists"):
            args = [self.leaf("var", d[1]), self.tree(d[2], "fol")]
        else:
            if sub == "pl" and lg != "pl":
                ms = ()     # the models are traces, not valuations
            args = [self.tree(x, sub, ms) for x in d[1:]]
        if self.broken():
            return None
        return self.build(d[0], args, ms)

    def parse(self, lg, s, **kw):
        res, v = self.call(lambda: obs.PARSE[lg](s))
        self.emit(e="parse", lg=lg, text=codes(s), res=res, **kw)
        if res[0] == "ok":
            return self.push(lg, res, v)
        return None

    def show(self, i):
        f, lg = self.heap[i - 1], self.lgs[i - 1]
        res, s = self.call(lambda: obs.to_string(f), convert=codes)
        back, g = ["err", "none"], None
        if res[0] == "ok":
            back, g = self.call(lambda: obs.PARSE[lg](s))
        eq = back[0] == "ok" and self.truth(lambda: f == g and g == f)
        self.emit(e="show", i=i, res=res, back=back, eq=eq)

    def truth(self, fn):
        r, v = self.call(fn, convert=lambda b: b)
        return r[0] == "ok" and v is True

    def evaluate(self, i, how, items):
        from pylogics_modalities.semantics.pl import evaluate_pl

        f = self.heap[i - 1]
        interp = self.interpretation(how, items)
        before = copy.copy(interp)
        order = list(interp)
        res, _ = self.call(lambda: evaluate_pl(f, interp), convert=self.boolean)
        self.emit(e="eval", i=i, how=how, items=[[codes(n), b] for n, b in items], res=res,
                  same=interp == before and list(interp) == order)

    def interpretation(self, how, items):
        """An interpretation; of a class of its own, or the one of before, with other values."""
        true = [n for n, b in items if b]
        if how == "set":
            return set(true)
        if how == "subset":
            return type("Names", (set,), {})(true)
        if how == "same set":
            self.reused[0].clear()
            self.reused[0].update(true)
            return self.reused[0]
        if how == "same dict":
            self.reused[1].clear()
            self.reused[1].update(items)
            return self.reused[1]
        kind = {"ordered": collections.OrderedDict, "default": lambda x: collections.defaultdict(bool, x),
                "subdict": type("Values", (dict,), {})}.get(how, dict)
        return kind(items)

    @staticmethod
    def boolean(b):
        if b is True or b is False:
            return b
        raise obs.NotAFormula(f"not a boolean: {type(b).__name__}")

    def cmp(self, i, j):
        x, y = self.heap[i - 1], self.heap[j - 1]
        rec = {"e": "cmp", "i": i, "j": j}
        checks = {"eq": lambda: x == y, "qe": lambda: y == x, "ne": lambda: x != y,
                  "member": lambda: y in {x}, "heq": lambda: hash(x) == hash(y)}
        for k, fn in checks.items():
            r, v = self.call(fn, convert=self.boolean)
            if r[0] != "ok":        # no boolean: make it disagree with whatever is expected
                v = "no boolean"
                self.emit(e="must", ok=True, res=r, what=f"cmp {k}")
                v = False
            rec[k] = v
        self.emit(**rec)

    def clone(self, i, how):
        f = self.heap[i - 1]
        fn = {"copy": lambda: copy.copy(f), "deepcopy": lambda: copy.deepcopy(f)}.get(how)
        if how in CARRIERS:
            fn = lambda: self.carried(f, how)
        elif fn is None:
            fn = lambda: pickle.loads(pickle.dumps(f, protocol=int(how)))
        res, g = self.call(fn)
        orig, _ = self.call(lambda: f)
        ok = res[0] == "ok"
        self.emit(e="clone", i=i, how=how, res=res, orig=orig,
                  eq=ok and self.truth(lambda: f == g and g == f and not f != g),
                  heq=ok and self.truth(lambda: hash(f) == hash(g)),
                  member=ok and self.truth(lambda: g in {f} and f in {g}))
        return self.push(self.lgs[i - 1], ["ok", self.dumps[i - 1]], g if ok else f)

    def carried(self, f, how):
        """A copy of something that has the formula in it, several times, perhaps with others."""
        others = [g for g in self.heap[-3:] if isinstance(g, base.Formula)]
        make, find = CARRIERS[how]
        box = make(f, others)
        again = [copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x, 2)), lambda x: pickle.loads(pickle.dumps(x))][self.n % 3](box)
        if type(again) is not type(box) or len(again) != len(box):
            raise obs.NotAFormula("another container")
        return find(again, f)

    def travel(self, i):
        """To another process, and back."""
        f, lg, d = self.heap[i - 1], self.lgs[i - 1], self.dumps[i - 1]
        boxed = self.n % 3 == 0
        made, data = self.call(lambda: pickle.dumps({f} if boxed else f), convert=lambda b: 0)
        if made[0] != "ok":
            res, back, there, g = made, made, {"eq": False, "heq": False, "member": False}, None
        else:
            there = self.elsewhere.ask(lg, d, data, boxed)
            res = there["res"]

            def opened():
                x = pickle.loads(base64.b64decode(there["pickle"]))
                return _found(x, f) if boxed else x
            back, g = self.call(opened)
        orig, _ = self.call(lambda: f)
        ok = back[0] == "ok"
        if ok and res[0] == "ok" and back != res:
            res = back
        self.emit(e="clone", i=i, how="process", res=res, orig=orig,
                  eq=ok and there["eq"] and self.truth(lambda: f == g and g == f and not f != g),
                  heq=ok and there["heq"] and self.truth(lambda: hash(f) == hash(g)),
                  member=ok and there["member"] and self.truth(lambda: g in {f} and f in {g}))
        return self.push(lg, ["ok", d], g if ok else f)

    def twin(self, what, i=None, **kw):
        """The same call, here and where nothing was done before."""
        if what == "text":
            f, lg = self.heap[i - 1], self.lgs[i - 1]
            here, _ = self.call(lambda: obs.to_string(f), convert=str)
            there = self.pristine.ask(do="text", lg=lg, f=self.dumps[i - 1])
            if there[0] == "none":
                return
        elif what in ("eval", "eq"):
            fs = [self.heap[j - 1] for j in kw["args"]]
            if what == "eq":
                here, _ = self.call(lambda: fs[0] == fs[1], convert=self.boolean)
            else:
                from pylogics_modalities.semantics.pl import evaluate_pl
                here, _ = self.call(lambda: evaluate_pl(fs[0], set(kw["true"])), convert=self.boolean)
            there = self.pristine.ask(do=what, fs=[[self.lgs[j - 1], self.dumps[j - 1]] for j in kw["args"]], true=kw.get("true", []))
            if there[0] == "none":
                return
        elif what == "parse":
            here, _ = self.call(lambda: obs.PARSE[kw["lg"]](kw["text"]))
            there = self.pristine.ask(do="parse", **kw)
        else:
            args = kw["args"]
            given = [[self.lgs[j - 1], self.dumps[j - 1]] for j in args]
            here, _ = self.call(lambda: obs.CTOR[kw["op"]](*[self.heap[j - 1] for j in args]))
            there = self.pristine.ask(do="op", op=kw["op"], args=given)
            if there == ["bad", "not a formula: 'operands'"]:
                return
        self.emit(e="twin", what=what, here=here, there=there)

    def obs(self, i):
        f = self.heap[i - 1]
        res, _ = self.call(lambda: f)
        h, _ = self.call(lambda: hash(f), convert=str)
        lg, _ = self.call(lambda: logic_of(f), convert=str)
        self.emit(e="obs", i=i, res=res, lg=lg[1], hash=str(h[1]))

    def registry(self):
        def look():
            out = []
            for lg, table in base.get_cache_context().items():
                for f in table:
                    out.append({"lg": obs.LOGIC_NAME[lg], "f": dump(f)})
            return out
        res, has = self.call(look, convert=lambda x: x)
        if res[0] != "ok":
            self.emit(e="must", ok=True, res=res, what="registry")
        else:
            self.emit(e="registry", has=has)

    def meddle(self, i):
        """Change the lists that the operands of a formula, and of the terms in it, come in, if they are lists."""
        def change(f):
            if hasattr(f, "operands"):
                xs = f.operands
                for x in list(xs):
                    if isinstance(x, obs.fol.Term):
                        change(x)
                if isinstance(xs, list) and xs:
                    (xs.reverse if self.n % 2 else xs.pop)()
        self.call(lambda: change(self.heap[i - 1]), convert=lambda x: x)

    def lapse(self):
        """Nothing of this session is kept; what was built stays known."""
        self.heap = [None] * len(self.heap)
        self.reused = [set(), {}]
        self.troubles = None
        gc.collect()
        self.registry()

    def forget(self):
        res, _ = self.call(lambda: base.reset_cache(), convert=lambda x: 0)
        left, _ = self.call(lambda: sum(map(len, base.get_cache_context().values())), convert=int)
        self.emit(e="forget", left=left[1] if left[0] == "ok" and res[0] == "ok" else -1)

    def must(self, ok, what, fn, **kw):
        res, _ = self.call(fn, convert=lambda x: 0)
        self.emit(e="must", ok=ok, what=what, res=res, **kw)

    def name(self, lg, s):
        res, _ = self.call(lambda: obs.ATOM[lg](s))
        self.emit(e="name", lg=lg, name=codes(s), res=res)

    def attempt(self, op, lgs, vals, fn=None, what=""):
        res, _ = self.call(fn or (lambda: obs.CTOR[op](*vals)), convert=lambda x: 0)
        self.emit(e="attempt", op=op, lgs=lgs, res=res, what=what)

    def abbr(self, lg, which, fn):
        res, _ = self.call(fn)
        self.emit(e="abbr", lg=lg, which=which, res=res)

    def constant(self, lg, v, fn):
        """A constant of a logic: its value, its logic, and whether it is itself."""
        def look(f):
            same = f == base.make_boolean(v, logic=obs.LOGIC[lg]) and f != base.make_boolean(not v, logic=obs.LOGIC[lg])
            return [dump(f), logic_of(f), bool(same)]
        res, _ = self.call(fn, convert=look)
        self.emit(e="constant", lg=lg, v=v, res=res)

    def dual(self, i, ms=()):
        f = self.heap[i - 1]
        neg, g = self.call(lambda: ~f)
        negneg, _ = self.call(lambda: ~g)
        neg2, g2 = self.call(lambda: base.Not(f))
        negneg2, _ = self.call(lambda: base.Not(g2))
        self.emit(e="dual", i=i, neg=neg, negneg=negneg, ms=list(ms))
        self.emit(e="dual", i=i, neg=neg2, negneg=negneg2, ms=list(ms))
