"""What the same call returns where nothing was done before.

Two helpers of a session. Pristine: interpreters without any history, forked
from one that has imported the library and done nothing else; each answers
one request. Elsewhere: one interpreter with another seed of the string
hashes, that formulae are sent to as pickles.
"""
import base64
import json
import os
import pickle
import select
import signal
import subprocess
import sys

if __name__ == "__main__":
    sys.path.insert(0, os.environ.get("REPO", "/repo"))

import obs  # noqa: E402

LIMIT = int(os.environ.get("CALL_LIMIT", "20"))


def boolean(b):
    if b is True or b is False:
        return b
    raise obs.NotAFormula("not a boolean")


def perform(req):
    """Answer a request; in an interpreter without history."""
    do = req["do"]
    if do == "parse":
        return obs.answer(lambda: obs.PARSE[req["lg"]](req["text"]))[0]
    if do == "op":
        def op():
            vals = [obs.term(d) if lg in ("var", "term") else obs.build(d, lg) for lg, d in req["args"]]
            if any(obs.dump(v) != d for v, (_, d) in zip(vals, req["args"])):
                raise obs.NotAFormula("operands")
            return obs.CTOR[req["op"]](*vals)
        return obs.answer(op)[0]
    if do == "text":
        f = obs.build(req["f"], req["lg"])
        if obs.dump(f) != req["f"]:
            return ["none", ""]
        return obs.answer(lambda: obs.to_string(f), convert=str)[0]
    if do in ("eval", "eq"):
        f = [obs.build(d, lg) for lg, d in req["fs"]]
        if [obs.dump(x) for x in f] != [d for _, d in req["fs"]]:
            return ["none", ""]
        if do == "eq":
            return obs.answer(lambda: f[0] == f[1], convert=boolean)[0]
        from pylogics_modalities.semantics.pl import evaluate_pl
        return obs.answer(lambda: evaluate_pl(f[0], set(req["true"])), convert=boolean)[0]
    if do == "verdict":
        import nd

        def check():
            return nd.NaturalDeduction.check(nd.NaturalDeduction.Proof(nd.real(req["items"])))
        return obs.answer(check, convert=boolean)[0]
    raise ValueError(do)


class Pristine:
    """Start this before anything is done with the library."""

    def __init__(self):
        self.pid = None
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, os.fdopen(r2, "r")

    @staticmethod
    def serve(r, w):
        for line in os.fdopen(r, "r"):
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, LIMIT)
                try:
                    out = perform(json.loads(line))
                except BaseException as e:
                    out = ["bad", type(e).__name__]
                os.write(w, (json.dumps(out) + "\n").encode())
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status != 0:
                os.write(w, b'["bad", "no answer"]\n')

    def ask(self, **req):
        os.write(self.w, (json.dumps(req) + "\n").encode())
        line = self.r.readline()
        return json.loads(line) if line else ["bad", "no server"]


class Elsewhere:
    """Another process; pickles go there and come back."""

    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        self.p = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__)], env=env, text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, lg, d, data, boxed=False):
        """boxed: the pickle is of a set that has the formula in it."""
        self.p.stdin.write(json.dumps({"lg": lg, "f": d, "boxed": boxed, "pickle": base64.b64encode(data).decode()}) + "\n")
        self.p.stdin.flush()
        ready, _, _ = select.select([self.p.stdout], [], [], LIMIT)
        line = self.p.stdout.readline() if ready else ""
        if not line:
            return {"res": ["bad", "no answer"], "eq": False, "heq": False, "member": False, "pickle": ""}
        return json.loads(line)


def receive(req):
    """A pickle has come: is it the formula that it was?"""
    out = {"eq": False, "heq": False, "member": False, "pickle": ""}
    box = []

    def opened():
        box.append(pickle.loads(base64.b64decode(req["pickle"])))
        return next(iter(box[0])) if req["boxed"] else box[0]
    out["res"], f = obs.answer(opened)
    if out["res"][0] != "ok":
        return out
    made, g = obs.answer(lambda: obs.term(req["f"]) if req["lg"] in ("var", "term") else obs.build(req["f"], req["lg"]))
    if made[0] != "ok":
        out["res"] = made
        return out
    def truth(fn):
        r, v = obs.answer(fn, convert=lambda b: b)
        return r[0] == "ok" and v is True
    out["eq"] = truth(lambda: f == g and g == f and not f != g)
    out["heq"] = truth(lambda: hash(f) == hash(g))
    out["member"] = truth(lambda: f in {g} and g in {f} and (not req["boxed"] or (f in box[0] and g in box[0])))
    if req["lg"] in obs.PARSE and obs.dump(g) == out["res"][1]:
        same = [obs.answer(lambda: obs.to_string(x), convert=str)[0] for x in (f, g)]
        out["eq"] = out["eq"] and same[0][0] == "ok" and same[0] == same[1]
    r, data = obs.answer(lambda: pickle.dumps(box[0]), convert=lambda b: 0)
    if r[0] == "ok":
        out["pickle"] = base64.b64encode(data).decode()
    return out


def main():
    for line in sys.stdin:
        print(json.dumps(receive(json.loads(line))), flush=True)


if __name__ == "__main__":
    main()
