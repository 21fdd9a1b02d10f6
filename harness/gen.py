"""Random formulae, texts, models: the stimuli that are not enumerated by TLC."""
from obs import codes

BOOL = ["and", "or", "implies", "equivalence"]
UN = {"pl": [], "ltl": ["next", "weak_next", "eventually", "always"],
      "pltl": ["before", "weakbefore", "once", "historically"], "ldl": []}
BIN = {"pl": [], "ltl": ["until", "release", "weak_until", "strong_release"],
       "pltl": ["since", "triggers"], "ldl": []}

PLAIN = ["a", "b", "c", "d"]
ODD = ["a0", "p_1", "_", "_a", "aB", "a-b", "a--b", "a-1-b", "a_-_", "truex", "true1", "true_", "trues",
       "falsey", "false0", "tta", "tt1", "ff_", "ffa", "lastly", "last1", "ending", "end_", "starter",
       "start0", "firstly", "true-x", "tt-a", "ff--b", "last-a", "nottrue", "xU", "aUb", "xF", "uR", "zX",
       "untrue", "a_true", "x" * 40,
       '"a b"', '"X"', '"("', '"true"', '"~!"', '"a & b"', '"U"', '"a-"', '" "', '"1"', '"#->"', '"tt"',
       "w-U", "aX", "gF", "sinceS", "oO", "xyzY", "t-T",
       '"a  b"', '"a   b"', '"  "', '" a"', '"a "', '"a"', '"b"', '"last"', '"end"', '"ff"', '"false"', '"F"', '"_a"',
       '"a0"', '"A"', '"->"', '"//a"', '"#"', "ab", "aa", "a_b", "a1", "a10", "aa-b"]
# what is no character of the languages, but looks like one, or is blank or nothing to some
LIKE = ["\uff5e", "\uff01", "\u00ac", "\uff08", "\uff09", "\uff06", "\uff5c", "\uff1e", "\uff1c", "\u2227", "\u2228", "\u2192",
        "\u2212", "\u2013", "\u00ad", "\u200b", "\u200d", "\ufeff", "\u00a0", "\u3000", "\u2003", "\u2028", "\uff41", "\uff42",
        "\u0430", "\u00aa", "\u00ba", "\u00b2", "\u0661", "\u0301", "\u1d43", "\U0001d41a", "\u201c", "\u201d", "\uff02", "\u22a4",
        "\u22a5", "\uff1f", "\uff0a", "\uff0b", "\uff1b", "\uff3b", "\uff3d", "\u25a1", "\u25c7", "\u0130", "\u0131", "\u00df",
        "\u017f", "\u1e9e", "\ufb00", "\x1a", "\x1c", "\x85", "\x08"]
# what other languages have: comments, ends of statements, other operators
STRANGE = ["//", "// a", "# a", "#", "%", "% a", "-- a", "--", "/* a */", "/**/", ";", ".", ",", "\\\n", "=>", "<=>", "==", "=", "!=", "<-",
           "<>", "[]", "^", "/\\", "\\/", "&&&", "|||", "->>", "<<", ">>>", "<-->", "-->", "--->", "<->>", "~~", "!!", "not ", "and ",
           "or ", "NOT ", " AND ", " OR ", "1", "0", "T", "F", "True", "False", "TRUE", "FALSE", "tT", "Tt", "()", "{}", "''", '""', '"', "'",
           "a()", "a b", "a(b)", "&amp;", "\\n", "\\u0061", "**", "??", "++", "*?", "?*", "X[!", "X[]", "X[ ! ]", "X [!]", "x[!] ", "N ", "u ", "V "]
RESERVED = {"pl": {"true", "false"},
            "ltl": {"true", "false", "tt", "ff", "last", "end"},
            "pltl": {"true", "false", "tt", "ff", "start", "first"},
            "ldl": {"true", "false", "tt", "ff", "last", "end"}}


def any_name(rng):
    """Any name there is, of few different characters."""
    if rng.random() < 0.6:
        chars = [chr(rng.choice([k for k in range(32, 127) if k != 34])) for _ in range(rng.choice([1, 2, 2, 3]))]
        return '"' + "".join(rng.choice(chars) for _ in range(rng.choice([1, 2, 3, 4, 6]))) + '"'
    word = "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789---"
    s = rng.choice(word[:27]) + "".join(rng.choice(word) for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))
    return s if s[-1] != "-" else s + rng.choice(word[:63])


def pick_names(rng, lg="pl", odd=0.3, k=None):
    k = k or rng.randint(1, 4)
    pool = []
    for _ in range(k):
        n = rng.choice(PLAIN) if rng.random() >= odd else any_name(rng) if rng.random() < 0.3 else rng.choice(ODD)
        if n not in RESERVED[lg] and n not in pool:
            pool.append(n)
    return pool or ["a"]


def formula(rng, lg, depth, names):
    """A formula as a nested list, before any simplification."""
    def atom():
        return ["atom", codes(rng.choice(names))]

    def leaf():
        r = rng.random()
        if lg == "ldl":
            return [rng.choice(["tt", "ff"])]
        if r < 0.75:
            return atom()
        if lg in ("ltl", "pltl") and r < 0.87:
            return [rng.choice(["true", "false"])]
        return [rng.choice(["tt", "ff"])]

    if depth <= 0:
        return leaf()
    r = rng.random()
    sub = lambda d=None: formula(rng, lg, rng.randint(0, depth - 1) if d is None else d, names)
    if lg == "ldl" and r < 0.45:
        return [rng.choice(["diamond", "box"]), regex(rng, depth - 1, names), sub()]
    if r < 0.60 and BIN[lg] and rng.random() < 0.45:
        return [rng.choice(BIN[lg])] + [sub() for _ in range(rng.choice([2, 2, 2, 3, 4]))]
    if r < 0.60 and UN[lg]:
        return [rng.choice(UN[lg]), sub(depth - 1)]
    if r < 0.70:
        return ["not", sub(depth - 1)]
    op = rng.choice(["and", "and", "or", "or", "implies", "equivalence"])
    k = rng.choice([2, 2, 2, 3, 3, 4, 5])
    return [op, sub(depth - 1)] + [sub() for _ in range(k - 1)]


def long_name(rng):
    """A name of many characters; of several calls, names that are alike for long."""
    n = rng.choice([20, 33, 63, 64, 65, 66, 80, 100, 127, 129, 200, 257, 300])
    base = rng.choice(["x", "ab", "a-", "name_"])
    s = list((base * n)[:n - 1] + "z")
    if rng.random() < 0.7:
        s[rng.choice([n // 2, n // 2, n - 2, n - 1, 1, n // 3])] = rng.choice("qrs")
    return "".join(s) if rng.random() < 0.7 else '"' + "".join(s).replace("_", " ") + '"'


def scaled(rng, lg, names):
    """A formula out of the ordinary: wide, deep, or wordy."""
    r = rng.random()
    if r < 0.45:            # many operands, perhaps with one and its negation, or a constant, somewhere
        n = rng.choice([6, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 33, rng.choice([40, 65, 101, 129, 140])])
        names = list(names) + [f"v{k}" for k in range(n)]
        ops = [["atom", codes(x)] for x in rng.sample(names, n)] if lg != "ldl" else \
            [["diamond", ["prop", ["atom", codes(x)]], ["tt"]] for x in rng.sample(names, n)]
        for k in range(n):
            q = rng.random()
            if q < 0.15:
                ops[k] = ["not", ops[k]]
            elif q < 0.2:
                ops[k] = ["or", ops[k], ops[k - 1]]
        if rng.random() < 0.4:
            i, j = rng.sample(range(n), 2)
            ops[i] = rng.choice([["not", ops[j]], ["not", ops[j]], ops[j], ops[j], ["tt"], ["ff"]])
        d = [rng.choice(BOOL[:2] * 3 + BOOL[2:] + BIN[lg][:2]), *ops]
        return rng.choice([d, d, ["not", d], [rng.choice(BOOL), ["not", d], ops[0]]] +
                          ([[rng.choice(UN[lg]), d]] if UN[lg] else []))
    if r < 0.75:            # much nesting
        d = formula(rng, lg, 1, names)
        some = [["not"], BOOL, BOOL, UN[lg], BIN[lg]]
        mine = rng.choice(some + [sum(some, [])] * 2) or BOOL
        if lg == "ldl" and rng.random() < 0.6:
            e = regex(rng, 1, names)
            for _ in range(rng.randint(4, 12)):
                e = rng.choice([["star", e], ["seq", e, regex(rng, 0, names)], ["union", regex(rng, 0, names), e],
                                ["test", [rng.choice(["diamond", "box"]), e, rng.choice([["tt"], ["ff"]])]]])
            return [rng.choice(["diamond", "box"]), e, d]
        for _ in range(rng.choice([5, 8, 11, 16, 21, 33, rng.choice([40, 52, 66])])):
            op = rng.choice(mine)
            if op == "not" or op in UN[lg]:
                d = [op, d]
            else:
                other = formula(rng, lg, 0, names)
                d = [op] + rng.choice([[d, other], [other, d]])
        return d
    names = [long_name(rng) for _ in range(rng.randint(1, 3))]
    d = formula(rng, lg, rng.choice([1, 2]), names)
    return ["diamond", ["prop", formula(rng, "pl", 1, names)], d] if lg == "ldl" else d


def regex(rng, depth, names):
    r = rng.random()
    if depth <= 0 or r < 0.25:
        if depth > 0 and rng.random() < 0.3:
            return ["test", formula(rng, "ldl", depth - 1, names)]
        return ["prop", formula(rng, "pl", rng.randint(0, 2), names)]
    if r < 0.50:
        if rng.random() < 0.25:     # of stars, tests and steps
            return ["star", [rng.choice(["seq", "seq", "union"])] + [flat(rng, names) for _ in range(rng.choice([2, 2, 3]))]]
        return ["star", regex(rng, depth - 1, names)]
    if r < 0.65:
        return ["test", formula(rng, "ldl", depth - 1, names)]
    op = "seq" if r < 0.83 else "union"
    return [op] + [regex(rng, rng.randint(0, depth - 1), names) for _ in range(rng.choice([2, 2, 3, 4]))]


def flat(rng, names):
    """A step, a test, or a star of one."""
    e = ["prop", formula(rng, "pl", 0, names)]
    return rng.choice([e, ["star", e], ["star", e], ["test", ["diamond", e, ["tt"]]], ["test", ["box", e, ["ff"]]],
                       ["test", rng.choice([["tt"], ["ff"]])], ["star", ["test", ["diamond", e, ["tt"]]]]])


def temporal_depth(d):
    """How often positions are looked for within positions."""
    if d[0] in ("atom", "tt", "ff", "true", "false", "pred", "var", "const", "fun"):
        return 0
    return (d[0] not in BOOL + ["not", "next", "before", "prop", "weak_next", "weakbefore"]) + max(map(temporal_depth, d[1:]))


def names_of(d, acc=None):
    acc = set() if acc is None else acc
    if d[0] == "atom":
        acc.add("".join(map(chr, d[1])))
    elif d[0] not in ("tt", "ff", "true", "false", "pred", "var", "const", "fun"):
        for x in d[1:]:
            names_of(x, acc)
    return acc


def model(rng, lg, names, maxlen=5):
    names = sorted(names)
    val = lambda: [codes(n) for n in names if rng.random() < 0.5]
    if lg == "pl":
        return val()
    lo = 0 if lg in ("ldl", "re") else 1
    return [val() for _ in range(rng.randint(lo, maxlen))]


def models(rng, lg, names, k):
    return [model(rng, lg, names) for _ in range(k)]


# ------------------------------------------------------------------ texts
ALT = {"and": ["&", "&&"], "or": ["|", "||"], "implies": ["->", ">>"], "equivalence": ["<->"],
       "not": ["!", "~"]}
LETTER = {"until": "U", "release": "R", "weak_until": "W", "strong_release": "M", "next": "X[!]",
          "weak_next": "X", "eventually": "F", "always": "G", "since": "S", "triggers": "T",
          "before": "Y", "weakbefore": "Z", "once": "O", "historically": "H"}
LEVELS = {"pl": ["equivalence", "implies", "or", "and"]}
LEVELS["ltl"] = LEVELS["pl"] + ["weak_until", "until", "release", "strong_release"]
LEVELS["pltl"] = LEVELS["pl"] + ["since", "triggers"]
LEVELS["ldl"] = LEVELS["pl"]
CONST = {"pl": ["true", "false"], "ltl": ["true", "false", "tt", "ff", "last"],
         "pltl": ["true", "false", "tt", "ff", "start"], "ldl": ["tt", "ff", "tt", "ff", "last", "end"]}


def sentence(rng, lg, depth, names, level=0, odd_tokens=True):
    """The tokens of a text of the language, derived from its grammar."""
    out = []
    ops = LEVELS[lg]
    if level < len(ops):
        k = 1
        if depth > 0 and rng.random() < (0.42 if len(ops) <= 4 else 0.24):
            k = rng.choice([2, 2, 2, 3, 4]) if rng.random() < 0.93 else rng.randint(5, 9)
        for j in range(k):
            if j:
                op = ops[level]
                out.append(rng.choice(ALT[op]) if op in ALT else LETTER[op])
            out += sentence(rng, lg, depth - (1 if k > 1 else 0), names, level + 1)
        return out
    r = rng.random()
    if depth > 0 and r < 0.22:
        return ["("] + sentence(rng, lg, depth - 1, names) + [")"]
    if depth > 0 and r < 0.36:
        return [rng.choice(ALT["not"])] + sentence(rng, lg, depth - 1, names, len(ops))
    if depth > 0 and UN[lg] and r < 0.60:
        return [LETTER[rng.choice(UN[lg])]] + sentence(rng, lg, depth - 1, names, len(ops))
    if depth > 0 and lg == "ldl" and r < 0.75:
        o, c = rng.choice(["[]", "<>"])
        return [o] + re_sentence(rng, depth - 1, names) + [c] + sentence(rng, lg, depth - 1, names, len(ops))
    if lg == "ldl":
        return [rng.choice(CONST[lg])]
    if rng.random() < 0.8:
        return [rng.choice(names)]
    return [rng.choice(CONST[lg])]


def re_sentence(rng, depth, names, level=0):
    if level < 2:
        k = rng.choice([2, 2, 3, 3, 5]) if depth > 0 and rng.random() < 0.3 else 1
        out = []
        for j in range(k):
            out += (["+;"[level]] if j else []) + re_sentence(rng, depth - (k > 1), names, level + 1)
        return out
    star = ["*"] if rng.random() < 0.25 else []
    r = rng.random()
    if depth > 0 and r < 0.25:
        return ["("] + re_sentence(rng, depth - 1, names) + [")"] + star
    if r < 0.5:
        return (tested(rng, names) if rng.random() < 0.3 else sentence(rng, "ldl", max(depth, 0), names)) + ["?"] + star
    return sentence(rng, "pl", min(max(depth, 0), 2), names) + star


def tested(rng, names):
    """A formula that is no constant, to be tested; of several, mostly."""
    op = rng.choice(LEVELS["ldl"])
    out = []
    for k in range(rng.choice([1, 2, 3, 3, 4, 5])):
        o, c = rng.choice(["<>", "[]"])
        one = [o, rng.choice(names), c, rng.choice(["tt", "ff"])]
        one = [rng.choice(ALT["not"])] + one if rng.random() < 0.2 else one
        out += ([rng.choice(ALT[op])] if k else []) + one
    return ["("] + out + [")"] if rng.random() < 0.5 else out


def glue(rng, toks, wild=False):
    """Tokens to text, with blanks where they are needed, and where not."""
    blanks = [" ", " ", " ", "  ", "\t", "\n", "\r\n", " \n ", "\x0b", "\x0c"]
    s = ""
    for j, t in enumerate(toks):
        prev = toks[j - 1] if j else ""
        if not j:
            pass
        elif prev in LETTER.values():      # a blank, a quote or a bracket has to follow
            if t[0] in '"(' and rng.random() < 0.5:
                pass
            else:
                s += " " + (rng.choice(blanks) if wild and rng.random() < 0.3 else "")
        elif (prev[-1].isalnum() or prev[-1] in "_-") and (t[0].isalnum() or t[0] in "_-"):
            # '-' after a word is part of it only if a word character follows
            if t.startswith("->") and rng.random() < 0.5:
                pass
            else:
                s += rng.choice(blanks) if wild else " "
        elif rng.random() < (0.4 if wild else 0.7):
            s += rng.choice(blanks) if wild else " "
        s += t
    if wild and rng.random() < 0.3:
        s = rng.choice(blanks) + s
    if wild and rng.random() < 0.3:
        s += rng.choice(blanks)
    return s


TOKENS = {"pl": ["(", ")", "&", "|", "->", "<->", "~", "true", "false", "a", "b"],
          "ltl": ["(", ")", "&", "|", "->", "<->", "~", "true", "ff", "last", "a", "b", " U ", " R ", " W ",
                  " M ", "X ", "X[!] ", "F ", "G "],
          "pltl": ["(", ")", "&", "|", "->", "<->", "~", "true", "tt", "start", "a", "b", " S ", " T ", "Y ",
                   "Z ", "O ", "H "],
          "ldl": ["(", ")", "&", "|", "->", "<->", "~", "true", "tt", "ff", "last", "end", "a", "b", "<", ">",
                  "[", "]", "*", "?", "+", ";"]}
JUNK = list("()&|~!<>-+;?*[]\"'abUXFG_-09 .,:^$#@/\\{}=%é\x00\x7f")


def junk(rng):
    r = rng.random()
    return rng.choice(JUNK if r < 0.7 else LIKE if r < 0.85 else STRANGE)


def commented(rng, s):
    """Lines that are no formula, before, in or after a text."""
    line = rng.choice(["//", "#", "%", "--", ";", "/*", "\"", "'", "@", "!#", "//"]) + rng.choice(["", " a", " note", "a"])
    r = rng.random()
    if r < 0.4:
        return s + rng.choice(["\n", " ", "\r\n", ""]) + line
    if r < 0.8:
        return line + rng.choice(["\n", "\r\n", "\n\n"]) + s
    i = rng.randrange(len(s) + 1)
    return s[:i] + rng.choice(["\n", " "]) + line + "\n" + s[i:]


def lookalike(rng, s):
    """A text with a character replaced by one that looks like it."""
    pairs = {"~": "\uff5e\u02dc\u223c", "!": "\uff01\u01c3", "&": "\uff06\u2227", "|": "\uff5c\u2228\u01c0", "(": "\uff08\u2768", ")": "\uff09\u2769",
             "<": "\uff1c\u2039", ">": "\uff1e\u203a", "-": "\u2212\u2013\u2010\uff0d", "[": "\uff3b", "]": "\uff3d", "*": "\uff0a\u2217", "?": "\uff1f",
             "+": "\uff0b", ";": "\uff1b\u037e", " ": "\u00a0\u3000\u2003\u200b\ufeff", "a": "\uff41\u0430\u00aa\u00e1\u1d43", "b": "\uff42", "U": "\uff35",
             "X": "\uff38\u0425", "F": "\uff26", "G": "\uff27", "t": "\uff54", "f": "\uff46", "s": "\u017f", "\"": "\u201c\u201d\uff02",
             "e": "\u0435", "r": "\uff52", "S": "\uff33", "Y": "\uff39", "H": "\uff28", "c": "\u0441", "d": "\uff44", "l": "\uff4c"}
    where = [i for i, c in enumerate(s) if c in pairs]
    if not where:
        return s + rng.choice(LIKE)
    i = rng.choice(where)
    every = rng.random() < 0.3
    x = rng.choice(pairs[s[i]])
    return s.replace(s[i], x) if every else s[:i] + x + s[i + 1:]


def long_sentence(rng, lg, names):
    """A text of many tokens: long chains, many prefixes, deep brackets."""
    ops = LEVELS[lg]
    unit = lambda: [rng.choice(names) if lg != "ldl" else rng.choice(["tt", "ff", "last", "end"])]
    if rng.random() < 0.3:
        unit = lambda: sentence(rng, lg, 1, names, len(ops))
    prefixes = ALT["not"] + [LETTER[u] for u in UN[lg]]
    n = rng.randint(10, 40)
    r = rng.random()
    if r < 0.35:        # a chain, of one operator or of several
        mine = [rng.choice(ops)] if rng.random() < 0.5 else ops
        out = unit()
        for _ in range(n):
            op = rng.choice(mine)
            out += [rng.choice(ALT[op]) if op in ALT else LETTER[op]] + unit()
        return out
    if r < 0.55:        # many prefixes
        one = rng.choice(prefixes)
        return [one if rng.random() < 0.6 else rng.choice(prefixes) for _ in range(n)] + unit()
    if r < 0.70 or lg == "ldl":
        if lg == "ldl" and rng.random() < 0.7:
            inner = [rng.choice(names)]
            for _ in range(n // 3):
                k = rng.random()
                if k < 0.35:
                    inner = ["("] + inner + [")"]
                elif k < 0.55:
                    inner = ["("] + inner + [")", "*"] if inner[-1] == "*" or len(inner) > 1 else inner + ["*"]
                else:
                    inner += [rng.choice("+;"), rng.choice(names)]
            for _ in range(rng.randint(0, 12)):
                o, c = rng.choice(["<>", "[]"])
                inner = [o] + inner + [c] + ["tt", "?"] if rng.random() < 0.3 else inner
            o, c = rng.choice(["<>", "[]"])
            return [o] + inner + [c] + unit()
        if lg == "ldl" and rng.random() < 0.6:
            out = []
            for _ in range(n // 2):
                o, c = rng.choice(["<>", "[]"])
                out += [o] + re_sentence(rng, 0, names) + [c]
            return out + unit()
        return ["("] * n + unit() + [")"] * n
    out = unit()        # brackets around brackets
    for _ in range(n // 2):
        op = rng.choice(ops)
        tok = rng.choice(ALT[op]) if op in ALT else LETTER[op]
        k = rng.random()
        out = ["("] + (out + [tok] + unit() if k < 0.4 else unit() + [tok] + out if k < 0.8 else out) + [")"]
        if rng.random() < 0.25:
            out = [rng.choice(prefixes)] + out
    return out


def mutate_tokens(rng, lg, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        i = rng.randrange(len(toks)) if toks else 0
        if r < 0.30 and toks:
            del toks[i]
        elif r < 0.55:
            toks.insert(i, rng.choice(TOKENS[lg]).strip())
        elif r < 0.75 and toks:
            toks[i] = rng.choice(TOKENS[lg]).strip()
        elif r < 0.85 and len(toks) > 1:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif r < 0.93 and toks:
            toks = toks[:i]
        elif toks:
            toks.insert(i, toks[i])
    return toks


def mutate_chars(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < 0.35 and s:
            del s[min(i, len(s) - 1)]
        elif r < 0.75:
            s.insert(i, junk(rng))
        elif s:
            s[min(i, len(s) - 1)] = junk(rng)
    return "".join(s)


def name_candidate(rng):
    """Strings that are, or nearly are, names of atoms."""
    r = rng.random()
    word = "abzAZ09__--xtrue"
    if r < 0.12:        # something more, before or after
        n = rng.choice(ODD + PLAIN)
        x = rng.choice("\n\r\t\x0b\x0c\x1c\x85\xa0\u2028\u0660\u00e9\u00b2\0 ")
        return rng.choice([n + x, n + x, x + n, n[:1] + x + n[1:], n + x + x])
    if r < 0.17:
        return any_name(rng)
    if r < 0.3:
        return rng.choice(ODD + PLAIN)
    if r < 0.33:
        return long_name(rng)
    if r < 0.37:
        return lookalike(rng, rng.choice(ODD + PLAIN))
    if r < 0.6:
        return "".join(rng.choice(word) for _ in range(rng.randint(0, 6)))
    if r < 0.8:
        return '"' + "".join(rng.choice(" a!#~}b(-0\t\n\"é\x7f") for _ in range(rng.randint(0, 4))) + '"'
    return mutate_chars(rng, rng.choice(ODD + PLAIN))
