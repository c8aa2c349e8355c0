"""For every property: which models TLC explores and which regexes, inputs and histories are observed.

Recipes choose what to observe, never what to expect. Patterns come from three sources: every pattern TLC enumerated (all
of them or a seeded sample), systematic products of parts, and seeded random trees.
"""
import itertools, json, os
import concurrent.futures as cf

import corpus, vlib
from corpus import family, strings
from vlib import Def, Violation, b, calls, cstr, described, iters, pattern, results, verdict

RECIPES = {}


def recipe(f):
    RECIPES[f.__name__] = f
    return f


def pick(r, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else [xs[i] for i in sorted(r.sample(range(len(xs)), n))]


def dedupe(xs):
    return list(dict.fromkeys(xs))


def around(samples, pres=("", "a", "b"), posts=("", "b", "a", "c"), times=(1, 2)):
    """Texts that contain the samples in small surroundings."""
    return dedupe(p + s * k + q for s in samples for k in times for p in pres for q in posts)


def random_defs(c, n, kinds="view", flags=((),), depth=4, inputs=12, nit=0, alphabet="abc", quants=None, modes=None, chars=None,
                base=(), **weights):
    r = c.rng
    g = corpus.Gen(r, chars=chars, quants=quants, modes=modes, **weights)
    out = []
    for _ in range(c.n(n)):
        x = g.pattern(depth)
        ins = corpus.inputs_for(r, x, alphabet=alphabet, n=inputs, base=base)
        out.append(pattern(x.text(), r.choice(flags), kinds, calls(ins) + iters(ins[:nit])))
    return out


LOOKS = dict(look=1, nlook=1, behind=1, nbehind=1)


# Places where a construct means the same but the library takes other ways: no groups are added, so numbers stay right.
PLACES = ["(?<=X)c?", "(?<=aX)b?", "(?<=Xa)b?", "(?<=bX)c?", "(?<=Xb)a?", "(?<=^X)b?", "(?<=X$)", "(?<!X)b", "a(?<!aX)", ".(?<=X)", "(?=X)a", "(?=X$).*", "(?!X)a", "(?!Xb).", "(?>X)b?", "(?:X|b)c?", "(?:b|X)c?", "(?:X)*?b",
          "(?:X){2}", "(?:X)?+a", "(?:X)*b", "(?<=(?:X){2})c?", "(?<=(?=X).)b?", ".(?=(?<=X)b?)", "(?<=(?:X|b))a?", "(?<=(?>X)b?)a?", "(?<=(?:X)*)b", "(?<=(?<=X)b)c?", "(?<!a(?:X))b?", "^(?:X)$", "(?:X)+?$", "b|X", "(?:a|b)(?:X)"]


def placed(c, pats, n, ins, flags=((),), kinds="view"):
    """A sample of the patterns, each in one of the places."""
    r = c.rng
    return [pattern(r.choice(PLACES).replace("X", p), r.choice(flags), kinds, calls(ins)) for p in pick(r, pats, c.n(n))]


# Repetitions of what can match in several ways: any iteration may have to take another way.
FOUR = [(), ("unroll",), ("unroll",), ("ungreedy",), ("ungreedy", "unroll"), ("unroll", "icase")]
AMBIGUOUS_TEXTS = sorted({"".join(x) for n in range(5) for x in itertools.product(["a", "ab", "b"], repeat=n)}, key=lambda t: (len(t), t))
AMBIGUOUS_TEXTS = [t for t in AMBIGUOUS_TEXTS if len(t) <= 3] + ["abaa", "aaba", "aaab", "abab", "aaaa", "abba", "abaab", "ababa", "aabab", "abaabb", "ababab", "aaaaaa", "abababab", "aabaab", "abc", "abaac", "bcdab"]


def ambiguous(c, n, wrap, modes=("", "?"), tails=("", "", "b", "a", "c", "$", "ab")):
    r = c.rng
    bodies = ["a|ab", "ab|a", "a|b|ab", "a?|b", "aa|a", "a|aa", "a*", "a+", "a?b?", "[ab]|ab", "a(?:b|)", "(?:a|ab)(?:c|bcd)?", "a??b?", "ab??", "a+?b*?", "(?:a|ab){2}", "(?:ab|a){2}?"]
    counts = ["{2}", "{3}", "{4}", "{3}", "{2,}", "{3,}", "{1,3}", "{2,4}", "{3,4}", "{0,3}", "+", "*"]
    out = []
    for x, q, m in pick(r, list(itertools.product(bodies, counts, modes)), c.n(n)):
        out.append(pattern(r.choice(wrap) % x + q + m + r.choice(tails), r.choice(FOUR), "view", calls(AMBIGUOUS_TEXTS)))
    return out


# Lengths, counts and positions that do not fit a small integer.
A, X = "a", "x"
LONG = {
    "C05": [("(a*?)(a{0,260})(b?)", [A * 255, A * 256 + "b", A * 261]), ("(a{3,}?)(a*)", [A * 270]), ("(.{130,140})(.*)", [X * 129, X * 135, X * 300]), ("(.{130,140}?)(.*)", [X * 135, X * 300])],
    "C06": [("a*+b", [A * 256 + "b", A * 257]), ("a{0,260}+a", [A * 260, A * 261, A * 256]), ("(?:ab)*+a?", ["ab" * 130 + "a", "ab" * 130]), ("(?>a{3,257})a", [A * 257, A * 258, A * 3]), ("(?:a|ab){128,}+", ["ab" * 128, A * 128, A * 127])],
    "C07": [("(a{200})(b{100})", [A * 200 + "b" * 100, A * 200 + "b" * 99]), (".{256}(a)(b)?", [X * 256 + "ab", X * 256 + "a", X * 255 + "ab"]), ("(?:(a)|(b))*", ["ab" * 129, "ab" * 129 + "a"]), ("(x*)(a+)", [X * 300 + A * 300])],
    "C08": [("(a{130})\\1", [A * 260, A * 259, A * 261]), ("(.{256})\\1", [X * 512, X * 511 + "y", "y" + X * 511, X * 513]), ("(a+)b\\1", [A * 257 + "b" + A * 257, A * 257 + "b" + A * 256, A + "b" + A * 257]), ("(x+)\\1?(a)", [X * 300 + A])],
    "C09": [("(?<=x{256})a", [X * 256 + A, X * 255 + A]), ("(?=.{256}a)x", [X * 256 + A, X * 255 + A]), ("(?<=^.{257})a", [X * 257 + A, X * 256 + A, X * 258 + A]), ("(?<!ax*)b", [A + X * 256 + "b", X * 256 + "b"]), ("(?!x*a)", [X * 300 + A])],
    "C10": [("^a", [X * 256 + "\n" + A, X * 256 + A]), ("\\ba", ["-" * 256 + A, X * 256 + A]), ("x$", [X * 257, X * 257 + "\n", X * 256 + "\nx"]), ("\\B-", ["-" * 300]), ("\\Ax*\\Z", [X * 256, X * 300])],
    "C12": [("a", [A * 140]), ("(a)|(b)|x+", ["ab" * 20 + X * 260 + "ba"]), ("x{100}", [X * 350]), ("a|$", [X * 257 + A, X * 256])],
    "C14": [("a{130}b?", [A * 130, A * 131, A * 129, A * 130 + "b"]), ("(?:ab){128}", ["ab" * 128, "ab" * 127 + "a"]), ("(.*)b", [A * 257 + "b", A * 258]), ("a{0,257}?b", [A * 257 + "b", A * 256 + "b", A * 258 + "b"]), ("(a*)\\1", [A * 260, A * 261]), (A * 130, [A * 129, A * 130, A * 131, A * 128 + "b" + A])],
    "C15": [(A * 130, [A * 129, A * 127, A * 130]), ("a{256}", [A * 255, A * 256]), ("(a{130})\\1", [A * 259, A * 260]), ("a{128,}b", [A * 127, A * 128, A * 128 + "b"]), ("(?<=a{130})b", [A * 129 + "b", A * 130 + "b"])],
}

# ... nor one of two bytes. Only patterns whose loops go character by character: other loops recurse once per iteration.
H = 65536
HUGE = {
    "C05": [("(a*)(a{3})(b?)", [A * H, A * (H + 3) + "b"]), ("(a*?)b", [A * H + "b", A * (H + 1) + "b"]), ("a{0,65536}(.*)", [A * 3, A * H, A * (H + 1)]), ("a{1,65537}?(a*)", [A * (H + 1)])],
    "C06": [("\\Aa*+b", [A * H + "b", A * (H + 1)]), ("(?>a*)(b?)", [A * (H + 1) + "b"]), ("\\Aa{0,65536}+a", [A, A * H, A * (H + 1)])],
    "C07": [("(x*)(a+)", [X * H + A, X * 5 + A * (H + 5)]), ("(b)", [A * H + "b", A * (H + 1) + "b"])],
    "C08": [("\\A(a+)b\\1", [A * (H + 1) + "b" + A * (H + 1), A * (H + 2) + "b" + A * 2 + "b"]), ("\\A(x*)(a)\\2", [X * H + A + A, X * H + A + "b" + A])],
    "C09": [("a(?<=^x*a)", [X * H + A, X * H + "b" + A]), ("a(?<=x{65537}a)", [X * (H + 1) + A, X + A]), ("(?=x*a)x", [X * H + A]), ("\\A(?!x*a)x", [X * H + "b", X * H + A])],
    "C10": [("^a", [X * H + "\n" + A, X * H + A]), ("\\ba", ["-" * H + A, "-" * (H + 1) + A]), ("x$", [X * (H + 1), X * H + "\nx"])],
    "C12": [("x+|a", ["ab" + X * H + "ba", X * H + "a" + X * H + "a"])],
    "C14": [("(a*)b", [A * H + "b", A * (H + 1) + "b"]), ("(a+)b\\1", [A * H + "b" + A * H])],
    "C15": [("a*+", [A * H]), ("\\A(a+)b\\1", [A * (H + 2) + "b" + A * (H + 1), A * (H + 1) + "b" + A * (H + 1)]), ("\\Aa{0,65536}a", [A * H, A * (H + 1)])],
}


def long_defs(which, kinds="view", flags=((),), it=False, huge=True):
    out = [pattern(p, f, kinds, calls(ins) + (iters(ins[-1:]) if it else [])) for p, ins in LONG[which] for f in flags]
    if huge:
        few = " ".join(k for k in kinds.split() if k in ("view", "list", "deque", "chk", "chkb", "iter"))
        for p, ins in HUGE[which]:
            out.append(pattern(p, (), few, calls(ins) + (iters(ins[-1:]) if it else [])))
            out[-1].weight = 60.0       # judging them takes a while: spread them
    return out


# ================================================================================================ C01
# Beginnings that bring the parser into each of its situations, and what closes them again.
SITUATIONS = [
    ("", [""]), ("a", ["", "b"]), ("a*", [""]), ("a*?", [""]), ("a*+", [""]), ("a+", [""]), ("a?", [""]), ("a??", [""]), ("ab", ["*"]),
    ("a|", ["", "b"]), ("|", [""]), ("a|b", [""]), ("(", [")"]), ("(a", [")", "b)"]), ("(a|", [")", "b)"]), ("(a)", ["", "*"]),
    ("(a)*", [""]), ("(?", ["a)", ")", "=a)"]), ("(?:", [")", "a)"]), ("(?:a", [")"]), ("(?=", ["a)", ")"]), ("(?!", ["a)"]), ("(?>", ["a)"]),
    ("(?<", ["a>b)", "=a)", ">a)"]), ("(?<=", ["a)"]), ("(?<!", ["a)"]), ("(?<n", [">a)", "m>a)"]), ("(?<n>", ["a)", ")"]), ("(?<n>a", [")"]),
    ("(?<n_1", [">a)"]), ("[", ["]", "b]"]), ("[^", ["]", "b]"]), ("[a", ["]", "z]"]), ("[a-", ["]", "z]"]), ("[a-\\", ["]", "n]"]), ("[a-z", ["]"]),
    ("[\\", ["]", "n]"]), ("[\\d", ["]"]), ("[\\d-", ["]", "z]"]), ("[\\x", ["11]", "1]"]), ("[\\x1", ["]", "1]"]), ("[\\x11", ["]"]), ("[\\x11-", ["]", "\\xff]"]),
    ("[^a", ["]"]), ("[^\\", ["]"]), ("[]", ["", "]"]), ("[^]", ["", "]"]), ("[-", ["]", "a]"]), ("[a]", ["", "*"]),
    ("\\", ["", "a"]), ("\\x", ["1", "11"]), ("\\xa", ["", "1"]), ("\\xaF", [""]), ("()\\1", [""]), ("\\k", ["<n>"]), ("(?<n>)\\k", ["<n>"]), ("(?<n>)\\k<", ["n>", ">"]),
    ("(?<n>)\\k<n", [">", "m>"]), ("(?<n>)\\k<n>", ["", "*"]), ("\\b", [""]), ("\\d", ["", "+"]), ("^", ["", "a"]), ("$", [""]), (".", ["*"]),
    ("a{", ["", "}", "1}", ",2}"]), ("a{1", ["}", ",}", ",3}"]), ("a{12", ["}", "3}"]), ("a{1,", ["}", "2}"]), ("a{1,2", ["}", "3}"]), ("a{1}", ["", "?", "+"]), ("a{1,}", ["", "?"]),
    ("a{1,2}", ["", "?", "+"]), ("a{1,2}?", [""]), ("a{1,2}+", [""]), ("a{}", [""]), ("{", ["", "1}"]), ("}", [""]), ("a{{", ["", "2}"]), ("(a{", [")", "1})"]), ("(a{1", ["})"]),
    ("((a)|", ["b)"]), ("(?:(?=a)", [")"]), ("a{0", ["}", "3}"]), ("a]", [""]), ("(?<n>a)(?<", ["m>b)", "=b)"]),
]


@recipe
def C01(c):
    r = c.rng
    pats = []
    small = ["a", "*", "?", "+", "|", "(", ")", "[", "]", "{", "}", "1", ",", "\\", "^", "-"]
    pats += c.syntax_model(small, 4 if not c.thorough else 5)
    groups = ["(", "?", "<", "=", ":", "!", ">", "a", ")", "1", "|", "*"]
    pats += c.syntax_model(groups, 4 if not c.thorough else 5, lead="(")
    sets = ["a", "-", "]", "^", "\\", "d", "x", "1", "[", "R"]
    pats += c.syntax_model(sets, 4 if not c.thorough else 5, lead="[")
    escapes = ["\\", "x", "a", "1", "k", "<", ">", "(", ")", "n", "b", "*"]
    pats += c.syntax_model(escapes, 4 if not c.thorough else 5)
    braces = ["a{", "1", ",", "}", "?", "+", "{", "0", "a", ")", "*"]
    pats += c.syntax_model(braces, 5 if not c.thorough else 6)
    pats = pick(r, dedupe(pats), c.n(14000))
    for lead, closings in SITUATIONS:
        for x in range(256):
            pats.append(b(lead) + bytes([x]))
            cl = closings[x % len(closings)]
            if cl: pats.append(b(lead) + bytes([x]) + b(cl))
        for cl in closings: pats.append(b(lead + cl))
        pats.append(b(lead))
    # long patterns, some of them damaged in one place
    g = corpus.Gen(r, ncap=1, ref=1, nref=1, atomic=1, anchor=1, wb=1, **LOOKS,
                   chars=[("a", "a"), ("[^a-z\\d_-]", "-"), ("\\x4a", "J"), ("\\.", "."), (".", "a"), ("[\\]a-]", "a"), ("\\W", "-"), ("}", "}"), ("[]", ""), ("{", "{")])
    specials = "()[]{}*+?|^$\\.-<>=!:,19axkdnR}\n \x00\xff"
    for _ in range(c.n(2500)):
        t = g.pattern(r.choice([3, 4, 5])).text()
        if len(t) > 120: continue
        pats.append(b(t))
        for _ in range(4):
            i = r.randint(0, len(t))
            k = r.random()
            u = t[:i] + r.choice(specials) + t[i:] if k < 0.4 else t[:i] + t[i + 1:] if k < 0.7 else t[:i] if k < 0.85 else t[:i] + r.choice(specials) + t[i + 1:]
            pats.append(b(u))
    c.totals.notes.append("verdicts of %d patterns" % len(set(pats)))
    defs = [verdict(p) for p in dedupe(pats)]
    # what is accepted can be used, what is used has the shape the syntax gives it
    defs += [pattern(p, (), "view", calls(["", "a", "ab", "1"])) for p in pick(r, [p for p in dedupe(pats) if len(p) < 40 and b"{" not in p and b"\\" not in p and b"-" not in p], c.n(60))]
    c.observe(defs, per_tu=110.0, respell=0)


# ================================================================================================ C02
# Items a pattern is made of, with texts they match.
ITEMS = [
    ("a", ["a"]), ("\\x61", ["a"]), ("\\.", ["."]), ("\\n", ["\n"]), ("\\d", ["1"]), ("\\W", ["-"]), ("[ab]", ["a", "b"]), ("[^a]", ["b"]), ("[a-c]", ["c"]), ("[]a]", ["]a]", "a]"]),
    (".", ["a"]), ("{", ["{"]), ("}", ["}"]), ("]", ["]"]), ("-", ["-"]), (",", [","]), ("(?:ab)", ["ab"]), ("(?:a|b)", ["a", "b"]), ("(?:ab|c)", ["ab", "c"]), ("(?>ab|a)", ["ab", "a"]),
    ("(?=a)", [""]), ("(?!b)", [""]), ("(?<=a)", [""]), ("(?<!b)", [""]), ("(?:)", [""]), ("(a)", ["a"]), ("(a|b)", ["a", "b"]), ("(ab)", ["ab"]), ("((a)b)", ["ab"]), ("(?<n>a)", ["a"]),
    ("(|a)", ["", "a"]), ("(a|)", ["a", ""]), ("()", [""]), ("(a)|(b)", ["a", "b"]), ("a|b|c", ["a", "b", "c"]), ("ab|c", ["ab", "c"]), ("a{2}", ["aa"]), ("a{2,}", ["aa", "aaa"]), ("a{1,2}", ["a", "aa"]),
    ("a{10}", ["a" * 10]), ("a{2,11}", ["aa", "a" * 11]), ("a*", ["", "a"]), ("a+?", ["a", "aa"]), ("a?+", ["a", ""]), ("a{0}", [""]), ("a{1}", ["a"]), ("a{02}", ["aa"]), ("a{,2}", ["a{,2}"]), ("a{}", ["a{}"]),
    ("a{b}", ["a{b}"]), ("a{{2}", ["a{{"]), ("a{+", ["a{", "a{{"]), ("(?:a{)", ["a{"]), ("^", [""]), ("$", [""]), ("\\b", [""]), ("\\A", [""]), ("\\Z", [""]), ("\\k", None), ("a|", ["a", ""]), ("|a", ["", "a"]), ("a||b", ["a", "", "b"]),
    ("(?:a|b)*c", ["c", "abc"]), ("a\\|b", ["a|b"]), ("\\(a\\)", ["(a)"]), ("[(]", ["("]), ("[|]", ["|"]), ("[\\]]", ["]"]), ("(?<=(a))b", ["b"]), ("(?!(a))b", ["b"]), ("(?=(a))a", ["a"]),
]
SHAPES = ["X", "bX", "Xb", "X|b", "b|X", "aX|b", "a|Xb", "a|X|b", "X|b|X", "(X)", "(X)b", "(b)X", "(X)(b)", "(b)|(X)|(c)", "(?:X)b", "(?:X|b)c", "(?:b|X)*", "(X|b)c", "b(X|c)",
          "((X)b)", "(?:X)*", "(?:X){2}", "(?:X){2,3}b", "(?:X)+?b", "(?:X)?+b", "(?>X)b", "(?=X).", "(?!X).", ".(?<=X)", ".(?<!X)", "XX", "X(b)X", "(?<m>X)|(b)", "^X$", "[b]X[c]?", "XbX|cX", "{X", "X{", "a{X", "}X}"]


@recipe
def C02(c):
    r = c.rng
    tokens = ["a", "b", "|", "(", ")", "(?:", "*", "{2}", "{", "?"]
    pats = c.match_model(tokens, 5 if not c.thorough else 6, maxlen=2, correct=False)
    pats = pick(r, pats, c.n(350))
    ins = strings("ab", 4) + ["a{", "{", "ab{", "{{", "a{b", "ba{"]
    defs = [pattern(p, (), "view", calls(ins)) for p in pats]
    # every item in every surrounding
    prods = []
    for (item, samples), shape in itertools.product([i for i in ITEMS if i[1] is not None], SHAPES):
        t = shape.replace("X", item)
        if item == "(?<n>a)" and shape.count("X") > 1: continue
        prods.append((t, around(samples) + ["", "{", "a{", "}"]))
    for t, ins in pick(r, prods, c.n(900)):
        defs.append(pattern(t, (), "view", calls(ins[:48])))
    # many groups, nested and named, in all kinds of surroundings: their numbers and names
    names = ["x", "y1", "long_name_0123456789", "Z", "n", "A", "_"]
    for _ in range(c.n(140)):
        g = corpus.Gen(r, cap=6, ncap=3, atomic=1, seq=6, alt=4, rep=3, char=4, max_height=1, **LOOKS)
        x = g.pattern(5)
        t = x.text()
        if len(t) > 150 or len(g.caps) < 3: continue
        defs.append(pattern(t, (), "view", calls(corpus.inputs_for(r, x, n=5))))
    for n in (3, 9, 10, 11, 12, 20):
        alts = "|".join("(%s)" % x for x in (list("abcdefghijklmnopqrstuvwxyz")[:n]))
        defs.append(pattern(alts, (), "view", calls(["a", "b", "k", "z", "j", "t", "l"])))
        defs.append(pattern("".join("(%s?)" % x for x in "abcdefghijklmnopqrstuvwxyz"[:n]), (), "view", calls(["", "abcdefghijklmnopqrstuvwxyz"[:n], "ace", "bdf", "k", "l"])))
        defs.append(pattern("(" * n + "a" + ")" * n + "b", (), "view", calls(["ab", "b", "a"])))
        defs.append(pattern("(" * n + "a" + "|b)" * n + "c", (), "view", calls(["abc", "ac", "bc", "c", "abbc"])))
        defs.append(pattern("|".join("x" * i + "y" for i in range(n)), (), "view", calls(["x" * i + e for i in (0, 1, n - 1, n) for e in ("", "y")])))
    for i, nm in enumerate(names):
        defs.append(pattern("(?<%s>a)|(b)(?<other>c)" % nm, (), "view", calls(["a", "bc"])))
    # bounds: exactly the written ones
    for lo, hi in [(0, 0), (0, 1), (1, 1), (0, 3), (3, 3), (9, 10), (10, 10), (10, 12), (17, 17), (19, 21), (0, 20), (99, 101), (100, 100), (5, 105), (7, None), (10, None), (12, None), (100, None), (0, None), (1, None)]:
        top = (hi if hi is not None else lo + 3)
        for item, s in (("a", "a"), ("(?:ab)", "ab"), ("(a)", "a"), ("[ab]", "b"), ("(?:a|b)", "b")):
            if top > 30 and len(item) > 4: continue
            for mode in ("", "?", "+"):
                q = "{%d}" % lo if lo == hi else "{%d,%s}" % (lo, "" if hi is None else hi)
                ns = sorted({max(0, lo - 1), lo, lo + 1, max(0, top - 1), top, top + 1, 0})
                defs.append(pattern(item + q + mode, (), "view", calls([s * k for k in ns] + [s * top + "c"])))
    defs += random_defs(c, 120, depth=5, cap=2, atomic=0.5, anchor=0.5, ref=0.5, **LOOKS)
    c.observe(defs)


# ================================================================================================ C03
def byte_escape(x):
    return "\\x%02x" % x


EDGES = [0, 1, 9, 10, 11, 13, 14, 31, 32, 33, 47, 48, 57, 58, 63, 64, 65, 66, 77, 90, 91, 94, 95, 96, 97, 98, 109, 122, 123, 126, 127, 128, 129, 159, 160, 192, 193, 218, 219, 223, 224, 225, 250, 251, 254, 255]


def set_member(x):
    ch = chr(x)
    return "\\" + ch if ch in "]\\^-" else ch


@recipe
def C03(c):
    r = c.rng
    ops = [("k", b"", "")]
    flagsets = [(), ("icase",), ("dotall",), ("multiline",), ("ungreedy",), ("unroll",), ("icase", "dotall"), ("icase", "unroll"), ("dotall", "multiline")]
    cons = []
    for x in range(256):
        ch = chr(x)
        cons.append(byte_escape(x))
        if r.random() < 0.3: cons.append("\\x%02X" % x)
        if ch not in "()[]*+?|^$\\.": cons.append(ch)
        if not ch.isdigit() and ch not in "xkbBAZ" or x > 127: cons.append("\\" + ch)
        cons.append("[" + set_member(x) + "]")
        if ch not in "x": cons.append("[\\" + ch + "]")
        cons.append("[^" + set_member(x) + "]")
        cons.append("[" + byte_escape(x) + "]")
    classes = ["\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\R", "\\N", "."]
    sets = ["[]", "[^]", "[-]", "[^-]", "[a-]", "[-a]", "[^a-]", "[^-a]", "[a-c-e]", "[]a]", "[.]", "[\\.]", "[^.]", "[^^]", "[a^]", "[$|()*+?{}]", "[\\b]", "[^\\b]", "[\\n-\\r]", "[ -~]", "[\\x00-\\xff]", "[^\\x00-\\xff]",
            "[\\x80-\\xff]", "[a-zA-Z]", "[^a-zA-Z0-9_]", "[A-z]", "[@-`]", "[Z-a]", "[^Z-a]", "[\\d-z]", "[\\w-]", "[a\\-z]", "[+--]", "[--/]", "[!--]", "[\\x2d-\\x2f]", "[a-a]", "[\\12]", "[\\k]", "[\\A\\Z]", "[\\B]", "[\\x41-\\x5A]",
            "[\\n\\t\\r\\f\\v\\0]", "[\\R]", "[^\\R]", "[\\R-z]", "[\\N]", "[^\\N]", "[\\N-z]", "[\\s\\d]", "[^\\s\\d]", "[\\S]", "[\\D\\W]", "[\\S\\s]", "[^\\S\\n]", "[\\w.%+-]", "[^\\W_]", "[\\-\\]\\^]", "[*-\\]]", "[A-\\x5a]", "[\\x61-f]"]
    members = ["a", "Z", "0", "-", "\\d", "\\w", "\\s", "\\R", "\\S", "\\D", "\\W", "\\N", "a-f", "X-Z", "0-4", "\\x80-\\x90", "!-/", "\\n", "\\]", "\\\\", ".", "_", "\\x00", "\xe9", "W-c", "\\t-\\x20"]
    for _ in range(c.n(220)):
        ms = [r.choice(members) for _ in range(r.choice([1, 2, 2, 3, 4, 5]))]
        sets.append("[" + r.choice(["", "", "^"]) + "".join(ms) + "]")
    def end(x):
        return r.choice([byte_escape(x), set_member(x), "\\x%02X" % x])
    for _ in range(c.n(260)):
        lo, hi = sorted((r.choice(EDGES), r.choice(EDGES)))
        sets.append("[" + r.choice(["", "", "^"]) + end(lo) + "-" + end(hi) + "]")
    sets = [s for s in dedupe(sets) if not s.startswith("[]") or s == "[]"]
    defs = []
    light = pick(r, cons, c.n(900))
    for x in light:
        defs.append(pattern(x, r.choice(flagsets[:2]), "chars", ops))
    for x in classes:
        for f in flagsets: defs.append(pattern(x, f, "chars list", ops))
    for x in sets:
        defs.append(pattern(x, r.choice([(), ("icase",), ("icase",), ("dotall",)]), "chars", ops))
    # negated classes written in sets, all pairs of class members under icase
    for x, y in itertools.product(["\\d", "\\w", "\\s", "\\R", "\\D", "\\W", "\\S", "\\N"], repeat=2):
        if r.random() < 0.5 * c.scale: defs.append(pattern("[" + r.choice(["", "^"]) + x + y + "]", r.choice(flagsets[:3]), "chars", ops))
    # the same construct where the library takes special paths
    wraps = ["(X)", "(?:X|X)", "(?:X|\\x07)", "X+b", "X+?b", "X{1,2}", "X*+", "X?c?", "(?:X)(?:)", "X{1}", "(?=X)[^]", "[^](?<=X)", "(?!X)[^]", "[^](?<!X)", "(?>X)", "(?:X){1,}", "(?<n>X)(?:)", "(?:X|ab)", "^X$", "(?:(?:X))+", "(?=[^]$)X"]
    some = classes + ["a", "Q", "[a-f]", "[^a-f]", "[X-b]", "\\xe1", "[\\xc0-\\xdf]", "[^\\d]", "[\\W]", "@", "[@-C]", "{", "[^]", "[]", "\\n", "[_`]", "[^\\R]", "\\x00", "\\xff", "[^\\xff]"]
    for w, x in itertools.product(wraps, some):
        if r.random() < 0.8 * c.scale:
            op = [("k", b"", "62" if "b" == w[-1] and w != "(?:X|ab)" else "")]
            defs.append(pattern(w.replace("X", x), r.choice(flagsets), "chars", op))
    for x in some:
        defs.append(pattern(x + "{3}", r.choice(flagsets), "view list fwd", calls(["aaa", "aba", "\n\n\n", "ab\n", "  ", "QqQ", "zzz", "@@@", "```", "\xe1\xe1\xc1", "a\x00a", "{{{"])))
    c.observe(defs, per_tu=160.0, respell=0)


# ================================================================================================ C04
@recipe
def C04(c):
    r = c.rng
    f2 = [(), ("ungreedy",)]
    tokens = ["a", "b", "|", "(", ")", "*", "+?", "?"]
    pats = c.match_model(tokens, 5, maxlen=3)
    tokens2 = ["a", "ab", "(?:", ")", "|", "{2}", "{1,2}?", "{0,2}", "*?", "."]
    pats2 = c.match_model(tokens2, 5 if c.thorough else 4, maxlen=3)
    defs = []
    all5 = strings("ab", 5)
    for p in pick(r, [p for p in pats if len(p) >= 3], c.n(300)):
        defs.append(pattern(p, r.choice(f2), "view", calls(all5)))
    for p in pick(r, [p for p in pats2 if len(p) >= 3], c.n(200)):
        defs.append(pattern(p, r.choice(f2), "view", calls(strings("ab", 4) + ["aaaaa", "ababab", "aabab", "babab"])))
    # quantified quantified things and what has to follow them
    inner = ["a", "ab", "[ab]", "a|b", "a|ab", "ab|a", "a*", "a+", "a?", "a*b", "a|", "aa|a", "a{2}", "(?:ab)+", "a|b|ab", ".", "ab?", "(?:a|b)c", "a??b"]
    quants = ["*", "+", "?", "{2}", "{2,}", "{1,2}", "{0,2}", "{3}", "{1,3}", "{2,4}", "{0,1}"]
    tails = ["", "b", "a", "ab", "a*", "[ab]", "c", "$", "(?:b|ab)", "a{2}"]
    combos = []
    for x, q, m, t in itertools.product(inner, quants, ("", "?"), tails):
        combos.append(("(?:" + x + ")" + q + m + t))
    for x, q, m, y, q2, m2 in itertools.product(["a", "[ab]", "(?:ab)", "(?:a|ab)"], quants, ("", "?"), ["a", "b", "[ab]", "(?:a|bb)"], quants, ("", "?")):
        combos.append(x + q + m + y + q2 + m2)
    cheap = dedupe(strings("ab", 3) + ["aaaa", "aaab", "abab", "aabb", "baba", "abba", "bbbb", "aaaaa", "ababa", "aabab", "aaabb", "abcabc", "ac", "bc", "acbc", "aaaaaa", "ababab", "aaaaab"])
    for p in pick(r, combos, c.n(420)):
        defs.append(pattern(p, r.choice(f2), "view", calls(cheap)))
    defs += placed(c, combos, 120, cheap, flags=f2 + [("unroll",)])
    defs += ambiguous(c, 150, ["(?:%s)"])
    defs += random_defs(c, 330, depth=5, flags=[(), (), ("ungreedy",), ("unroll",)], inputs=20, cap=1, modes=["", "?"])
    # long inputs
    for p, ins in [("a*b", ["a" * 200 + "b", "a" * 200]), ("(?:ab)*", ["ab" * 90, "ab" * 90 + "a"]), ("(?:a|b)*c", ["ab" * 70 + "c", "ab" * 70]), ("a{50}", ["a" * k for k in (49, 50, 51)]),
                   ("a{20,60}b", ["a" * k + "b" for k in (19, 20, 60, 61)]), ("(?:a|bc){40}", ["abc" * 20, "abc" * 20 + "a", "a" * 40]), ("[^x]*x", ["y" * 255 + "x", "y" * 256 + "x", "y" * 300]), (".*?z", ["a" * 257 + "z"]),
                   ("(?:a{3}){4,6}", ["a" * k for k in (11, 12, 15, 17, 18, 19)]), ("a{300}", ["a" * 299, "a" * 300, "a" * 301]), ("a{0,256}", ["a" * 255, "a" * 256, "a" * 257])]:
        for f in ((), ("ungreedy",), ("unroll",)):
            if p == "a{300}" and f == ("unroll",): continue
            defs.append(pattern(p, f, "view", calls(ins)))
    alts = "|".join(["abcde"[i % 5] * (1 + i // 5) for i in range(20)])
    defs.append(pattern("(?:%s)+" % alts, (), "view", calls(["a", "bb", "ccc", "dddd", "eeee", "aabbccdd", "x", "aaaaab", "f", "eeeee"])))
    c.observe(defs)


# ================================================================================================ C05
@recipe
def C05(c):
    r = c.rng
    f2 = [(), ("ungreedy",)]
    tokens = ["a", "(", ")", "|", "*", "*?", "+", "??", "ab"]
    pats = c.match_model(tokens, 5 if not c.thorough else 6, maxlen=3, flags=f2, mincaps=1)
    defs = []
    for p in pick(r, [p for p in pats if len(p) >= 4], c.n(260)):
        for f in f2: defs.append(pattern(p, f, "view", calls(strings("ab", 4))))
    inner = ["a", "[ab]", "ab", "a|ab", "ab|a", "a|", "|a", "a+", "a*", "a??", "a*?", "aa|a", "(a)|(ab)", "."]
    quants = ["*", "+", "?", "{2}", "{2,}", "{1,2}", "{0,2}", "{3}", "{1,3}", "{0,1}", "{2,3}", "{0,}", "{1}"]
    combos = []
    for x, q, m, y, q2, m2 in itertools.product(inner, quants, ("", "?", "+"), ["", "a", "[ab]", "b?", "(?:a|ab)", "(a*)"], ["", "*", "?", "{1,2}"], ("", "?")):
        if q2 == "" and m2 or y in ("", "b?", "(a*)") and q2: continue
        tail = "(" + y + q2 + m2 + ")" if y else ""
        combos.append("(" + x + ")" + q + m + tail)
        combos.append("(?:" + x + ")" + q + m + tail)
        if x in ("a", "[ab]", "."): combos.append(x + q + m + tail)
    ins = dedupe(strings("ab", 3) + ["aaaa", "aaab", "abab", "aabb", "baba", "abba", "aaaaa", "aabaa", "ababa", "aaaaaaa", "caab"])
    for p in pick(r, combos, c.n(640)):
        defs.append(pattern(p, r.choice(f2), "view", calls(ins)))
    defs += placed(c, combos, 200, ins, flags=[(), ("ungreedy",), ("unroll",)])
    defs += ambiguous(c, 100, ["(?:(%s))", "(%s)", "((?:%s))", "(?:%s)"], tails=("(.*)", "(.*?)$", "(b?)(a*)", ""))
    three = family([["a", "[ab]", "(?:ab)"], ["*", "+", "{1,2}", "?"], ["", "?"], ["(.*)", "(.*?)", "(a?)", "(b??)"], ["(.?)", "(.{0,2}?)", "(a+|b)?"]])
    for p in pick(r, three, c.n(90)):
        defs.append(pattern("(" + p[:p.index("(", 1)] + ")" + p[p.index("(", 1):], r.choice(f2), "view", calls(["", "ab", "aab", "abab", "aaaa", "bab", "aabba"])))
    for f in ((), ("ungreedy",), ("ungreedy", "unroll"), ("icase", "ungreedy")):
        defs += random_defs(c, 110, depth=5, flags=[f], inputs=14, cap=3, modes=["", "?", "?", "+"], atomic=0.3)
        # the ungreedy option must reach everywhere
        for p in ["(?=(a*))", "(?=(a*?))", "a(?<=(a*))b", "a(?<=(a*?))b", "(?>a*)", "(?>a*?)(a*)", "(a{2,3})(a*)", "(a{2,3}?)(a*)", "(a{2,3}+)(a*)", "(a{2})(a?)", "(a{2}?)(a??)", "(a|ab)(c|bcd)(d*)", "((a*)*?)(b*)", "(a*){2}(a*)",
                  "(.*?)(b)", "(.*)(b)", "(a??)(a??)(a??)", "(a?)(a?)(a?)", "((?:ab){1,2})(.*)", "((?:ab){1,2}?)(.*)", "(\\w+)(\\w)", "(\\w+?)(\\w)", "(a*+)(a*)", "(a?+)(a*)", "(a+?|b)(.*)", "(?:(a)|(b)|(ab))*?$", "(?:(a)|(b)|(ab))*$"]:
            defs.append(pattern(p, f, "view fwd" if "<" not in p else "view", calls(["", "a", "aa", "aaa", "aaaa", "ab", "aab", "abab", "abcd", "aabb", "b", "xaab"])))
    defs += long_defs("C05", flags=((), ("ungreedy",)))
    c.observe(defs)


# ================================================================================================ C06
@recipe
def C06(c):
    r = c.rng
    tokens = ["a", "b", "(?>", "(", ")", "|", "*+", "*", "?+", "{1,2}+"]
    pats = c.match_model(tokens, 5, maxlen=3, flags=[()])
    pats = [p for p in pats if b"+" in p or b"?>" in p]
    c.machine_model(pats, 60)
    defs = []
    for p in pick(r, [p for p in pats if len(p) >= 4], c.n(300)):
        defs.append(pattern(p, (), "view", calls(strings("ab", 4))))
    inner = ["a", "[ab]", "ab", "a|ab", "ab|a", "a*", "a+?", "a??", "a*?", "aa|a", "(a)", "(a|ab)", "(a*?)", "a?b", "(?:a|b)c?", ".", "a|b|ab", "(a)(b)?", "a(?=b)", "(?:ab)*?", "a{1,2}", "a{1,2}?", "(a)|b\\1"]
    quants = ["*", "+", "?", "{2}", "{3}", "{2,}", "{1,2}", "{0,2}", "{1}", "{0}", "{1,3}", "{2,4}", "{3,}", "{0,1}"]
    tails = ["", "a", "b", "ab", "(a?)", "$", "[ab]b", "(.*)"]
    combos = []
    for x, q, t, pre in itertools.product(inner, quants, tails, ("", "a?", "(?:a|aa)", "(.)?", "a", "b")):
        combos.append(pre + ("(?:" + x + ")" if len(x) > 1 and x[0] != "[" else x) + q + "+" + t)
    atom = []
    for x, q, t, pre, post in itertools.product(inner, ["", "*", "?", "{2}", "+?"], tails, ("", "a?", "(a)?"), ("", "|ab", "|(a)b")):
        atom.append(pre + "(?>" + x + ")" + q + t + post)
        if q == "*": atom.append(pre + "(?>(?:" + x + ")" + q + ")" + t + post)
    wrapped = ["(?=(?>a|ab)b).*", "(?<=(?>a|ab))b", "(?<=(?>ab|b))c", "(?<=a*+)b", "(?<=(?:a|ba)++)c", "(?<!(?>a|ba))c", "(?!a*+a).*", "(?>(?>a|ab)c|ab)d?", "(?>a(?>b|bc)|ab)c", "(?:(?>a|ab)|abc)+c", "((?>a*)b|a)+", "(?>(a)|(ab))(b|c)",
               "(?>(a+)b|\\1a)c?", "(a*+)(a|b)", "(?:a*+b)*+a?", "(?:a?+b?+)*+c", "(?>a*?)b", "(?>a|)b", "(?>|a)b", "x*+(?>x|y)", "(?>.*?,)b", "(?:(?>.*?,){2})a", "(?>\\b\\w+\\b)s?", "a++b|a+c", "(?>(?=(a+))a)\\1", "[ab]*+b|a.*"]
    ins = dedupe(strings("ab", 3) + ["aaaa", "aaab", "abab", "aabb", "abc", "aab", "abba", "aaaaa", "abcabc", "abcd", "ababab", "aabab", "ac", "abbc", "xxy", "a,b", "x,a", "x,y,a", "bac", "ba"])
    for p in pick(r, combos, c.n(480)) + pick(r, atom, c.n(300)):
        defs.append(pattern(p, r.choice([(), (), ("ungreedy",), ("unroll",)]), "view", calls(ins)))
    defs += placed(c, [p for p in combos if "\\1" not in p] + [p for p in atom if "\\1" not in p], 260, ins, flags=[(), (), ("ungreedy",), ("unroll",)])
    # what comes before it in a lookbehind is what it could give back to
    rev = ["(?<=%s%s%s+%s)%s" % z for z in itertools.product(["", "a", "b", "ab", "^", "(?:a|b)", "(.)"], ["a", "[ab]", "(?:ab)", "(?:a|ba)", "(?:b|ba)", ".", "(a)", "(?:a?b)"], ["*", "+", "?", "{2}", "{1,2}", "{2,}", "{0,2}", "{1,3}"], ["", "a", "b", "[ab]"], ["", "c", "[ab]"])]
    rev += ["(?<=%s(?>%s)%s)%s" % z for z in itertools.product(["", "a", "b", "ab", "^", "(.)"], ["a|ba", "ba|a", "a*", "b|ab|a", "a*?", "[ab]{1,2}", "a?b?", "(?:a|b)*?"], ["", "b", "a?"], ["", "c", "[ab]"])]
    for p in pick(r, rev, c.n(160)):
        defs.append(pattern(p, r.choice([(), (), ("ungreedy",), ("unroll",)]), "view", calls(ins)))
    for p in wrapped:
        for f in ((), ("ungreedy",), ("unroll",), ("icase",)):
            defs.append(pattern(p, f, "view list", calls(ins)))
    defs += random_defs(c, 260, depth=5, flags=[(), ("ungreedy",), ("unroll",), ("icase",)], inputs=14, modes=["+", "+", "", "?"], atomic=3, cap=2, ref=0.5, look=0.5, behind=0.5)
    defs += ambiguous(c, 80, ["(?:%s)", "(?>%s)", "(%s)", "(?>a|(?:%s)b)"], modes=("+", "+", "", "?"))
    defs += long_defs("C06")
    c.observe(defs)


# ================================================================================================ C07
def many_groups(r, n):
    """A pattern with n groups and a text for it."""
    letters = "abcdefghijklmnopqrstuvwxyz"
    return "".join("(%s)" % letters[i % 26] for i in range(n)), "".join(letters[i % 26] for i in range(n))


@recipe
def C07(c):
    r = c.rng
    tokens = ["a", "b", "(", "(?:", ")", "|", "*", "?", "+?"]
    pats = c.match_model(tokens, 6 if not c.thorough else 7, maxlen=2 if not c.thorough else 3, mincaps=1)
    defs = []
    for p in pick(r, [p for p in pats if len(p) >= 5], c.n(330)):
        defs.append(pattern(p, r.choice([(), (), ("unroll",), ("ungreedy",)]), "view", calls(strings("ab", 4))))
    # groups in loops whose later iterations fail, in abandoned alternatives, before failing tails
    bodies = ["(a)|b", "(a)|(b)", "(a)b?", "(a)?b", "(a*)b", "(a|ab)(b?)", "((a)|b)c?", "(a)|(b)|(c)", "a(b)?", "(?:(a)|b)(c)?", "(a)(b)|a", "((a)(b)?)", "(a*?)(b|c)?", "(?=(a))a|b", "(?!(a)b).", "(a)(?!b)|.", "(?<n>a)|(?<m>b)", "(a|b)(?:\\1)?", "(?:(a)|(ab))(c)?", "(a)??b?"]
    loops = ["*", "+", "{2}", "{1,3}", "{2,}", "?", "{3}", "{0,2}", "{1}", "{0}"]
    tails = ["", "c", "b", "$", "(a)?c", "(?:c|d)", "a", "(?=b)", "(?<=b)c"]
    combos = []
    for x, q, m, t, pre in itertools.product(bodies, loops, ("", "?", "+"), tails, ("", "(a)?", "(.)", "(?:(b)|a)")):
        combos.append(pre + "(?:" + x + ")" + q + m + t)
    wraps = ["(?>X)c?", "(?=X).*", "(?!X).*", "(?!X)(.)|(b).*", "(?<=X)c", "(?<!X)c|(a)b", "((?:X)+|a)*", "(?:X)(?!c)|ab", "(?:X)d|(?:a)(b)", "(?:X|(c))*d?", "(?:(?>X)c|(a).*)", "(?:(?=X)ac|a)(b)?", "(?:(?:X)*+d|(a)+)b?", "(?:(?:X){2}d|(a).)", "(?:(?<=X)d|(b)).?"]
    more = [w.replace("X", x) for w in wraps for x in bodies]
    ins = dedupe(strings("ab", 3) + ["abc", "aabc", "abab", "aab", "abcb", "abca", "ac", "bc", "aac", "abb", "abcabc", "bab", "babc", "aaaa", "abd", "aad", "cab", "abcd"])
    for p in pick(r, combos, c.n(480)):
        defs.append(pattern(p, r.choice([(), (), (), ("unroll",), ("ungreedy",)]), "view", calls(ins)))
    for p in pick(r, more, c.n(220)):
        defs.append(pattern(p, r.choice([(), (), ("unroll",), ("icase",)]), "view", calls(ins)))
    defs += placed(c, combos, 160, ins, flags=[(), (), ("unroll",), ("ungreedy",)])
    for n in (9, 10, 11, 15, 25):
        p, t = many_groups(r, n)
        defs.append(pattern(p, (), "view list iter", calls([t, t[:-1], "z" + t, t + t]) + iters([t + t])))
        defs.append(pattern(p + "|(a)(b)", (), "view", calls([t, "ab", t[:-1], "zab"])))
    # iteration: every result has captures of its own
    its = [pattern(p, (), "view iter hist", calls(["abcab", "ab", ""]) + iters(["abab", "aabab", "abcab", "baab", "aba", ""]) + [("h", b(t), s) for t, s in (("abab", "snncn0n1n"), ("aabab", "tnsn0n1n"))])
           for p in ["(a)|(b)", "(a)?b", "(?:(a)|b)+?", "(a)(b)?", "(?<x>a)|.", "(a+)|(b+)|(c+)", "(?=(a))?.", "(a)*?b", "(?<=(a))b", "(?<=(a)|b)(.)"]]
    defs += its
    defs += random_defs(c, 300, depth=5, flags=[(), (), ("ungreedy",), ("unroll",), ("icase",)], inputs=14, cap=5, ncap=1, atomic=1, ref=0.7, max_height=2, **LOOKS)
    defs += ambiguous(c, 80, ["(?:(%s))", "(%s)", "(?<n>%s)", "(?:(%s)|(b))"], tails=("", "(.*)", "(b?)$", "c", "(?:\\1)?c?"))
    defs += long_defs("C07", it=True, kinds="view iter")
    c.observe(defs)


# ================================================================================================ C08
@recipe
def C08(c):
    r = c.rng
    tokens = ["a", "b", "(", ")", "|", "\\1", "*", "?", "(?="]
    pats = c.match_model(tokens, 6, maxlen=3, mincaps=1, lead="(", flags=[()])
    pats = [p for p in pats if b"\\1" in p]
    c.machine_model(pats, 60)
    defs = []
    for p in pick(r, pats, c.n(260)):
        defs.append(pattern(p, (), "view", calls(strings("ab", 4) + ["aaaaa", "ababab", "abaab"])))
    groups = ["(a)", "(a*)", "(a|b)", "(ab?)", "([ab]+)", "(a)?", "(a*?)", "(.)", "(a|)", "(?:(a)|b)", "((?:ab)+)", "(a+)", "(.*)", "(?<n>a|bb)", "((?:a|b){2})"]
    uses = ["\\1", "\\1b", "b\\1", "\\1\\1", "(?:\\1)*", "\\1+", "\\1?", "\\1{2}", "(\\1)", "(?=\\1).*", "(?!\\1).", ".(?<=\\1)", ".(?<!\\1)", "(?:\\1|b)c?", "(?:b|\\1)+", "b?\\1$", "[^c]\\1", "(?:\\1b)*?a?", "\\1*+b?", "(?>\\1|.)c?", "(b)\\2\\1", "(?:\\1)1", "\\1[0]", "\\1(?:)0"]
    ins = dedupe(strings("ab", 3) + ["aaaa", "abab", "aabaab", "abaa", "bbbb", "abba", "aabb", "ababab", "bb", "aa1", "aa0", "a1", "a0", "ababb", "bbb", "abbab", "aac", "cab"])
    combos = [g + u for g in groups for u in uses] + ["(?:" + g + u + ")" + q for g in groups for u in uses[:10] for q in ("*", "{2}", "+?", "*+")]
    for p in pick(r, combos, c.n(480)):
        defs.append(pattern(p, r.choice([(), (), (), ("unroll",), ("ungreedy",)]), "view", calls(ins)))
    defs += placed(c, combos + [u + g for g in groups for u in uses if "\\2" not in u and u != "(\\1)"], 170, ins, flags=[(), (), ("icase",), ("unroll",)])
    for g in groups:
        p = g.replace("(?<n>", "(").replace("((?:", "((?:")
        if g.startswith("(?:"): continue
        p = "(?<name>" + p[1:] if p.startswith("(") else p
        for u in ["\\k<name>", "b\\k<name>", "(?:\\k<name>)*c?", "\\k<name>\\1", "(?<other>b)?\\k<other>\\k<name>"]:
            if r.random() < 0.6 * c.scale: defs.append(pattern(p + u, r.choice([(), ("icase",)]), "view", calls(ins + ["aA", "Aa", "bB"])))
    # case: only letters have another case
    ci = ["aa", "aA", "Aa", "AA", "a@", "@`", "`@", "@@", "[{", "{[", "zZ", "Z:", "z\x1a", "zz", "_\x7f", "__", "0\x10", "00", "\xe9\xc9", "\xe9\xe9", "aBcAbC", "abABab", "a{b A[B", "1a1A", "!\x01", "k\x0b", "kK"]
    for p in ["(.)\\1", "(.*)\\1", "(..)\\1", "(...)\\1", "([^]+)\\1", "(?<w>.+)\\k<w>", "(.)(?=\\1).", ".(?<=(.)\\1|\\1(.))", ".*(?<=\\1(.))", "([a-z@\\[`{]+) ?\\1", "(a)\\1", "(A)\\1", "(?:(.)\\1)*", "(\\w)\\1{1,2}", "(.)\\1?+$", "(.)(.)\\2\\1"]:
        for f in ((), ("icase",), ("icase", "dotall"), ("icase", "unroll")):
            defs.append(pattern(p, f, "view list", calls(ci)))
    # references to groups with several digits, to later groups, to groups they are in
    for n in (9, 10, 11, 12, 19, 21):
        p, t = many_groups(r, n)
        for k in sorted({1, 2, 9, 10, 11, n} & set(range(1, n + 1))):
            ch = t[k - 1]
            defs.append(pattern(p + "\\%d" % k, r.choice([(), ("icase",)]), "view", calls([t + x for x in dedupe([ch, ch.upper(), "a", "b", "a0", "a1", "z", "", ch + "0"])])))
            defs.append(pattern(p + "(?:\\%d)0" % k, (), "view", calls([t + ch + "0", t + ch, t + "a0"])))
            defs.append(pattern(p + "(?<=\\%d.)x?" % k, (), "view", calls([t, t + "x", "z" + t])))
    late = ["(?:\\2b|(a)(b))*", "\\1(a)", "(?:\\1(a))*", "(a\\1)", "(a\\1?b)*", "(?:(a)|\\1b)+", "(?:\\2(a)|(b))*", "(a|b\\1)+", "(a|b\\1){2,3}", "(?=(a*))\\1b", "(?=(a+))(?:\\1|b)c?", "(?!(a))\\1b", "(?<=(a|b))\\1", "(?<=\\1(a))b", "(?<=(a)\\1)b", "(?<=(ab)\\1)c?", "(?<=\\1(ab))c?", "(?<=\\2\\1(a)(b)).?",
            "(a)(?<=\\1)b", "(ab)(?<=\\1)c?", "(a)(b)?\\2\\1", "(?:(a)|b)\\1", "(a?)?\\1b", "(?:(a)|(b)|\\1\\2)*", "(a)(?:b\\1)*+a?", "((a)\\2)\\1", "((.)\\2)+", "(?>(a*))\\1", "(a*+)\\1", "(a)|b\\1", "(a)|\\1b", "((a)|b\\2)+", "(?<x>a)(?<y>b)\\k<y>\\k<x>", "(?<x>a)\\k<x>|b\\k<x>", "(?<ab>.)(?<a>.)\\k<ab>", "(?<a>.)(?<ab>.)\\k<a>", "(?<n>.)(.)\\1\\2\\k<n>"]
    for p in late:
        for f in ((), ("icase",), ("unroll",)):
            defs.append(pattern(p, f, "view", calls(ins + ["aab", "aabb", "abaab", "ababa", "aba", "xyx", "xyy", "xyxyx"])))
    # forward-only input
    for p in ["(a*)b\\1", "(.)\\1", "(?<n>a|b)+\\k<n>", "(a)?\\1b", "(?=(.))\\1+"]:
        defs.append(pattern(p, (), "view list fwd chkf chkb rev deque", calls(ins)))
    defs += random_defs(c, 300, depth=5, flags=[(), ("icase",), ("ungreedy",), ("unroll",)], inputs=14, cap=4, ncap=1, ref=6, nref=2, atomic=0.5, **LOOKS)
    defs += long_defs("C08", kinds="view list", flags=((), ("icase",)))
    c.observe(defs)


# ================================================================================================ C09
@recipe
def C09(c):
    r = c.rng
    tokens = ["a", "b", "(?=", "(?!", "(?<=", "(?<!", ")", "|", "*", "$"]
    pats = c.match_model(tokens, 5, maxlen=3)
    pats = [p for p in pats if b"(?" in p]
    c.machine_model(pats, 80)
    defs = []
    for p in pick(r, [p for p in pats if len(p) > 5], c.n(300)):
        defs.append(pattern(p, (), "view", calls(strings("ab", 4))))
    inner = ["a", "[ab]", "ab", "abc", "a|b", "ab|c", "a*", "a+b", "ab*", "a*b", "(?:ab)+", "a{2}", "a{1,2}b", "a??b", "(a)(b)", "(a)b|c(a)", "a.c", "^a", "^", "a$", "$", "\\bab", "ab\\b", "\\Ba", "a(?=b)b", "(?<=a)b", "a(?!c)", "(?<!a)b", "(?=ab)a", "b(?<=ab)", "(?!bb).b",
             "a|bc|abc", "(?>ab|b)", "a*+b", "(a)\\1", "\\1(a)", "((a)|b)+", "a(?:b|ca)*", "[^a]b", ".", "..", "...", "a.b.", "abcab", "(?:a|ba|bba)", "\\Aa", "a\\Z", "", "a|", "(?:a|b){2,3}", "(?:a|b){2,3}?a", "(?<=b)(?=a)a", "(?<=(?=ab)a)b", "(?<=(?<!b)a)b", "(?=(?<=b)a)a", "(?!(?<=b)a)a"]
    outer = ["X", "Xb", "aX", "X.", ".X", ".*X", "X.*", "aXb", "(?:aX|b)+", "(?:X.)*", "X(a|b)", "(?:Xa|b)c?", "a*X", "a*?X.", "[ab]+X", "(a)?X\\1", "X|b", "cX", "(?:.X){2}", "(X.)+", "X{2}a", "(?:X)*a", "(.)X\\1"]
    combos = []
    for x, k, o in itertools.product(inner, ["(?=", "(?!", "(?<=", "(?<!"], outer):
        if "\\1" in x and "(" in o.replace("(?:", ""): continue
        p = o.replace("X{2}a", "(?:X){2}a").replace("X", k + x + ")")
        combos.append(p)
    ins = dedupe(strings("ab", 3) + ["abc", "aab", "abab", "aabb", "cab", "abcab", "aa", "bca", "babc", "cabc", "abba", "aaab", "ab abc", "a b", "xabcabx", "caab", "abca", "bbab", "aabab"])
    for p in pick(r, combos, c.n(620)):
        defs.append(pattern(p, r.choice([(), (), ("unroll",), ("icase",), ("ungreedy",)]), r.choice(["view", "view", "view list"]), calls(ins)))
    # two levels of nesting in all directions
    ks = ["(?=", "(?!", "(?<=", "(?<!"]
    nests = []
    for k1, k2, pre, mid, post in itertools.product(ks, ks, ["", "a", "a*", "b|"], ["a", "ab", "a|bb", "[ab]b?"], ["", "b", "b*", "."]):
        nests.append(k1 + pre + k2 + mid + ")" + post + ")")
    nests3 = ["(?<=(?<=(?<=a)b)c)d?", "(?<=(?=(?<=a)b)b)c?", "(?<!(?<=(?!ab)a)b)c?", "(?=a(?<=(?=ab)a)b)", "(?<=(?<!(?<=a)b)b)", "(?<=a(?=b(?=c))b)c", "(?<=(?<=ab|b)c(?!d))", "(?<=^(?=a)a*(?<=a))b", "(?<=(?<=(a)b)(c))d?", "(?<=(?=(a)(b))ab)c?", "(?<=(?!(a)(b))..)c?"]
    for p in pick(r, nests, c.n(200)):
        o = r.choice(["X", ".*?X.", "[ab]X[ab]", "(?:X.)+", "(.)X(.)?"])
        defs.append(pattern(o.replace("X", p), (), "view", calls(ins)))
    for p in nests3:
        defs.append(pattern(p, (), "view list iter", calls(ins + ["abcd", "xabc", "bc", "abcabcd"]) + iters(["abcabc", "aabab"])))
    # captures made inside, sequences of many elements behind, text at the ends
    special = ["(?<=(a)(b)(c))d?", "(?<=(a+)(b+))c?", "(?<=(a+?)(b+?))c?", "(?<=(a*)(a))b", "(?<=((a)|(b))+)c", "(?<=(\\w+) )(\\w+)", "(?<=a(b(c)d)e)f?", "(?<=abcdef)g?", "(?<=a.c.e)f?", "(?<=(?<x>a)b)\\k<x>", "(?<=^|,)[^,]*", "(?<=\\d{3})a", "(?<=\\d{2,3}a)b", "(?<!\\d\\d)\\d", "(?<![a-z])(?=[a-z])", "(?<=(?:ab){2})c", "(?<=a{3})b", "(?<=(a){2})b", "(?<=(a|bc){2})d?",
               "(?=(a)(b)?)a", "(?=(a*))b*", "(?!(a)b)(a)", "(?!.*b)(a*)", "(?=.*b)(a*)", "(?=.*(b))(a*)", "(?=(?:(a)|(b))*c).*", "(?<=\\n)a", "(?<!\\n)a", "(?=\\n)", "(?<=.)\\n", "(?<=^a)b", "(?<=a$)", "(?<=\\bab)c?", "(?<=a\\b)-", "(?<=\\Bb)", "(?<=\\Aab)c?", "(?<=a\\Z)", "(?<=$)", "(?<=^)", "(?=^)a", "(?=$)", "(?<!^)a", "(?!$)", "(?!^)a"]
    sins = ins + ["abcde", "abcdef", "abcdefg", "123a", "12ab", "123ab", "1234", "a,b,,c", "hello world", "ababc", "aaab", "bcad", "abcd", "a\nb", "\na", "b\na\n", "ab-ab", "ab\nab", "\n"]
    for p in special:
        for f in ((), ("multiline",), ("icase",), ("unroll",)):
            defs.append(pattern(p, f, "view list" if f == () else "view", calls(sins)))
    # looking beyond where an iteration continues
    for p in ["(?<=a)b", "a(?=b)", "(?<=b)a|b", "(?<!a)b", "(?<=(.))(.)", "(?<=^.)b", "b(?!$)", "(?<=ab)[ab]", "(?<=a*)b", "(?<!(?=ab)a)b", ".(?<=(?<=a)b)"]:
        defs.append(pattern(p, (), "view list chk iter", calls(["abab", "bab"]) + iters(["abab", "bbab", "aabb", "ababab", "ba", "a", ""])))
    defs += random_defs(c, 330, depth=5, flags=[(), ("icase",), ("multiline",), ("unroll",), ("ungreedy",)], inputs=14, cap=1.5, ref=0.5, anchor=0.7, wb=0.5, atomic=0.5, look=3, nlook=2, behind=4, nbehind=3)
    defs += long_defs("C09")
    c.observe(defs)


# ================================================================================================ C10
@recipe
def C10(c):
    r = c.rng
    tokens = ["a", "^", "$", "\\A", "\\Z", "\\b", "\\B", "\n", "*", "|"]
    pats = c.match_model(tokens, 4, chars="a\n-", maxlen=3, flags=[(), ("multiline",)])
    pats = [p for p in pats if any(t in p for t in (b"^", b"$", b"\\"))]
    defs = []
    texts = strings("a\n-", 3) + strings("a\r", 3) + ["aa\naa", "a-a\n", "\n\na", "a\r\na", "_a", "1-a"]
    for p in pick(r, pats, c.n(260)):
        defs.append(pattern(p, r.choice([(), ("multiline",)]), "view", calls(pick(r, texts, 45))))
    anchors = ["^", "$", "\\A", "\\Z", "\\b", "\\B"]
    flagsets = [(), ("multiline",), ("dotall",), ("multiline", "dotall"), ("icase",), ("multiline", "ungreedy"), ("icase", "multiline"), ("multiline", "unroll")]
    shapes = ["X", "Xa", "aX", "aXa", "XX", "XY", "(?:X)*a", "(?:X|a)+", "(X)a", "a*X", "a*?Xa?", ".*X", "[^]*?X[^]", "(?=X)a", "(?!X)a", "(?<=X)a", "(?<!X)a", "a(?<=Xa)", "a(?=X)", "a(?!X)", "a(?<=aX)", "(?<=aX\n)a", "(?<=\nX)a", "(?<=X\n)a?", "(?=\nX)[^]", "X[^]+?Y", "(?:Xa\n?)+", "[^]XY[^]", "(?>X|a)a", "(?:X){2}a", "X?a", "(?:aX|\n)+", "\\W*X\\w*Y"]
    texts = dedupe(strings("a\n", 4) + ["a\ra", "\r", "\r\n", "a\r\na", "a-a", "-a-", "a b", "aa-", "_a", "a1", "1", "-", "--", "\xe9a", "a\xe9", "a\x0ba", "a\x0ca", "a\x85a", "A_z", "a\x00a", "\n\r\n", "-\na", "a\n-"])
    prods = []
    for s, x, y in itertools.product(shapes, anchors, anchors):
        if "Y" not in s and x != y: continue
        t = s.replace("X", x).replace("Y", y)
        for q in ("*", "?", "+"): t = t.replace(x + q, "(?:" + x + ")" + q) if s != "XX" else t
        prods.append(t)
    for p, f in pick(r, list(itertools.product(dedupe(prods), flagsets)), c.n(700)):
        fwd = "\\b" not in p and "\\B" not in p and "(?<" not in p
        kinds = "view" + (" fwd" if fwd and r.random() < 0.3 else "") + (" list" if r.random() < 0.2 else "") + " iter"
        defs.append(pattern(p, f, kinds, calls(pick(r, texts, 30)) + iters(pick(r, ["a\na\n", "aa\n\na", "a-a", "\n\n", "a\ra", "", "-a a-"], 3))))
    # which bytes make a word, which bytes break a line
    ops = [("k", b"", "")]
    for p in ["a\\b[^]", "a\\B[^]", "[^]\\bz", "[^]\\Bz", "\\b[^]", "[^]\\b", "\\B[^]", "[^]\\B", "[^]^a", "a$[^]", "[^]$", "^[^]", "[^]\\Z", "\\A[^]", "(?<=\\b)[^]", "[^](?=\\b)", "(?:^a|[^])$", "[^](?<=^[^])", "[^](?!$)a", "[^](?<!\\b)", "a(?=$)[^]", "[^](?<=^)a", "a(?<=a$)[^]"]:
        pre = "a" if p[0] == "a" or "^a|" in p else ""
        post = "z" if p[-1] == "z" else "a" if p[-1] == "a" and not p.startswith("a") else ""
        if p.startswith("a"): o = [("k", b"a", "")]
        else: o = [("k", b"", b(post).hex())]
        for f in ((), ("multiline",), ("icase",), ("multiline", "icase"), ("dotall",)):
            defs.append(pattern(p, f, "chars", o))
    # anchors while searching and iterating in the middle of the text, also on forward-only input
    for p in ["^a", "^", "a$", "$", "\\Aa", "a\\Z", "\\ba", "a\\b", "\\Ba", "^a*$", "(?:^|b)a", "^.", ".$", "\\b.", ".\\B", "(?<=^)a", "(?<!\\A)a", "^\\w+", "\\w+$", "\\b\\w+\\b", "^[^]", "(?:^a|\n)", "(?!^)a"]:
        for f in ((), ("multiline",), ("multiline", "dotall")):
            fwd = " fwd" if not any(t in p for t in ("\\b", "\\B", "(?<")) else ""
            defs.append(pattern(p, f, "view list chk iter hist" + fwd, calls(texts[:20]) + iters(["aaa", "a\naa\na", "ab ab", "aa\r\naa", "\n\na", "ba\nba", ""]) + [("h", b"a\naa", "tnnsnnn"), ("S", b"a\na", "iii"), ("T", b"aa\na", "ii")]))
    defs += random_defs(c, 250, depth=4, flags=flagsets, inputs=12, nit=1, kinds="view iter", alphabet="a\n-\r", chars=[("a", "a"), ("\\n", "\n"), ("-", "-"), ("[^]", "a\n-"), (".", "a-"), ("\\w", "a"), ("\\W", "\n-"), ("\\R", "\n\r")], anchor=5, wb=3, cap=1, atomic=0.5, **LOOKS)
    defs += long_defs("C10", flags=((), ("multiline",)))
    c.observe(defs)


# ================================================================================================ C11
@recipe
def C11(c):
    r = c.rng
    tokens = ["a", "b", "|", "(", ")", "*", "$", "ab", "(?<="]
    pats = c.match_model(tokens, 5, maxlen=3)
    defs = []
    for p in pick(r, [p for p in pats if len(p) >= 2], c.n(260)):
        defs.append(pattern(p, (), "view", calls(strings("ab", 4) + ["bbbab", "bbaab", "cccab"])))
    needles = ["a", "ab", "aab", "abab", "a+b", "(a)b", "(a)|(b)c", "a*", "a*b", "a$", "$", "^a", "\\Z", "a?$", "(?<=b)a", "(?<!b)a", "(?=ab)a", "(?!ab)a", "\\ba", "a\\b", "a{3}", "(a){2}b", "(?:ab){2}", "a|ab|b$", "ab|a", "[^b]b", ".$", ".b", "(.)\\1", "(a)(b)?c", "(?:a|b)+c", "(a*)(b*)c", "(?>a*)b", "a*+b",
               "()", "(?:)", "[]", "[^]", "(a|b)*?c", "b(?=$)", "(?<=^)b", "(?<=c)$", "(a)(?!b)", "(?:(a)b|a)c", "a{2,3}", "a{2,3}?b", "aa|aaa", "(?:aa)*b", "abcabd", "aabaaab", "ababac", "\\Aa|b", "b|\\Aa", "a\\Z|b", "x|y|z|ab"]
    frames = ["X", "bX", "bbbX", "acX", "abX", "aX", "aaX", "Xb", "Xc", "bXbX", "cccccccccX", "ab abX", "xX", "XX", "Xx", "aaaXb", "\nX", "abacX"]
    cores = ["", "a", "ab", "aab", "abab", "aa", "aaa", "abc", "ac", "bc", "aabc", "aaab", "abcabd", "aabaaab", "ababac", "b"]
    ins = dedupe(f.replace("X", k) for f in frames for k in cores)
    for p in needles:
        for f in ((), ("icase",), ("multiline",), ("unroll",), ("ungreedy",)):
            defs.append(pattern(p, f, "view list" if f == () else "view", calls(pick(r, ins, 60))))
        fwd = " fwd chkf" if not any(t in p for t in ("\\b", "(?<")) else ""
        defs.append(pattern(p, (), "view ptr rev chk chkb" + fwd, calls(pick(r, ins, 20))))
    for p in ["a", "ab", "a$", "$", "(a)b", "b*a", "a|b", "(?<=x)a", "\\ba", "a{2}", "aa*b", "[ab]c?$", "(x)?a", ".a", "(?:xx)*a"]:
        longs = ["x" * n + t for n in (63, 64, 127, 128, 255, 256, 257, 300) for t in ("a", "ab", "aab", "", "xa")]
        defs.append(pattern(p, (), "view list", calls(pick(r, longs, 14))))
    defs += random_defs(c, 420, depth=4, flags=[(), ("icase",), ("ungreedy",), ("unroll",), ("multiline",)], inputs=14, cap=2, ref=0.7, anchor=0.7, atomic=0.6, wb=0.4, base=["bbab", "cacab"], **LOOKS)
    c.observe(defs)


# ================================================================================================ C12
@recipe
def C12(c):
    r = c.rng
    tokens = ["a", "b", "|", "*", "$", "^", "?", "(?<=", ")", "\\b"]
    pats = c.match_model(tokens, 4, maxlen=3)
    defs = []
    for p in pick(r, [p for p in pats if len(p) >= 1], c.n(220)):
        defs.append(pattern(p, (), "view iter", iters(strings("ab", 3) + ["aabb", "abab", "abba", "aaaa"])))
    pool = ["a", "ab", "a|b", "a*", "a+", "a*?", "a?", "(a)|b", "(a)|(b)", "[ab]", ".", "\\w+", "\\w+\\s?", "a|$", "$", "^a", "^", "a$", "(?<=a)b|a", "(?<=b)a", "(?<!a)b", "a(?=b)", "b(?!a)", "\\ba", "\\b", "a\\b", "(.)\\1", "(?:)", "()", "[]", "a{2}", "a{1,2}", "a{1,2}?", "ab?", "(?>a*)", "a*+b", "(a)(b)?", "b*", "(?:a|)", "\\Aa", "\\Aa|b", "a\\Z", "a\\Z|b", "(?=a)", "(?!b)", "(?<=a)", ".(?<=(.))", "(?<=(.))(.)", "[^,]*,?", "[^,]+", "\\d+|[a-z]+| ", "(?<w>\\w+)|(?<s>\\s+)", ".*", ".+?", "a|ab|abc", "abc|ab|a", "^.", ".$", "\\R", "(?:^|b)a"]
    texts = ["", "a", "b", "aa", "ab", "ba", "aab", "aba", "abab", "aabb", "abba", "bbaa", "aaaa", "ab ab", "a,b,,c", "aab1 b2", "a\nab\n", "\n\n", "abcab", "xaxbx", "aaabaaab", "b a", "12 ab 3"]
    scripts = c.history_model([("a|(b)", "aab"), ("a*", "ba"), ("(?<=a)b", "abb"), ("(a)|$", "aba")], 6 if not c.thorough else 7)
    def script(n):
        return r.choice("tsTS") + "".join(r.choice("tsTS0123nnnnncd=nn") for _ in range(n))
    for p in pool:
        for f in pick(r, [(), ("multiline",), ("icase",), ("ungreedy",), ("unroll",)], 2):
            back = any(t in p for t in ("\\b", "\\B", "(?<=", "(?<!"))
            kinds = "view string list chk vec iter hist" + ("" if back else " fwd")
            ops = iters(pick(r, texts, 14))
            ops += [("h", b(t), script(r.choice([8, 14, 22]))) for t in pick(r, texts, 5)]
            ops += [("h", b(t), h) for t, h in zip(r.choices(texts, k=10), r.sample(scripts, 10))]
            ops += [(k, b(t), "".join(r.choice("iiipbm") for _ in range(8))) for t in pick(r, texts, 3) for k in "TS"]
            defs.append(pattern(p, f, kinds, ops))
    # what is before the place where it goes on is still seen, whatever the earlier result was
    steps = ["a", "\\n", "\\R", "\\s", "a+", ".", "[\\n\\r]", "\\w", "a\\n", "[^b]", "(\\n)", "(a)", "(?:a|\\n)", "a??\\n", "(?>\\s+)", "[^]", "\\N"]
    contexts = ["\\Ab", "^b", "(?<=\\n)b", "(?<=a)b", "(?<!\\n)b", "(?<!a)b", "\\bb", "\\Bb", "b$", "b\\b", "(?<=^)b", "(?<=\\A.)b", "(?<=a\\n)b", "(?<=\\b)b", "(?<=(.))b", "(?<=^a*)b", "b\\Z", "(?<=\\n\\n)b", "\\Aa?b", "(?<=(?=\\n).)b", "(?<!\\A)b", "(?!\\A)b", "(?=^)b", "\\bb\\Z"]
    resumed = [y + "|" + x if n else x + "|" + y for x in steps for y in contexts for n in (0, 1)]
    some = [(), ("multiline",), ("multiline",), ("dotall",), ("icase",), ("multiline", "dotall"), ("multiline", "icase"), ("multiline", "unroll"), ("ungreedy",), ("multiline", "dotall", "icase", "ungreedy")]
    resume_texts = strings("ab\n", 3) + ["a\nab", "\n\nab", "aaab", "a\n\nb", "abab", "\nb\nb", "b\nab", "a\rb", "\rb", "\r\nb"]
    for p in pick(r, resumed, c.n(110)):
        defs.append(pattern(p, r.choice(some), "view iter", iters(resume_texts)))
    # captures of earlier results, long sequences
    for p in ["a", "(a)", "[ab]", "a|(b)", "\\w", "ab|ba", "(?<=.)."]:
        defs.append(pattern(p, (), "view list iter", iters(["a" * 70, "ab" * 40, "a" * 33 + "b" + "a" * 33])))
    g = [random_defs(c, 150, kinds="view iter hist", depth=4, flags=[(), ("multiline",), ("icase",), ("ungreedy",)], inputs=4, nit=6, cap=2, ref=0.5, anchor=1, atomic=0.5, wb=0.5, alphabet="ab c\n", **LOOKS)]
    for d in g[0]:
        d.ops += [("h", d.ops[0][1], script(12)), ("S", d.ops[0][1], "iipibi"), ("T", d.ops[0][1], "ipmii")]
    defs += g[0]
    defs += long_defs("C12", it=True, kinds="view list iter")
    c.observe(defs)


# ================================================================================================ C13
@recipe
def C13(c):
    r = c.rng
    tokens = ["a", "(?:", "(", ")", "|", "*", "?", "{2,}", "\\b"]
    pats = c.match_model(tokens, 6 if not c.thorough else 7, maxlen=2, correct=True, chars="ab")
    pats = [p for p in pats if b"*" in p or b"{2,}" in p]
    c.machine_model(pats, 90)
    defs = []
    for p in pick(r, [p for p in pats if len(p) >= 5], c.n(300)):
        defs.append(pattern(p, (), "view", calls(strings("ab", 3) + ["aaaa", "aaab", "abab"])))
    null = ["a*", "a?", "a??", "a*?", "a*+", "|a", "a|", "a|b*", "a*b*", "a*|b", "", "(?=a)", "(?!a)", "^", "$", "\\b", "\\B", "\\A", "\\Z", "(?<=a)", "(?<!a)", "(a*)", "(a)?", "(a|)", "(|a)", "()", "(a*)(b*)", "a{0}", "a{0,2}", "(?:a*)*", "(?:a?)+", "(?:a|b?)*", "(?>a*)", "(?>a|)", "(a*?)", "(?=(a))", "(?:)", "(?:)|a", "a?b?", "(?:a|())b?", "(a?)(?:\\1)", "(?=a)a?", "^a?", "a?$", "(?:^|a)", "(?:$|a)", "\\ba?", "(?:a*?b?)", "(?:a??)", "(?:|a)b?", "(?<n>a*)", "(?<n>a?)", "(?<n>)", "(?<n>a|)", "(?<n>(?=a))", "(?<n>a??)b?"]
    loops = ["*", "+", "{2,}", "{3,}", "{1,}", "{0,}", "{2}", "{3}", "{1,3}", "{2,4}", "{0,2}"]
    tails = ["", "b", "a", "c", "$", "a*b", "(a|b)"]
    combos = []
    for x, q, m, t in itertools.product(null, loops, ("", "?", "+"), tails):
        combos.append("(?:" + x + ")" + q + m + t)
        if not any(ch in x for ch in "\\(") : combos.append("(" + x + ")" + q + m + t)
    ins = dedupe(strings("ab", 3) + ["aaaa", "aaab", "abab", "aabb", "aaaaa", "bbaa", "aba", "c", "ac", "aabc", "caab", "aaaac"])
    for p in pick(r, combos, c.n(750)):
        defs.append(pattern(p, r.choice([(), (), (), ("ungreedy",), ("unroll",), ("multiline",)]), "view", calls(ins)))
    nested = ["((a*)*)*", "((a*)*b)*", "(?:(?:a*)*)*b", "(?:(?:a?)*?)*", "(?:a*)*(?:b*)*", "((a?)*?)*?b", "(?:(a)|(b)|())*", "(?:(a)|(b)|())*?$", "(?:()|(a))*b", "(?:(?=a)|a)*b", "(?:(?!b)|b)*", "(?:\\b|a)*b", "(?:^|$|a)*", "(?:(a*)|b)*", "(?:(a*)|b)+?c", "(a*){2,}b", "(a*){3}", "(a?){5}", "(a?){4}b", "(?:a|b?){3,}", "((a)?){3}", "((a)?b?){2,}", "(?:(a)?){2}", "()*", "()+", "(){3}", "(){2,}a", "(?:()\\1)*a", "(a?)(?:\\1)*b", "(a*)(?:\\1)*b", "(?:(a*)\\1)*b", "(?:\\1(a?))*b", "(?<=(?:a*)*)b", "(?<=(?:a?b?)*)c?", "(?<!(?:a*)+)b", "(?=(?:a*)*b)a", "(?!(?:a*)*c)a*", "(?>(?:a*)*)b", "(?:a*)*+b", "(?:a*)++b", "(?:a|)*+b", "(?:|a)*+b", "(?:|a)*b", "(?:|a)+b", "(?:|a){2,}b", "(?:|a)*?b", "(?:a??)*b", "(?:a??)+?b", "(?:a*?)*+", "(a*?)*+", "(?:a{0,1}){0,}b", "(?:(?:|a)+)+b", "(?:(?:a|b)*)*c", "(?:[ab]*)*c", "(?:.*)*c", "(?:.*?)*c", "(?:(?:.*,)?)*b", "(?:a*(?:b*)*)*c?"]
    defs += placed(c, combos, 170, [t for t in ins if len(t) <= 4], flags=[(), (), ("ungreedy",), ("unroll",)])
    for p in nested:
        for f in ((), ("ungreedy",), ("unroll",)):
            defs.append(pattern(p, f, "view list iter", calls(ins[:22]) + iters(["aab", "ab", ""])))
    defs += random_defs(c, 300, depth=5, flags=[(), ("ungreedy",), ("unroll",)], inputs=12, quants=["*", "+", "{2,}", "?", "{0,2}", "{2}", "*", "{1,}"], modes=["", "?", "+"], empty=2, alt=4, anchor=1, wb=0.5, ref=0.7, look=0.7, nlook=0.4, behind=0.5, cap=2, max_height=3)
    c.observe(defs)


# ================================================================================================ C14
@recipe
def C14(c):
    r = c.rng
    tokens = ["a", "b", "(", ")", "|", "*", "{2}", "?", "$"]
    pats = c.match_model(tokens, 5, maxlen=3)
    full = "view ptr string vec deque list rev"
    defs = []
    some = [p for p in pats if len(p) >= 4]
    ins = strings("ab", 3) + ["aaaa", "abab", "aabb", "abba"]
    for p in pick(r, some, c.n(70)):
        defs.append(pattern(p, r.choice([(), ("unroll",)]), full + " fwd", calls(ins)))
    items = ["a", "[ab]", ".", "(a)", "(?:ab)", "(?:a|ab)", "\\w", "(?:a|b)", "(a|b)", "[^b]"]
    quants = ["", "*", "+", "?", "{2}", "{3}", "{2,}", "{1,2}", "{0,2}", "{1,3}", "{2,4}", "{5}", "{3,5}", "{0}", "{1}"]
    combos = [i + q + m + t for i, q, m, t in itertools.product(items, quants, ("", "?", "+"), ("", "b", "(a?)", "a*b", "$", "ab")) if q or not m]
    for p in pick(r, combos, c.n(170)):
        f = r.choice([(), ("unroll",), ("ungreedy",), ("icase",), ("unroll", "ungreedy")])
        defs.append(pattern(p, f, full + " fwd" if r.random() < 0.4 else "view list rev fwd", calls(ins), frozen=pick(r, ["", "ab", "aab", "abab", "aaa", "aabb"], 2)))
    defs += placed(c, combos, 40, ins, flags=[(), ("unroll",), ("ungreedy",)], kinds="view list rev deque")
    other = ["(a)\\1", "(a*)b\\1", "(?<n>a)\\k<n>", "(?=a).", "(?!a).", "(?>a|ab)b", "a*+b", "^a", "a$", "^$", "\\Aa", "a\\Z", "(?=(a*))\\1b", "((a)|b)+", "(?:(a)|(b))*?$", "abc|abd", "a{2}b{2}", "(ab){2,3}", "[a-c]{3}d?", "(?:a|b){2}\\w", "(a?){3}", "\\d{2,}|\\w", "(a)(b)(c)?", "x*", "()", "(?:)", "[]", "[^]*"]
    for p in other:
        for f in ((), ("unroll",), ("multiline",), ("multiline", "unroll", "icase", "dotall", "ungreedy")):
            defs.append(pattern(p, f, full + " fwd flist iter", calls(ins + ["a\nb", "abcd", "\n"]) + iters(["aab", "abab", "a\na"]), frozen=["", "aab", "abcd"] if f in ((), ("unroll",)) else []))
    back = ["(?<=a)b", "(?<!a)b", "\\bab?\\b", "\\Bb", "(?<=(a)(b))a", "(?<=ab|b)a", "(?<=^a)b", "(?<=(a*))b", "(?<=\\1(a))b", "(?<=(?=ab)a)b", "a(?<=a{1,2})b", "(?<=[ab]{2})a", "(?<=(?:ab){2})a?", "(?<=(?<!a)b)a"]
    for p in back:
        for f in ((), ("unroll",)):
            defs.append(pattern(p, f, full + " iter", calls(ins + ["ab ab", "a b"]) + iters(["aab", "abab"]), frozen=["abab", "ab ab", ""]))
    defs += random_defs(c, 60, kinds=full, depth=4, flags=[(), ("unroll",)], inputs=8, cap=2, ref=0.7, anchor=0.5, atomic=0.6, wb=0.5, **LOOKS)
    fw = random_defs(c, 90, kinds="view fwd list iter", depth=4, flags=[(), ("unroll",), ("multiline",)], inputs=8, nit=2, cap=2, ref=0.7, anchor=0.6, atomic=0.6, look=1, nlook=1)
    defs += fw
    # unrolled and not: the same patterns with both settings
    g = corpus.Gen(r, cap=2, ref=0.7, atomic=0.6, quants=["{2}", "{3}", "{2,}", "{2,3}", "{1,3}", "{4}", "*", "+", "{3,}", "{5}"], **LOOKS)
    for _ in range(c.n(130)):
        x = g.pattern(4)
        ii = corpus.inputs_for(r, x, n=9)
        for f in ((), ("unroll",)): defs.append(pattern(x.text(), f, "view", calls(ii)))
    # constant evaluation
    g2 = corpus.Gen(r, cap=2, ref=0.7, atomic=0.6, anchor=0.5, wb=0.5, **LOOKS)
    for _ in range(c.n(70)):
        x = g2.pattern(3)
        ii = [t for t in corpus.inputs_for(r, x, n=4) if corpus.affordable(x, t, 300)][:4]
        defs.append(pattern(x.text(), r.choice([(), ("unroll",), ("icase",)]), "view", calls(ii), frozen=ii))
    # characters of other types, other ways to give a range, iterators that compute their characters
    bytes_ = ["\xe9", "a\xe9b", "\xff\xff", "\x80a", "A\xc1a"]
    rare = [(p, ()) for p in back + ["[^a](.)\\1", "[\xe0-\xff]+|a", "\\w\\W", ".\\xe9", "(?<=\xe9)b", "(?<![^a])\xff", "^.$|a"]]
    rare += [(p, r.choice([(), ("unroll",), ("icase",), ("multiline",)])) for p in pick(r, other, c.n(8)) + pick(r, combos, c.n(14))]
    for p, f in rare:
        its = iters(["aab", "abab", "a\xe9b"]) if r.random() < 0.4 else []
        d = pattern(p, f, "view bytes forms values" + (" iter" if its else ""), calls(ins + bytes_) + its)
        d.weight = 22.0
        defs.append(d)
    gcc = pick(r, [d for d in defs], c.n(60))
    gcc = [Def(d.code, d.ops, d.frozen, d.key, d.weight, d.desc) for d in gcc]
    defs += long_defs("C14", kinds="view deque list rev", flags=((), ("unroll",))) + long_defs("C14", kinds="fwd", huge=False)
    c.observe(defs)
    c.observe(gcc, cxx="g++")
    opt = [Def(d.code, d.ops, d.frozen, d.key, d.weight, d.desc) for d in pick(r, defs, c.n(24))]
    c.observe(opt, cxx="g++", extra=("-O2",))


# ================================================================================================ C15
@recipe
def C15(c):
    r = c.rng
    tokens = ["a", "(", ")", "|", "*", "{2}", "$", "(?=", "(?<=", "\\b"]
    pats = c.match_model(tokens, 4, maxlen=3)
    c.machine_model([p for p in pats if any(t in p for t in (b"?", b"$", b"\\", b"{"))], 60, chars="a-", flags=[(), ("multiline",)])
    defs = []
    ins = strings("ab", 3) + ["aaaa", "abab", "aabb"]
    for p in pick(r, [p for p in pats if len(p) >= 3], c.n(140)):
        defs.append(pattern(p, r.choice([(), ("unroll",), ("multiline",)]), "chk chkb", calls(ins)))
    items = ["a", "[ab]", ".", "(a)", "(?:ab)", "(?:a|ab)", "\\w", "ab", "abab", "(?:aab|ab)", "[^]", "\\R"]
    quants = ["*", "+", "?", "{2}", "{3}", "{4}", "{2,}", "{1,2}", "{0,2}", "{1,3}", "{2,4}", "{5}", "{3,5}", "{0}", "{7}", ""]
    fw, bw = [], []
    for i, q, m, t in itertools.product(items, quants, ("", "?", "+"), ("", "b", "(a?)", "a{2}", "$", "\\1")):
        if m and not q: continue
        if t == "\\1" and "(a)" not in i: continue
        fw.append(("(?:" + i + ")" if len(i) > 1 and i[0] not in "([\\" else i) + q + m + t)
    for k, x in itertools.product(["(?<=", "(?<!"], ["a", "ab", "a{2}", "a{3}b", "[ab]*b", "a|bb", "^a", "(a)b", "\\ba", "a$", "(?=ab)a", "a.b", "(a)\\1", "\\1(a)", "(?<=a)b", "[^]{4}", "(?:ab){2}", ".+?", "\\Ba", "$", "^"]):
        bw += [k + x + ")" + t for t in ("", ".", "b", "$")]
    words = ["\\b", "\\B", "a\\b", "\\ba", "\\b.", ".\\b", "\\Ba\\B", "\\b\\b", "(?:\\b|a)*", "(?<=\\b)a", "(?=\\b)a", "^", "$", "^a", "a$", "^$", "$^", "\\A\\Z", "a^", "$a", "(?:^a)*", "(?:a$)?", "(?=a)", "(?!a)", "(?=ab)", "(?!ab)a", "(?=$)", "(?!$).", "(?=a{3})a", "(a)\\1", "(a*)\\1", "(ab)\\1", "(?=(ab))\\1", "(?:a|$)b?", "(?>a*)b", "()", "[]", "(?:)", "ab|a$", "abc", "aba|ab", "\\x61b", "a\\nb"]
    for p in pick(r, fw, c.n(190)):
        f = r.choice([(), ("unroll",), ("icase",), ("ungreedy",), ("multiline",)])
        defs.append(pattern(p, f, "chk chkb chkf", calls(ins)))
    defs += placed(c, [p for p in fw if "\\R" not in p], 80, ins, flags=[(), ("unroll",), ("ungreedy",)], kinds="chk chkb")
    for p in pick(r, bw, c.n(110)):
        defs.append(pattern(p, r.choice([(), ("unroll",), ("multiline",)]), "chk chkb", calls(ins + ["a\nb", "b\na"])))
    for p in words:
        for f in ((), ("multiline",)):
            nobk = not any(t in p for t in ("\\b", "\\B", "(?<"))
            defs.append(pattern(p, f, "chk chkb iter" + (" chkf" if nobk else ""), calls(ins + ["a\nb", "\n", "b\n", "abc", "a\n"]) + iters(["aab", "ab\na", "", "a", "\n"])))
    defs += random_defs(c, 150, kinds="chk chkb iter", depth=4, flags=[(), ("unroll",), ("icase",), ("multiline",), ("ungreedy",)], inputs=9, nit=2, cap=2, ref=1, anchor=1, atomic=0.6, wb=1, **LOOKS)
    defs += random_defs(c, 60, kinds="chkf", depth=4, flags=[(), ("unroll",), ("multiline",)], inputs=9, cap=2, ref=1, anchor=1, atomic=0.6, look=1, nlook=1)
    defs += long_defs("C15", kinds="ptr chk chkb")
    c.observe(defs)
    # raw pointers under the address sanitizer
    asan = [pattern(p, f, "ptr vec", calls(ins + ["a\nb"])) for p in pick(r, fw + bw + words, c.n(40)) for f in [r.choice([(), ("unroll",), ("multiline",)])]]
    c.observe(asan, extra=("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g0"))


# ================================================================================================ C16
@recipe
def C16(c):
    r = c.rng
    c.match_model(["a", "(", ")", "|", "*", "(?<x>", "?"], 5, maxlen=3, mincaps=1)
    base = [
        ("ab", []), ("a*", []), ("(a)", []), ("(a)|(b)", []), ("(?<x>a*)(b)?(?<yy>c)?", ["x", "yy"]), ("a(b|c)*?$", []), ("(?<n>a)|(?<m>b)", ["n", "m"]), ("(a)(b)(c)(d)?", []), ("((a)|b)+", []),
        ("(?<all>(?<first>.)(?<rest>.*))", ["all", "first", "rest"]), ("(?=(?<in>a))(.)", ["in"]), ("(?<=(?<before>a))b", ["before"]), ("(?<a>x)?(?<ab>y)?(?<abc>z)?", ["a", "ab", "abc"]), ("(?<abc>x)?(?<ab>y)?(?<a>z)?", ["a", "ab", "abc"]),
        ("()(a?)", []), ("(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)?", []), ("(?<k1>a)(b)(?<k2>c)?(d)?(?<k3>e)", ["k1", "k2", "k3"]), ("[^]*", []), ("(?<w>\\w+)\\s(\\d+)?", ["w"]), ("(?<long_group_name_number_1>a+)b?", ["long_group_name_number_1"]), ("(?<A>a)(?<b>b)|(?<C>c)", ["A", "b", "C"]),
    ]
    texts = ["", "a", "b", "ab", "aa", "aabc", "xab", "zzz", "abcb", "abcd", "abc", "xyz", "xz", "abcdefghij", "abcdefghijk", "abcde", "ab 12", "foo 7", "c", "a\x00b", "\xff\xfe", "aab\nab", "a" * 40, "y" * 17 + "a" * 20]
    defs = [results(p, ns, pick(r, texts, 16)) for p, ns in base]
    g = corpus.Gen(r, cap=5, ncap=2, ref=0.7, atomic=0.5, max_height=1, **LOOKS)
    k = 0
    while k < c.n(14):
        x = g.pattern(4)
        if not 1 <= len(g.caps) <= 9 or len(x.text()) > 60: continue
        k += 1
        defs.append(results(x.text(), [n for _, n in g.caps if n], corpus.inputs_for(r, x, n=8)))
    # the plain ways of reading, over more patterns, kinds of input and iterations
    for p, _ in base:
        defs.append(pattern(p, (), "view string list vec owned iter", calls(texts) + iters(["aab", "abab", ""])))
    defs += random_defs(c, 130, kinds="view owned list", depth=4, inputs=10, flags=[(), ("icase",), ("ungreedy",)], cap=4, ncap=2, ref=0.5, atomic=0.5, **LOOKS)
    c.observe(defs, per_tu=60.0)
    san = [results(p, ns, pick(r, texts, 8)) for p, ns in pick(r, base, c.n(8))]
    c.observe(san, extra=("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g0"), per_tu=20.0)


# ================================================================================================ C17
class XprGen:
    """Random expressions: C++ text and the description the specification reads."""
    CLASSES = ["whitespace", "wildcard", "lower", "upper", "digit", "word", "linebreak"]
    ZERO = ["begin_line", "end_line", "begin_input", "end_input", "word_boundary", "empty"]

    def __init__(self, r):
        self.r = r

    def make(self, depth):
        self.ids = 0
        self.names = {}
        self.sealed = False
        return self.node(depth)

    def op(self, which, args=(), **kw):
        d = {"op": which, "a": [a[1] for a in args]}
        d.update(kw)
        return d

    def char(self, d=1):
        r = self.r
        k = r.random()
        if k < 0.45:
            ch = r.choice("abcAB1_ \n")
            return "xpr::chr<char(%d)>" % ord(ch), self.op("chr", c=ord(ch))
        if k < 0.6:
            lo, hi = r.choice([("a", "c"), ("b", "z"), ("A", "B"), ("0", "9"), ("a", "a")])
            return "xpr::range<char(%d), char(%d)>" % (ord(lo), ord(hi)), self.op("range", lo=ord(lo), hi=ord(hi))
        if k < 0.8 or d <= 0:
            n = r.choice(self.CLASSES)
            return "xpr::" + n, self.op(n)
        x = self.char(d - 1)
        if k < 0.9:
            return r.choice(["(!%s)", "xpr::negate(%s)", "(not %s)"]) % x[0], self.op("negate", [x])
        y = self.char(d - 1)
        z = ("(%s | %s)" % (x[0], y[0]), self.op("either", [x, y]))
        return "(!%s)" % z[0], self.op("negate", [z])

    def sub(self, d, lo=1, hi=3):
        return [self.node(d - 1) for _ in range(self.r.randint(lo, hi))]

    def node(self, d):
        r = self.r
        if d <= 0:
            return self.char()
        k = r.choices(["char", "str", "concat", "either", "rep", "capture", "look", "atomic", "zero", "ref", "regex", "nothing"],
                      [4, 3, 5, 4, 5, 3, 1.5, 1, 0.7, 1.5, 2, 0.1])[0]
        if k == "ref" and not self.ids: k = "char"
        if k == "char": return self.char()
        if k == "str":
            t = r.choice(["a", "ab", "ba", "abc", "aab", "b1", "a.b", "a*", "(a)", "[ab]", "\\d", "a|b", "^a$"])
            return "xpr::str<%s>" % cstr(t), self.op("str", s=list(b(t)))
        if k == "regex":
            t = r.choice(["a|b", "a*", "ab|c", "[ab]", "a+?b", "(?:ab)*", "a?", "(?=a)", "(?<=a)", "\\w+", "a{2,3}", "", "a|b?", "(?>a|ab)", "[^a]", "^a|b$", "(a)b", "(a)|(b)", "(?<n>a)b?", "((a)|b)*"])
            if "(a)" in t or "(?<n>" in t:
                if self.ids: t = "a|bc"
                else: self.ids = {"(a)b": 1, "(a)|(b)": 2, "(?<n>a)b?": 1, "((a)|b)*": 2}[t]
                if "(?<n>" in t: self.names["n"] = 1
            return "xpr::regex<%s>" % cstr(t), self.op("regex", pat=list(b(t)))
        if k == "zero":
            n = r.choice(self.ZERO)
            x = ("xpr::" + n, self.op(n))
            if n != "empty" and r.random() < 0.3: return "(!%s)" % x[0], self.op("negate", [x])
            return x
        if k == "nothing": return "xpr::nothing", self.op("nothing")
        if k == "ref":
            i = r.randint(1, self.ids)
            nm = [n for n, j in self.names.items() if j == i]
            if nm and r.random() < 0.6: return "xpr::group_named<%s>" % cstr(nm[0]), self.op("named", name=list(b(nm[0])))
            return "xpr::group<%d>" % i, self.op("group", id=i)
        if k in ("concat", "either"):
            xs = self.sub(d, 2, 4)
            if r.random() < 0.45:
                return "xpr::%s(%s)" % (k, ", ".join(x[0] for x in xs)), self.op(k, xs)
            sign = " >> " if k == "concat" else " | "
            # operators group to the left unless parenthesised otherwise
            if len(xs) > 2 and r.random() < 0.5:
                inner = (("(%s)" % sign.join(x[0] for x in xs[1:])), self.op(k, xs[1:]))
                return "(%s)" % sign.join([xs[0][0], inner[0]]), self.op(k, [xs[0], inner])
            return "(%s)" % sign.join(x[0] for x in xs), self.op(k, xs)
        if k == "capture":
            self.ids += 1
            i = self.ids
            name = r.choice(["", "", "n%d" % i])
            if name: self.names[name] = i
            xs = self.sub(d, 1, 2)
            head = "%d, %s" % (i, cstr(name)) if name else "%d" % i
            return "xpr::capture<%s>(%s)" % (head, ", ".join(x[0] for x in xs)), self.op("capture", xs, id=i, name=list(b(name)))
        if k == "atomic":
            xs = self.sub(d, 1, 2)
            return "xpr::atomic(%s)" % ", ".join(x[0] for x in xs), self.op("atomic", xs)
        if k == "look":
            xs = self.sub(d, 1, 2)
            w = r.choice(["ahead", "behind"])
            x = ("xpr::%s(%s)" % (w, ", ".join(y[0] for y in xs)), self.op(w, xs))
            if r.random() < 0.45: return "(!%s)" % x[0], self.op("negate", [x])
            return x
        # repetitions
        m = r.choice(["g", "g", "l", "p"])
        mode = {"g": "meta::match_mode::greedy", "l": "meta::match_mode::lazy", "p": "meta::match_mode::possessive"}[m]
        xs = self.sub(d, 1, 2)
        args = ", ".join(x[0] for x in xs)
        how = r.choice(["between", "at_least", "exactly", "zero_or_more", "one_or_more", "maybe", "star", "plus"])
        if how == "star" and len(xs) == 1: return "(*%s)" % args, self.op("rep", xs, m="g", lo=0, hi=-1)
        if how == "plus" and len(xs) == 1: return "(+%s)" % args, self.op("rep", xs, m="g", lo=1, hi=-1)
        if how in ("star", "plus"): how = "zero_or_more"
        lo, hi = r.choice([(0, 1), (1, 2), (0, 2), (1, 3), (2, 3), (1, 1), (0, 3)])
        n = r.choice([0, 1, 2, 3])
        explicit = m != "g" or r.random() < 0.3
        def targs(*vals):
            vals = [str(v) for v in vals] + ([mode] if explicit else [])
            return "<%s>" % ", ".join(vals) if vals else ""
        if how == "between": return "xpr::between%s(%s)" % (targs(lo, hi), args), self.op("rep", xs, m=m, lo=lo, hi=hi)
        if how == "at_least": return "xpr::at_least%s(%s)" % (targs(n), args), self.op("rep", xs, m=m, lo=n, hi=-1)
        if how == "exactly": return "xpr::exactly%s(%s)" % (targs(n), args), self.op("rep", xs, m=m, lo=n, hi=n)
        if how == "zero_or_more": return "xpr::zero_or_more%s(%s)" % (targs(), args), self.op("rep", xs, m=m, lo=0, hi=-1)
        if how == "one_or_more": return "xpr::one_or_more%s(%s)" % (targs(), args), self.op("rep", xs, m=m, lo=1, hi=-1)
        return "xpr::maybe%s(%s)" % (targs(), args), self.op("rep", xs, m=m, lo=0, hi=1)


XPR_PRELUDE = "namespace xpr = meta::xpr; using namespace xpr::operators;\n"


def op(which, *args, **kw):
    d = {"op": which, "a": list(args)}
    d.update(kw)
    return d


def oc(ch): return op("chr", c=ord(ch))
def ostr(t): return op("str", s=list(b(t)))
def orx(t): return op("regex", pat=list(b(t)))


@recipe
def C17(c):
    r = c.rng
    c.match_model(["a", "b", "(?:", "|", ")", "*", "(?=", "("], 5, maxlen=3)
    defs = []
    a_, b_, c_ = oc("a"), oc("b"), oc("c")
    fixed = []
    # flattening in all groupings of sequences and choices
    def leafs(n): return [("xpr::chr<'%s'>" % ch, oc(ch)) for ch in "abcdefgh"[:n]]
    def grouped(k, sign, xs):
        """All ways to put parentheses around a chain."""
        if len(xs) == 1: return [xs[0]]
        out = []
        for i in range(1, len(xs)):
            for l in grouped(k, sign, xs[:i]):
                for rr in grouped(k, sign, xs[i:]):
                    out.append(("(%s %s %s)" % (l[0], sign, rr[0]), op(k, l[1], rr[1])))
        return out
    for n in (2, 3, 4, 5):
        for k, sign in (("concat", ">>"), ("either", "|")):
            gs = grouped(k, sign, leafs(n))
            fixed += [(e, d, ["abcdefgh"[:n], "a", "b", "c", "d", "e", "abcd", "ba", "abdc", "abc", "xabcde", ""]) for e, d in pick(r, gs, 6)]
            l2 = [("xpr::str<\"%s\">" % t, ostr(t)) for t in ("ab", "a", "cd", "abc", "b")[:n]]
            fixed += [(e, d, ["ab", "a", "cd", "abc", "abacdabcb", "aba", "abacd", "abacdabc", "abcdab", "b"]) for e, d in pick(r, grouped(k, sign, l2), 6)]
            l3 = [("xpr::regex<\"%s\">" % t, orx(t)) for t in ("a|b", "c*", "ab|a", "b|c|d", "a+?")[:n]]
            fixed += [(e, d, ["a", "b", "cc", "ab", "ac", "bcab", "acaba", "acbd", "bccabca", "d", "aa", "", "acabda"]) for e, d in pick(r, grouped(k, sign, l3), 6)]
    mixed = [("(%s | %s) >> %s", ("either", 0, 1), 2), ("%s >> (%s | %s)", None, None)]
    xs = [("xpr::chr<'a'>", a_), ("xpr::str<\"ab\">", ostr("ab")), ("xpr::regex<\"a|b\">", orx("a|b")), ("xpr::regex<\"ab|c\">", orx("ab|c")), ("(*xpr::chr<'a'>)", op("rep", a_, m="g", lo=0, hi=-1)), ("xpr::regex<\"\">", orx("")), ("xpr::empty", op("empty")), ("xpr::regex<\"b??\">", orx("b??"))]
    ins = ["", "a", "b", "c", "ab", "aab", "abab", "abc", "ac", "cab", "aaa", "ba", "aba", "abb", "bb"]
    for x, y, z in itertools.product(xs, repeat=3):
        trio = [("((%s | %s) >> %s)" % (x[0], y[0], z[0]), op("concat", op("either", x[1], y[1]), z[1])), ("(%s >> (%s | %s))" % (x[0], y[0], z[0]), op("concat", x[1], op("either", y[1], z[1]))),
                ("((%s >> %s) | %s)" % (x[0], y[0], z[0]), op("either", op("concat", x[1], y[1]), z[1])), ("(%s | (%s >> %s))" % (x[0], y[0], z[0]), op("either", x[1], op("concat", y[1], z[1]))),
                ("xpr::capture<1>(%s, %s) >> xpr::capture<2, \"n\">(%s)" % (x[0], y[0], z[0]), op("concat", op("capture", x[1], y[1], id=1, name=[]), op("capture", z[1], id=2, name=list(b"n")))),
                ("xpr::maybe(%s, %s) >> !xpr::ahead(%s)" % (x[0], y[0], z[0]), op("concat", op("rep", x[1], y[1], m="g", lo=0, hi=1), op("negate", op("ahead", z[1])))),
                ("xpr::behind(%s, %s) >> %s" % (x[0], y[0], z[0]), op("concat", op("behind", x[1], y[1]), z[1]))]
        fixed += [(e, d, ins) for e, d in pick(r, trio, 1)]
    fixed = pick(r, fixed, c.n(420))
    # every terminal, over all bytes
    for n in XprGen.CLASSES:
        for neg in (False, True):
            e, d = ("(!xpr::%s)" % n, op("negate", op(n))) if neg else ("xpr::" + n, op(n))
            for f in ((), ("icase",), ("dotall",)):
                defs.append(described(e if not f else "xpr::add_flags<%s>(%s)" % (", ".join("meta::regex_flag::" + x for x in f), e), {"x": d}, f, "chars", [("k", b"", "")]))
    for lo, hi in [("a", "z"), ("A", "f"), ("\x00", "\x7f"), ("\x80", "\xff"), ("a", "a"), ("0", "A")]:
        for neg in (False, True):
            e, d = "xpr::range<char(%d), char(%d)>" % (ord(lo), ord(hi)), op("range", lo=ord(lo), hi=ord(hi))
            if neg: e, d = "(!%s)" % e, op("negate", d)
            for f in ((), ("icase",)):
                defs.append(described(e if not f else "xpr::add_flags<meta::regex_flag::icase>(%s)" % e, {"x": d}, f, "chars", [("k", b"", "")]))
    for n in XprGen.ZERO[:-1]:
        for e, d in (("xpr::%s >> xpr::chr<'a'>" % n, op("concat", op(n), a_)), ("xpr::chr<'a'> >> xpr::%s" % n, op("concat", a_, op(n))), ("xpr::chr<'a'> >> !xpr::%s" % n, op("concat", a_, op("negate", op(n)))), ("!xpr::%s >> xpr::chr<'a'>" % n, op("concat", op("negate", op(n)), a_)), ("!!xpr::%s >> xpr::chr<'a'>" % n, op("concat", op(n), a_))):
            for f in ((), ("multiline",)):
                defs.append(described(e if not f else "xpr::add_flags<meta::regex_flag::multiline>(%s)" % e, {"x": d}, f, "view iter", calls(["a", "aa", "a\na", "\na", "a\n", "a-a", "ba", "ab", ""]) + iters(["a\naa", "aa a"])))
    for e, d, ii in fixed:
        defs.append(described(e, {"x": d}, (), "view", calls(ii)))
    # modes and bounds of all repetition functions
    for m, mode in (("g", "greedy"), ("l", "lazy"), ("p", "possessive")):
        M = "meta::match_mode::" + mode
        for e, lo, hi in [("between<1, 3, %s>" % M, 1, 3), ("between<0, 2, %s>" % M, 0, 2), ("at_least<2, %s>" % M, 2, -1), ("at_least<0, %s>" % M, 0, -1), ("exactly<2, %s>" % M, 2, 2), ("exactly<1, %s>" % M, 1, 1), ("exactly<0, %s>" % M, 0, 0), ("zero_or_more<%s>" % M, 0, -1), ("one_or_more<%s>" % M, 1, -1), ("maybe<%s>" % M, 0, 1)]:
            for inner, od in (("xpr::chr<'a'>", [a_]), ("xpr::str<\"ab\">", [ostr("ab")]), ("xpr::chr<'a'>, xpr::maybe(xpr::chr<'b'>)", [a_, op("rep", b_, m="g", lo=0, hi=1)]), ("xpr::regex<\"a|ab\">", [orx("a|ab")])):
                x = op("capture", op("rep", *od, m=m, lo=lo, hi=hi), id=1, name=[])
                ii = ["", "a", "aa", "aaa", "aaaa", "ab", "abab", "ababab", "aab", "abb", "aabc", "abac", "abc", "ababc", "aac", "ac", "c", "abaab", "aabab", "baab"]
                for te, td in [("xpr::capture<2>(xpr::regex<\"[ab]*\">)", op("capture", orx("[ab]*"), id=2, name=[]))] + pick(r, [("xpr::chr<'c'>", c_), ("xpr::chr<'b'>", b_), ("xpr::str<\"ab\">", ostr("ab")), ("xpr::regex<\"a|bc?\">", orx("a|bc?"))], 2 if not c.thorough else 4):
                    defs.append(described("xpr::capture<1>(xpr::%s(%s)) >> %s" % (e, inner, te), {"x": op("concat", x, td)}, (), "view", calls(ii)))
    # sharing sub-expressions, also through variables
    shared = [
        ("auto x = xpr::chr<'a'> | xpr::chr<'b'>; auto y = x >> x; auto z = y >> x;", "z >> *y", lambda: (lambda x: op("concat", op("concat", op("concat", x, x), x), op("rep", op("concat", x, x), m="g", lo=0, hi=-1)))(op("either", a_, b_))),
        ("auto x = xpr::str<\"ab\">; auto y = x | xpr::chr<'a'>;", "y >> x >> y", lambda: (lambda x: (lambda y: op("concat", op("concat", y, x), y))(op("either", x, a_)))(ostr("ab"))),
        ("auto x = xpr::regex<\"a|ab\">;", "xpr::atomic(x) >> xpr::maybe(x) >> xpr::end_line", lambda: (lambda x: op("concat", op("concat", op("atomic", x), op("rep", x, m="g", lo=0, hi=1)), op("end_line")))(orx("a|ab"))),
        ("auto w = +xpr::word; auto s = *xpr::whitespace;", "xpr::capture<1>(w) >> s >> xpr::capture<2>(w) >> xpr::group<1>", lambda: (lambda w, s: op("concat", op("concat", op("concat", op("capture", w, id=1, name=[]), s), op("capture", w, id=2, name=[])), op("group", id=1)))(op("rep", op("word"), m="g", lo=1, hi=-1), op("rep", op("whitespace"), m="g", lo=0, hi=-1))),
    ]
    for pre, e, d in shared:
        defs.append(described("[]{ %s return %s; }()" % (pre, e), {"x": d()}, (), "view list iter", calls(ins + ["ababa", "aabb", "ab ba", "aa", "aba a", "ababab"]) + iters(["abab", "aab"])))
    g = XprGen(r)
    alph = "abcA1 \n"
    k = 0
    while k < c.n(700):
        e, d = g.make(r.choice([3, 4, 4]))
        if len(e) > 420: continue
        k += 1
        ii = dedupe(["", "a", "ab", "ba", "aab", "abab", "abc", "a1", "aA"] + ["".join(r.choice(alph[:r.choice([2, 3, 7])]) for _ in range(r.randint(1, 7))) for _ in range(10)])
        f = r.choice([(), (), (), ("icase",), ("ungreedy",), ("multiline",)])
        expr = e if not f else "xpr::add_flags<%s>(%s)" % (", ".join("meta::regex_flag::" + x for x in f), e)
        defs.append(described(expr, {"x": d}, f, "view", calls(ii)))
    c.observe(defs, prelude=XPR_PRELUDE)


# ================================================================================================ C18
@recipe
def C18(c):
    r = c.rng
    F = list(vlib.FLAGS)
    subsets = [tuple(f for i, f in enumerate(F) if m >> i & 1) for m in range(32)]
    c.match_model(["a", "A", ".", "^", "$", "*", "*?", "|"], 3, chars="aA\n", maxlen=2, flags=subsets[:16])
    probes = ["a.b", "^a*", "a*$", "a*?", "(a+)(a*)", "(a+?)(.*)", "[a-f]{2}", "^.$", "(.)\\1", "(?<=^a)b", ".*", "\\w+?\\b", "[^a]", "(?i:a)", "a{2,3}", "a{2}", "(a{1,2}+)(a?)", "(?=a*(.?))", "(?<=(a*))b", "\\R.", "\\N+", "[A-Z]+", "(?:^a|b$)+", "\\Aa|b\\Z", "(?!^b).", "a??b?", "(?>a*?)(a?)", "(a|A)(b|B)", "\\x61\\x0a?", "(?<n>a)\\k<n>", "[\\w]{3}", "(ab){2}", "(a|ab)*?c?", "[^\\n]$", "(?:.|\\n)*?$", "@[`-{]", "é", "(.+?)(.+)", "(.{0,2})(.*)"]
    probes = [p for p in probes if p not in ("(?i:a)", "é")]
    texts = ["", "a", "A", "ab", "aB", "AB", "a\nb", "a\rB", "aa", "aA", "Aa", "aaa", "aAa", "\n", "b\na", "a\n", "\na", "aab", "a\n\nb", "@`", "@[", "`{", "aAaA", "abAB", "aa\naa", "Ab\naB", "f\nG", "ABC", "aabb"]
    defs = []
    combos = list(itertools.product(probes, subsets))
    for p, fs in pick(r, combos, c.n(480)):
        fs = list(fs)
        r.shuffle(fs)
        defs.append(pattern(p, tuple(fs), "view", calls(pick(r, texts, 18)) ))
    defs += placed(c, probes * 3, 110, texts[:18], flags=subsets)
    # repeated flags, flags added one by one or together, flags cleared, flags on expressions
    def fl(fs): return ", ".join("meta::regex_flag::" + f for f in fs)
    for p in probes:
        for _ in range(max(1, int(5 * min(c.scale, 3)))):
            fs = [r.choice(F) for _ in range(r.choice([1, 2, 3, 4]))]
            more = [r.choice(F) for _ in range(r.choice([1, 2, 3]))]
            base = "meta::regex<%s%s>" % (cstr(p), "".join(", meta::regex_flag::" + f for f in fs))
            how = r.choice(["repeat", "add", "addadd", "clear", "clearadd", "xadd", "xclear", "xaddadd"])
            if how == "repeat":
                all_ = fs + fs[::-1]
                e = "std::declval<meta::regex<%s, %s>>()" % (cstr(p), fl(all_))
            elif how == "add": e, all_ = "std::declval<typename %s::template add_flags<%s>>()" % (base, fl(more)), fs + more
            elif how == "addadd": e, all_ = "std::declval<typename %s::template add_flags<%s>::template add_flags<%s>>()" % (base, fl(more[:1]), fl(more)), fs + more
            elif how == "clear": e, all_ = "std::declval<typename %s::clear_flags>()" % base, []
            elif how == "clearadd": e, all_ = "std::declval<typename %s::clear_flags::template add_flags<%s>>()" % (base, fl(more)), more
            elif how == "xadd": e, all_ = "meta::xpr::add_flags<%s>(%s{})" % (fl(more), base), fs + more
            elif how == "xaddadd": e, all_ = "meta::xpr::add_flags<%s>(meta::xpr::add_flags<%s>(%s{}))" % (fl(more), fl(fs[:1]), base), fs + more
            else: e, all_ = "meta::xpr::clear_flags(%s{})" % base, []
            defs.append(described(e, {"pat": list(b(p))}, tuple(all_), "view iter", calls(pick(r, texts, 14)) + iters(pick(r, texts, 3))))
    # single flags on every one-character construct and every quantifier, plus all pairs
    ops = [("k", b"", "")]
    for p in ["a", "Z", "[a-f]", "[^a-f]", ".", "\\w", "\\W", "\\N", "\\R", "\\s", "[^]", "[X-c]", "@", "\\x5b", "[^\\n]", "\\d", "1", "\\xe4", "[.]"]:
        for fs in pick(r, subsets, 6): defs.append(pattern(p, fs, "chars", ops))
    for f in subsets:
        defs += random_defs(c, 5, depth=4, flags=[f], inputs=10, cap=2, ref=0.5, anchor=1, wb=0.3, atomic=0.3, alphabet="aAb\n", chars=[("a", "aA"), ("A", "aA"), ("b", "bB"), (".", "ab\n"), ("\\n", "\n"), ("[a-b]", "abAB"), ("[^a]", "b\n")], **LOOKS)
    c.observe(defs)


# ================================================================================================ C19
USE = """#include <mregex.hpp>
#include <list>
#include <string>
using rx = meta::regex<%s%s>;
int main()
{
    std::string_view sv = "ab";
    std::list<char> const l(sv.begin(), sv.end());
    bool r = rx::match(sv) && rx::match_prefix(sv) && rx::search(sv) && rx::match(l);
    for (auto &&x: rx::tokenize(sv)) r = r && x;
    for (auto &&x: rx::find_all(sv)) r = r && x;
    auto t = rx::tokenizer(sv); auto s = rx::searcher(sv);
    r = r && t.next() && s.next() && rx::match(std::string("ab"));
    return r;
}
"""


@recipe
def C19(c):
    r = c.rng
    c.syntax_model(["a", "[", "]", "-", "{", "}", "2", ",", "1", "(", ")", "\\"], 4 if not c.thorough else 5, emit=False)
    refuse = ["(", ")", "a)", "(a", "[", "[a", "a**", "*a", "+", "?", "a{1", "a{1,", "a{1,2", "a{1+", "a{1,a}", "\\", "\\x", "\\x1", "\\xg1", "(?a)", "(?<>a)", "(?<1a>a)", "(?<a", "(?<a>", "\\k", "\\k<", "\\k<>", "a|*", "(*a)", "(?", "(?=", "(?<", "[z-a]", "[a-\\x60]", "[\\x62-a]", "[9-0]", "[^z-a]", "[a-c-]x{3,2}", "a{2,1}", "a{10,9}", "a{3,2}?", "(?:ab){1,0}", "a{100,99}+", "\\1", "a\\1", "(a)\\2", "\\2(a)", "(a)\\10", "(?:a)\\1", "(?=a)\\1", "(?>a)\\1", "\\k<n>", "(a)\\k<n>", "(?<m>a)\\k<n>", "(?<n>a)\\k<nn>", "(?<nn>a)\\k<n>", "(?<n>a)\\k<N>", "(?<=\\1)a", "(?=\\2)(a)", "(a)(b)(?:c)\\3", "(?<n>a)\\2", "[\\xff-\\x00]", "[a-\\n]", "(?:\\1|a)", "(a|\\2)*", "\\k<n>(?<m>a)", "(?<!\\k<x>)(?<y>a)", "(?:[b-a]|c)", "((a{2,1}))", "(?=a{2,1})", "[]-[]x{2,1}", "\\9", "\\0", "(a)\\0", "(a)\\01", "(a)\\02",
              "(?P<n>a)", "(?#a)", "(?i)a", "a{,2}+*", "a{2}{3}", "a+++", "a???", "^*", "$+", "\\b*", "\\A?", "\\B{2}", "(?:)*", "(?=a)*", "a||b", "()", "(|)", "[\\d-z]", "[a-\\d]", "[\\w-\\d]", "[^]", "[]", "\\k<n>(?<n>a)", "(?<n>a)(?<n>b)", "(?<n>a)(?<n>b)\\k<n>", "(?<a>x)(?<b>y)\\k<b>\\k<a>"]
    # systematic: bounds and ranges around equality, references around the number of groups
    for lo, hi in itertools.product([0, 1, 2, 9, 10, 11, 99, 100], repeat=2):
        if r.random() < 0.45 * c.scale: refuse.append("a{%d,%d}%s" % (lo, hi, r.choice(["", "?", "+"])))
    for lo, hi in itertools.product([0x00, 0x2f, 0x41, 0x5a, 0x61, 0x7f, 0x80, 0xc1, 0xff], repeat=2):
        if r.random() < 0.45 * c.scale: refuse.append("[%s\\x%02x-\\x%02x]" % (r.choice(["", "^", "a"]), lo, hi))
    for n, k in itertools.product([0, 1, 2, 9, 10, 11], [1, 2, 3, 9, 10, 11, 12]):
        if r.random() < 0.6 * c.scale: refuse.append("(a)" * n + r.choice(["\\%d", "(?:\\%d)?", "(?=\\%d)", "b|\\%d", "(?<!\\%d)", "(?:x\\%d)*"]) % k)
    for n, k in itertools.product([0, 1, 3, 10], [1, 2, 4, 10, 11]):
        if r.random() < 0.5 * c.scale: refuse.append("\\%d" % k + "(?:a|(b))" * n)
    # meaningful patterns
    g = corpus.Gen(r, ncap=1, ref=1, nref=1, atomic=1, anchor=1, wb=1, **LOOKS)
    accept = []
    for _ in range(c.n(90)):
        x = g.pattern(r.choice([3, 4, 5, 6]))
        t = x.text()
        if len(t) < 220: accept.append((t, r.choice([(), ("icase",), ("unroll",), ("multiline", "dotall")])))
    accept += [("a" * 120, ()), ("|".join("ab" for _ in range(60)), ()), ("(?:" * 25 + "a" + ")" * 25, ()), ("(" * 15 + "a" + ")*" * 15, ()), ("[" + "".join("%s%s-%s" % (ch, ch, ch) for ch in "abcdefghijklmnop") + "]", ()), ("(a)" * 40 + "\\40", ()), ("a{500}", ()), ("a{0,200}b", ()), ("(?:ab){0,40}", ()), ("(?<%s>a)\\k<%s>" % ("n" * 60, "n" * 60), ()), ("\\x00\\xff", ()), ("a*" * 40, ()), ("(?<=" * 6 + "a" + ")" * 6, ())]
    jobs = [(p, ()) for p in refuse] + accept
    jobs = dedupe((b(p), f) for p, f in jobs)
    work = os.path.join(vlib.Scratch.dir, "c19")
    os.makedirs(work, exist_ok=True)
    flags = ["-std=c++20", "-w", "-fsyntax-only", "-I", os.path.join(vlib.REPO, "include")]
    import subprocess

    def source(p, f):
        args = "".join(", meta::regex_flag::" + x for x in f)
        # list input needs bidirectional iterators only, which all constructs support
        return USE % (cstr(p), args)

    def compiles(i):
        p, f = jobs[i]
        path = os.path.join(work, "t%d.cpp" % i)
        with open(path, "w") as h: h.write(source(p, f))
        for cxx in ("clang++", "g++"):
            try:
                q = subprocess.run([cxx] + flags + [path], capture_output=True, text=True, errors="replace", **vlib.limited(200))
            except subprocess.TimeoutExpired:
                return False, "does not finish"
            if q.returncode == 0: return True, ""
            err = q.stderr
            # a refusal by one compiler is a refusal; what must compile gets a second opinion
            if "static assertion" in err or "constraints not satisfied" in err or "no template named" in err: return False, err
        return False, err
    ok, err = None, None
    sane = os.path.join(work, "sane.cpp")
    with open(sane, "w") as h: h.write(source(b"a", ()))
    if subprocess.run(["clang++"] + flags + [sane], capture_output=True).returncode and subprocess.run(["g++"] + flags + [sane], capture_output=True).returncode:
        raise vlib.Infra("a program that uses a trivial regex does not compile")
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        seen = list(ex.map(compiles, range(len(jobs))))
    trace = os.path.join(vlib.Scratch.dir, "compiles.ndjson")
    with open(trace, "w") as h:
        for i, ((p, f), (ok, _)) in enumerate(zip(jobs, seen)):
            h.write(json.dumps({"ev": "compiles", "pat": list(p), "ok": ok}, separators=(",", ":")) + "\n")
    v = vlib.validate(trace, c.totals)
    c.totals.events += len(jobs)
    c.totals.traces += len(jobs)
    c.totals.notes.append("%d programs compiled, %d of them refused" % (len(jobs), sum(1 for o, _ in seen if not o)))
    if v:
        i = v[0] - 1
        p, f = jobs[i]
        ok2, err2 = compiles(i)
        if ok2 != seen[i][0]: raise vlib.Infra("compilation does not repeat")
        raise Violation("program using pattern %s flags %s %s" % (cstr(p), ",".join(f), "compiles" if ok2 else "does not compile"), v[1], {"program.cpp": source(p, f), "compiler.txt": err2[:20000]})
    # verdicts of the parser trait for the same patterns, and use of what is accepted
    defs = [verdict(p) for p, _ in jobs]
    good = [(p, f) for (p, f), (ok, _) in zip(jobs, seen) if ok and len(p) < 60]
    for p, f in pick(r, good, c.n(60)):
        defs.append(pattern(p, f, "view string list owned iter", calls(["", "a", "ab", "aab"]) + iters(["aab"])))
    c.observe(defs)


# ================================================================================================ C20
# Patterns that keep something while they match: captures, references, lookarounds, committed parts, loops, many groups.
STATEFUL = ["(a|b)*\\1", "(a+)(b+)?\\1", "(?<n>[ab])(?:\\k<n>|c)*", "(?:(a)|(b)|(c))+", "((a)|b)*?c", "(?>a*(b)?)c?", "(?:(a)b?)*+", "(?<=(a)b*)(.)", "(?<!(a))b\\1?",
            "(?=(a*)b)\\1", "a*?(b|c)", "(a{1,3})(a{0,2})b?", "(.)(.)?(.)?\\3\\2\\1", "^(a|b)+$", "\\b(\\w+)\\b", "x?(?:ab|a)(c|bc)", "(a?)*b", "(?:a|(b))(?<=\\1)", "(?:.*)(b)(.*)",
            "(a)(b)(c)(a)(b)(c)\\6\\5?", "[ab]+c?", "abc", "ab|ac|bc", "(?!ab)(.)(?!\\1)", "a{2}|b{2,}?", "$", "^", "(?:)", "\\Bb", "(ab)*(?:a|$)", "[^a]*(a)?"]


@recipe
def C20(c):
    r = c.rng
    small = [(["(a|b)\\1?", "a*?b"], 3, 1, 2), (["(?<=(a))b|a", "(?>a|ab)b?"], 2, 2, 2)]
    large = [(["(a|b)\\1?", "a*?b"], 3, 2, 2), (["(?<=(a))b|a", "(?>a|ab)b?"], 3, 2, 2), (["a|b*+"], 3, 1, 3)]
    for pats, k, maxlen, callers in large if c.thorough else small:
        c.model("MC_Calls", "MC_Calls", dict(pats=[list(b(p)) for p in pats], flags=[], chars=list(b("ab")), maxlen=maxlen, callers=callers, calls=k),
                short=dict(patterns=pats, calls=k, maxlen=maxlen, callers=callers), timeout=1500)
    scripts = c.history_model([("a|ab", "abab"), ("(a)|b?", "abca")], 4)
    kinds = "view string chk chkb mut iter hist"

    def texts(n, extra=(), safe=False):
        # many texts of the same length, so that a place in memory says nothing about what is there
        pool = [x for k in (3, 4, 6) for x in corpus.strings("abc", k, k)]
        long = ["".join(r.choice("ab" if r.random() < 0.5 else "abc") for _ in range(k)) for k in (17, 17, 33, 70)]
        return dedupe(list(extra) + [r.choice(pool) for _ in range(n)] + (pick(r, long, 2) if safe else []))

    def ops(ins):
        return calls(ins) + iters(pick(r, ins, 4)) + [("h", b(r.choice(ins)), r.choice(scripts)) for _ in range(3)] + [(k, b(r.choice(ins)), "ipbdmi") for k in "TS"]

    defs = []
    for p in STATEFUL:
        for f in pick(r, [(), ("icase",), ("unroll",), ("ungreedy",), ("multiline",), ("dotall", "icase")], c.n(2)):
            defs.append(pattern(p, f, kinds, ops(texts(9, ["", "abab", "ABab", "b\nab"], p.count("*") + p.count("+") < 3))))
    g = corpus.Gen(r, ncap=1, ref=1.5, nref=1, atomic=1, anchor=1, wb=0.5, **LOOKS)
    for _ in range(c.n(40)):
        x = g.pattern(4)
        ins = corpus.inputs_for(r, x, alphabet="abc", n=8)
        defs.append(pattern(x.text(), r.choice([(), (), ("icase",), ("unroll",)]), kinds, ops(ins)))
    seed = c.seed * 1000
    c.observe(defs, sessions=[(1, c.n(4), seed + 1), (4, c.n(3), seed + 2), (8, c.n(2), seed + 3)], per_tu=100.0)
    # the same in an optimised program, and with every access of every thread watched
    some = pick(r, defs, c.n(24))
    c.observe(some, sessions=[(1, c.n(3), seed + 4), (8, c.n(4), seed + 5)], extra=("-O2",), per_tu=30.0)
    if vlib.thread_sanitizer_works():
        c.observe(pick(r, defs, c.n(24)), sessions=[(4, c.n(1), seed + 6)], extra=("-fsanitize=thread", "-g0", "-O1"), per_tu=30.0)
    else:
        c.totals.notes.append("the thread sanitizer does not run here")
