"""Patterns and inputs to observe. Nothing here knows what a right answer is.

Random patterns are built as trees that can also produce texts they are likely to match, so that long and deep patterns
get inputs that reach far into them. Systematic families are products of small parts.
"""
import itertools, random

Q_ALL = ["*", "+", "?", "{2}", "{0}", "{1}", "{3}", "{2,}", "{0,}", "{1,}", "{1,2}", "{0,2}", "{0,1}", "{2,4}", "{1,3}", "{3,5}"]
MODES = ["", "?", "+"]


def bounds(q):
    if q == "*": return 0, None
    if q == "+": return 1, None
    if q == "?": return 0, 1
    q = q[1:-1]
    if "," not in q: return int(q), int(q)
    lo, hi = q.split(",")
    return int(lo), int(hi) if hi else None


class Node:
    height = 0      # nesting of unbounded repetitions
    def text(self): raise NotImplementedError
    def sample(self, r, env): raise NotImplementedError
    prec = 3        # 3 atom, 2 quantified, 1 sequence, 0 choice
    def at(self, prec):
        t = self.text()
        return t if self.prec >= prec else "(?:" + t + ")"


class Chars(Node):
    def __init__(self, text, chars): self.t, self.chars = text, chars
    def text(self): return self.t
    def sample(self, r, env): return r.choice(self.chars) if self.chars else ""


class Zero(Node):
    def __init__(self, text, prec=3, near=""): self.t, self.prec, self.near = text, prec, near
    def text(self): return self.t
    def sample(self, r, env): return ""


class SeqNode(Node):
    prec = 1
    def __init__(self, xs): self.xs = xs; self.height = max(x.height for x in xs)
    def text(self):
        out = ""
        for x in self.xs:
            t = x.at(2)
            # keep a reference from swallowing a following digit
            if out and out[-1].isdigit() and t[0].isdigit(): out += "(?:" + t + ")"
            else: out += t
        return out
    def sample(self, r, env): return "".join(x.sample(r, env) for x in self.xs)


class AltNode(Node):
    prec = 0
    def __init__(self, xs): self.xs = xs; self.height = max(x.height for x in xs)
    def text(self): return "|".join(x.at(1) for x in self.xs)
    def sample(self, r, env): return r.choice(self.xs).sample(r, env)


class RepNode(Node):
    prec = 2
    def __init__(self, x, q, mode):
        self.x, self.q, self.mode = x, q, mode
        self.lo, self.hi = bounds(q)
        self.height = x.height + (1 if self.hi is None or self.hi > 3 else 0)
    def text(self):
        t = self.x.at(3)
        if t in ("^", "$", "\\b", "\\B", "\\A", "\\Z"): t = "(?:" + t + ")"
        return t + self.q + self.mode
    def sample(self, r, env):
        hi = self.lo + 3 if self.hi is None else self.hi
        n = r.randint(self.lo, hi) if r.random() < 0.8 else self.lo
        return "".join(self.x.sample(r, env) for _ in range(n))


class CapNode(Node):
    def __init__(self, gid, name, x): self.gid, self.name, self.x = gid, name, x; self.height = x.height
    def text(self):
        t = self.x.text()
        return "(?<%s>%s)" % (self.name, t) if self.name else "(" + t + ")"
    def sample(self, r, env):
        s = self.x.sample(r, env)
        env[self.gid] = s
        return s


class RefNode(Node):
    def __init__(self, gid, name): self.gid, self.name = gid, name
    def text(self): return "\\k<%s>" % self.name if self.name else "\\%d" % self.gid
    def sample(self, r, env): return env.get(self.gid, "")


class WrapNode(Node):
    """Atomic groups and lookarounds."""
    def __init__(self, open_, x, zero): self.o, self.x, self.zero = open_, x, zero; self.height = x.height
    def text(self): return self.o + self.x.text() + ")"
    def sample(self, r, env):
        if not self.zero: return self.x.sample(r, env)
        e2 = dict(env)
        s = self.x.sample(r, e2)
        if self.o in ("(?=", "(?<="): env.update(e2)
        # half of the time provide what a positive lookbehind or lookahead wants
        return s if self.o in ("(?=", "(?<=") and r.random() < 0.3 else ""


class Gen:
    """Random patterns. Weights select the kinds of nodes."""
    DEFAULT = dict(char=6, seq=5, alt=3, rep=5, cap=2, ncap=0.3, ref=0, nref=0, atomic=0, look=0, nlook=0, behind=0, nbehind=0,
                   anchor=0, wb=0, empty=0.1)

    def __init__(self, rng, chars=None, quants=None, modes=None, max_height=2, **weights):
        self.r = rng
        self.w = dict(self.DEFAULT)
        self.w.update(weights)
        self.chars = chars or [("a", "a"), ("b", "b"), ("c", "c"), (".", "abc"), ("[ab]", "ab"), ("[^a]", "bc"), ("[a-c]", "abc")]
        self.quants = quants or ["*", "+", "?", "{2}", "{1,2}", "{2,}", "{0,2}", "{1,3}", "{3}", "{0}", "{2,3}"]
        self.modes = modes or ["", "", "?", "+"]
        self.max_height = max_height
        self.anchors = ["^", "$", "\\A", "\\Z"]

    def pattern(self, depth=4):
        self.caps = []
        return SeqNode([self.node(depth - 1, False) for _ in range(self.r.choice([1, 2, 2, 3, 3, 4]))])

    def leaf(self):
        t, c = self.r.choice(self.chars)
        return Chars(t, c)

    def node(self, d, inloop):
        r = self.r
        if d <= 0:
            return self.leaf()
        kinds = [k for k in self.w if self.w[k] > 0 and not (k == "ref" and not self.caps) and not (k == "nref" and not any(n for _, n in self.caps))]
        k = r.choices(kinds, [self.w[x] for x in kinds])[0]
        if k == "char": return self.leaf()
        if k == "seq": return SeqNode([self.node(d - 1, inloop) for _ in range(r.choice([2, 2, 3, 3, 4]))])
        if k == "alt": return AltNode([self.node(d - 1, inloop) for _ in range(r.choice([2, 2, 2, 3, 4]))])
        if k == "rep":
            x = self.node(d - 1, True)
            q = r.choice(self.quants)
            if x.height >= self.max_height: q = r.choice(["?", "{2}", "{1,2}", "{0,2}"])
            return RepNode(x, q, r.choice(self.modes))
        if k in ("cap", "ncap"):
            gid = len(self.caps) + 1
            name = "n%d" % gid if k == "ncap" else None
            self.caps.append((gid, name))
            return CapNode(gid, name, self.node(d - 1, inloop))
        if k == "ref":
            gid, _ = r.choice(self.caps)
            return RefNode(gid, None)
        if k == "nref":
            gid, name = r.choice([c for c in self.caps if c[1]])
            return RefNode(gid, name)
        if k == "atomic": return WrapNode("(?>", self.node(d - 1, inloop), False)
        if k == "look": return WrapNode("(?=", self.node(d - 1, inloop), True)
        if k == "nlook": return WrapNode("(?!", self.node(d - 1, inloop), True)
        if k == "behind": return WrapNode("(?<=", self.node(d - 1, inloop), True)
        if k == "nbehind": return WrapNode("(?<!", self.node(d - 1, inloop), True)
        if k == "anchor": return Zero(r.choice(self.anchors), 2)
        if k == "wb": return Zero(r.choice(["\\b", "\\B"]), 2)
        return Zero("()" if False else "(?:)", 3)


# ------------------------------------------------------------------------------------------------- cost of an input
# An estimate of the work a backtracking matcher has to do, so that inputs on which it explodes can be left out. Only the
# amount of work is used: what the estimate believes to match is never compared with anything.
class TooCostly(Exception):
    pass


class Meter:
    def __init__(self, limit):
        self.left = limit

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise TooCostly()


_leaf = {}


def leaf_accepts(text, c):
    key = (text, c)
    if key not in _leaf:
        import re, warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                _leaf[key] = re.fullmatch(text.encode("latin-1"), c.encode("latin-1"), re.S | re.I) is not None
            except re.error:
                _leaf[key] = True
    return _leaf[key]


def walk(x, s, i, env, k, m):
    m.tick()
    if isinstance(x, Chars):
        return i < len(s) and (s[i].lower() in x.chars.lower() or leaf_accepts(x.t, s[i])) and k(i + 1)
    if isinstance(x, Zero):
        return k(i)
    if isinstance(x, SeqNode):
        def go(n, j):
            return k(j) if n == len(x.xs) else walk(x.xs[n], s, j, env, lambda e: go(n + 1, e), m)
        return go(0, i)
    if isinstance(x, AltNode):
        return any(walk(y, s, i, env, k, m) for y in x.xs)
    if isinstance(x, RepNode):
        if x.mode == "+":
            n = 0
            while x.hi is None or n < x.hi:
                end = []
                if not walk(x.x, s, i, env, lambda e: (end.append(e), True)[1], m):
                    break
                n += 1
                if end[0] == i and n >= x.lo:
                    break
                i = end[0]
            return n >= x.lo and k(i)

        def more(n, j):
            m.tick()
            if n < x.lo:
                return walk(x.x, s, j, env, lambda e: more(n + 1, e), m)
            def again():
                return (x.hi is None or n < x.hi) and walk(x.x, s, j, env, lambda e: e != j and more(n + 1, e), m)
            return k(j) or again() if x.mode == "?" else again() or k(j)
        return more(0, i)
    if isinstance(x, CapNode):
        def done(e):
            old = env.get(x.gid)
            env[x.gid] = s[i:e]
            if k(e):
                return True
            env[x.gid] = old
            return False
        return walk(x.x, s, i, env, done, m)
    if isinstance(x, RefNode):
        t = env.get(x.gid) or ""
        m.left -= len(t)
        return s.startswith(t, i) and k(i + len(t))
    if x.o in ("(?>",):
        end = []
        return walk(x.x, s, i, env, lambda e: (end.append(e), True)[1], m) and k(end[0])
    if x.o in ("(?=", "(?!"):
        r = walk(x.x, s, i, env, lambda e: True, m)
        return (r == (x.o == "(?=")) and k(i)
    r = any(walk(x.x, s, j, env, lambda e: e == i, m) for j in range(i, -1, -1))
    return (r == (x.o == "(?<=")) and k(i)


def affordable(node, s, limit=1500):
    """Whether all methods together take less than about the given number of steps. Failing at the very end is assumed."""
    import sys
    sys.setrecursionlimit(20000)
    m = Meter(limit)
    try:
        for i in range(len(s) + 1):
            walk(node, s, i, {}, lambda e: True, m)
        walk(node, s, 0, {}, lambda e: e == len(s), m)
        walk(node, s, 0, {}, lambda e: False, m)
    except (TooCostly, RecursionError):
        return False
    return True


def mutate(r, s, alphabet):
    s = list(s)
    for _ in range(r.choice([1, 1, 2])):
        k = r.random()
        if k < 0.3 and s: del s[r.randrange(len(s))]
        elif k < 0.6: s.insert(r.randint(0, len(s)), r.choice(alphabet))
        elif k < 0.8 and s: s[r.randrange(len(s))] = r.choice(alphabet)
        elif s: s = s[:r.randint(0, len(s))]
    return "".join(s)


def inputs_for(r, node, alphabet="abc", n=8, base=(), limit=None):
    """Texts for a random pattern: samples, mutated samples, samples in context, and short random strings."""
    cap = limit or 24
    out = list(base)
    for _ in range(n):
        s = node.sample(r, {})
        k = r.random()
        if k < 0.25: s = mutate(r, s, alphabet)
        elif k < 0.4: s = "".join(r.choice(alphabet) for _ in range(r.randint(1, 3))) + s
        elif k < 0.5: s = s + r.choice(alphabet)
        elif k < 0.6: s = s + node.sample(r, {})
        out.append(s[:cap])
    for _ in range(2):
        out.append("".join(r.choice(alphabet) for _ in range(r.randint(0, min(cap, 6)))))
    seen = []
    for s in out:
        while s and not affordable(node, s): s = s[:len(s) * 2 // 3]
        if s not in seen: seen.append(s)
    return seen


def strings(alphabet, maxlen, minlen=0):
    return ["".join(t) for n in range(minlen, maxlen + 1) for t in itertools.product(alphabet, repeat=n)]


def family(parts):
    """All ways to fill a product of parts, as strings."""
    return ["".join(t) for t in itertools.product(*parts)]
