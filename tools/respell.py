"""Other spellings of a pattern: more of the syntax gets exercised, in all surroundings, without knowing what it means.

The result is only another pattern to observe. Nothing relies on it being equivalent to the original.
"""


def tokens(t):
    """Splits a pattern into (kind, text): open, close, bar, quant, set, esc, lit, other."""
    out, i, n = [], 0, len(t)
    while i < n:
        ch = t[i]
        if ch == "\\":
            j = i + 2
            kind = "esc"
            if t[i + 1:i + 2] == "x": j = i + 4
            elif t[i + 1:i + 2] == "k" and t[i + 2:i + 3] == "<":
                j = t.find(">", i) + 1 or n
                kind = "nref"
            elif t[i + 1:i + 2].isdigit() and t[i + 1:i + 2] != "0":
                while j < n and t[j].isdigit(): j += 1
                kind = "ref"
        elif ch == "[":
            j = i + 1
            if t[j:j + 1] == "^": j += 1
            while j < n and t[j] != "]": j += 2 if t[j] == "\\" else 1
            j, kind = j + 1, "set"
        elif ch == "(":
            j, kind = i + 1, "open"
            for head in ("(?:", "(?=", "(?!", "(?>", "(?<=", "(?<!"):
                if t.startswith(head, i): j = i + len(head)
            if t.startswith("(?<", i) and j == i + 1: j = t.find(">", i) + 1 or n
        elif ch == ")": j, kind = i + 1, "close"
        elif ch == "|": j, kind = i + 1, "bar"
        elif ch in "*+?": j, kind = i + 1, "quant"
        elif ch == "{":
            j = t.find("}", i) + 1
            body = t[i + 1:j - 1] if j else ""
            ok = body[:1].isdigit() and all(c.isdigit() or c == "," for c in body) and body.count(",") < 2
            kind = "quant" if ok else "lit"
            j = j if ok else i + 1
        elif ch in "^$.": j, kind = i + 1, "other"
        else: j, kind = i + 1, "lit"
        out.append((kind, t[i:j]))
        i = j
    return out


LONG = {"*": "{0,}", "+": "{1,}", "?": "{0,1}"}
SHORT = {v: k for k, v in LONG.items()}


def respell(r, t):
    """Another spelling of t, chosen with r."""
    toks = tokens(t)
    has_names = any(k == "nref" or k == "open" and x.startswith("(?<") and x[3:4] not in "=!" for k, x in toks)
    p_name = 0 if has_names else r.choice([0, 0.4, 1])
    p_char = r.choice([0, 0, 0.3])
    p_quant = r.choice([0, 0.5])
    p_wrap = r.choice([0, 0, 0.3])
    out, groups, prev_quant, named = [], 0, False, {}
    p_ref = r.choice([0, 0.5, 1])
    for i, (k, x) in enumerate(toks):
        nxt = toks[i + 1] if i + 1 < len(toks) else ("", "")
        if k == "open" and x == "(":
            groups += 1
            if r.random() < p_name:
                named[groups] = "%s%d" % (r.choice(["g", "name_", "X"]), groups)
                x = "(?<%s>" % named[groups]
        elif k == "ref" and int(x[1:]) in named and r.random() < p_ref:
            x = "\\k<%s>" % named[int(x[1:])]
        elif k == "lit" and x not in "{}]-," and not x.isdigit() and r.random() < p_char:
            x = r.choice(["\\x%02x" % ord(x), "[%s]" % x, "(?:%s)" % x, "[%s%s]" % (x, x), "[%s-%s]" % (x, x)]) if x.isalnum() else "\\x%02x" % ord(x)
        elif k in ("set", "lit", "esc", "ref") and x not in ("{", "}", "\\b", "\\B", "\\A", "\\Z") and r.random() < p_wrap and nxt[0] == "quant":
            x = "(?:" + x + ")"
        elif k == "quant" and not prev_quant and r.random() < p_quant:
            if x in LONG: x = LONG[x]
            elif x in SHORT: x = SHORT[x]
            elif "," not in x: x = "{%s,%s}" % (x[1:-1], x[1:-1])
        prev_quant = k == "quant"
        out.append(x)
    return "".join(out)
