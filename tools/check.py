#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import hashlib, json, os, random, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Infra, Scratch, Totals, VERIF, Violation


class Context:
    """What a property's recipe works with."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.totals = Totals()
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.scale = float(os.environ.get("VERIF_SCALE", "6" if self.thorough else "1"))

    def n(self, quick):
        """A number of cases, larger in the thorough tier."""
        return max(1, int(quick * self.scale))

    def model(self, module, cfg, config, timeout=700, short=None, raw=False):
        """Runs TLC on a model; returns the patterns it emitted. The model's own invariants must hold."""
        path = os.path.join(Scratch.dir, "mc%d.json" % len(self.totals.models))
        with open(path, "w") as f:
            json.dump(config, f)
        t0 = time.time()
        cache = os.environ.get("VERIF_MODEL_CACHE")     # for development: models do not depend on the code
        key = cache and os.path.join(cache, hashlib.sha1((module + cfg + json.dumps(config) + vlib.spec_text()).encode()).hexdigest())
        if key and os.path.exists(key):
            out = open(key).read()
        else:
            out, rc = vlib.tlc(module + ".tla", cfg + ".cfg", env={"MC_FILE": path}, workers=vlib.JOBS, heap="8g", timeout=timeout)
            if key:
                with open(key, "w") as f:
                    f.write(out)
        if "Model checking completed. No error has been found." not in out:
            raise Infra("the specification contradicts itself in %s:\n%s" % (module, out[-3000:]))
        gen, dist = vlib.tlc_counts(out)
        self.totals.generated += gen
        self.totals.distinct += dist
        pats = [bytes(json.loads(line[5:-1])) for line in out.splitlines() if line.startswith('"PAT [')]
        pats.sort()
        short = short or dict(config)
        if "tokens" in short:
            short["tokens"] = [bytes(x).decode("latin-1") for x in short["tokens"]]
        self.totals.models.append({"module": module, "invariants": cfg, "config": short, "states": gen, "distinct": dist,
                                   "patterns": len(pats), "wall_s": round(time.time() - t0, 1)})
        return out if raw else pats

    def match_model(self, tokens, k, chars="ab", maxlen=3, flags=((),), lead="", mincaps=0, correct=True):
        return self.model("MC_Match", "MC_Match" if correct else "MC_Gen", dict(
            tokens=[list(vlib.b(t)) for t in tokens], k=k, lead=list(vlib.b(lead)), flags=[list(f) for f in flags],
            chars=list(vlib.b(chars)), maxlen=maxlen, mincaps=mincaps))

    def machine_model(self, pats, n, chars="ab", maxlen=3, flags=((),), limit=4000):
        """Every intermediate state of the search, for a sample of the given patterns and all small inputs."""
        pats = [p for p in pats if len(p) >= 3]
        n = self.n(n)
        if len(pats) > n:
            pats = random.Random("machine/%s/%d" % (self.prop, self.seed)).sample(pats, n)
        pats = [list(vlib.b(p)) for p in pats]
        self.model("MC_Machine", "MC_Machine", dict(pats=pats, flags=[list(f) for f in flags], chars=list(vlib.b(chars)), maxlen=maxlen, limit=limit),
                   short=dict(patterns=len(pats), flags=[list(f) for f in flags], chars=chars, maxlen=maxlen))

    def history_model(self, cases, k, objects=3):
        cs = [dict(pat=list(vlib.b(p)), flags=[], text=list(vlib.b(t))) for p, t in cases]
        out = self.model("MC_History", "MC_History", dict(k=k, objects=objects, cases=cs), raw=True, short=dict(k=k, objects=objects, cases=cases))
        import re
        return sorted(set(re.findall(r'"HIST ([a-zTS0-9=]+)"', out)))

    def syntax_model(self, tokens, k, lead="", emit=True):
        return self.model("MC_Syntax", "MC_Syntax", dict(tokens=[list(vlib.b(t)) for t in tokens], k=k, lead=list(vlib.b(lead)), emit=emit))

    def observe(self, defs, cxx=None, extra=(), per_tu=120.0, prelude="", respell=0.3, vary=0.25, sessions=()):
        r = random.Random("spelling/%s/%d" % (self.prop, self.seed))
        defs = [vlib.respelled(r, d) if r.random() < respell else d for d in defs]
        if respell:
            defs = [vlib.varied(r, d) if r.random() < vary else d for d in defs]
        vlib.Pipeline(self.totals, prelude=prelude, cxx=cxx, extra=extra, sessions=sessions).run(defs, per_tu)


def evidence(ctx, wall, violations, note=None):
    t = ctx.totals
    data = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
        "coverage": {
            "states": t.distinct, "transitions": t.generated, "traces_validated_against_impl": t.traces,
            "events_validated": t.events, "models": t.models, "samples": t.samples or ["none"], "notes": t.notes,
        },
        "assumptions": ["one trace is the recorded behaviour of one regex compiled from /repo's headers",
                        "the specification is the meaning of the property; its own consistency is checked by the listed models"],
        "wall_s": round(wall, 1), "violations": violations,
    }
    if note:
        data["coverage"]["violation"] = note
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(data, f, indent=1)


def main():
    import props
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Context(prop, tier, seed)
    Scratch.make()
    t0 = time.time()
    try:
        props.RECIPES[prop](ctx)
        evidence(ctx, time.time() - t0, 0)
        print("%s holds on everything explored: %d regexes, %d events, %d model states, %.0f s" % (
            prop, ctx.totals.traces, ctx.totals.events, ctx.totals.distinct, time.time() - t0))
        return 0
    except Violation as v:
        d = vlib.write_replay(prop, v)
        evidence(ctx, time.time() - t0, 1, {"what": v.what, "detail": v.detail})
        print("%s\n%s" % (v.what, v.detail[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, d))
        return 1
    except Infra as e:
        print("ERROR of the check itself: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        Scratch.drop()


if __name__ == "__main__":
    sys.exit(main())
