"""Runs the check of one property: model-checks its specification(s) with TLC, replays the explored
behaviours into the real code, reports and records what was covered."""
import importlib, json, os, random, sys, time, traceback, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
import build, tlc, replay  # noqa: E402

GROUPS = ["core_task", "core_gen", "core_signal", "core_io", "core_thread", "net", "ws", "misc"]
NA = {}  # properties deliberately not claimed: id -> reason


def load():
    checks = {}
    for g in GROUPS:
        if os.path.exists(os.path.join(VERIF, "checks", g + ".py")):
            checks.update(importlib.import_module(g).CHECKS)
    return checks


def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.jsonl")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("property") == pid:
                res.append(d)
    return res


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(seed)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_driven": 0,
                    "distinct_traces": 0, "labels_total": 0, "spec_runs": [], "samples": []}
        self.violations = []
        self.known = []
        self.t0 = time.time()

    def violation(self, what, detail):
        d = os.path.join(VERIF, "build", "replays")
        os.makedirs(d, exist_ok=True)
        detail = dict(detail, property=self.pid, what=what)
        blob = json.dumps(detail, indent=1, sort_keys=True, default=str)
        name = f"{self.pid}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json"
        path = os.path.join(d, name)
        with open(path, "w") as f:
            f.write(blob)
        self.violations.append(path)
        print(f"VIOLATION property={self.pid} replay={path}")
        print("  " + what)


def describe(rej):
    lab = " ; ".join(json.dumps({k: v for k, v in l.items()}, separators=(",", ":")) for l in rej["labels"][-6:])
    got = rej.get("got", rej.get("answer"))
    s = f"{rej['kind']}: init={json.dumps(rej['init'])} last steps: {lab}"
    if got is not None:
        s += f" | observed {json.dumps(got)[:600]}"
    if rej.get("expected"):
        s += f" | specification allows {json.dumps(rej['expected'])[:600]}"
    if rej.get("stderr"):
        s += " | " + rej["stderr"].strip()[:1500].replace("\n", "\n    ")
    return s


def prioritize(g, ps, inits):
    """Puts behaviours first which together show every label with every outcome on every kind of object,
    then every pair and every triple of labels in a row: what matters when the time runs out before the end."""
    def feats(k):
        cur, p = ps[k]
        ik = json.dumps(inits[k], sort_keys=True)
        f = ([], [], [])
        a = b = None
        for li, dst in p:
            ev = next((id(e) for e, d, _ in g.out[cur].get(li, ()) if d == dst), 0)
            f[0].append((ik, li, ev))
            f[1].append((b, li, ev))
            f[2].append((a, b, li))
            a, b, cur = b, li, dst
        return f
    fs = [feats(k) for k in range(len(ps))]
    order, rest = [], list(range(len(ps)))
    for lvl in range(3):
        seen = {x for k in order for x in fs[k][lvl]}
        later = []
        for k in rest:
            new = [x for x in fs[k][lvl] if x not in seen]
            if new:
                seen.update(new)
                order.append(k)
            else:
                later.append(k)
        rest = later
    order += rest
    return [ps[k] for k in order], [inits[k] for k in order]


def do_run(ctx, chk, r):
    binary = build.build(*chk["driver"], **chk.get("build", {}))
    consts = r["consts"]
    t = time.time()
    g = tlc.run(r["spec"], consts, invariants=r.get("inv", ()), properties=r.get("props", ()),
                workers=r.get("workers", 6), timeout=r.get("tlc_timeout", 600),
                simulate=r.get("simulate"), seed=ctx.seed, extra_cfg=r.get("cfg", ""), heap=r.get("heap", "6g"))
    t_tlc = time.time() - t
    rng = random.Random(ctx.seed * 7919 + len(ctx.cov["spec_runs"]))
    paths = []
    if r.get("mode", "cover") == "cover":
        paths = tlc.cover(g, rng, maxlen=r.get("maxlen", 40))
    ncover = len(paths)
    n, ln = r.get("walks", (0, 0))
    if n:
        paths += tlc.walks(g, rng, n, ln)
    if r.get("shuffle", True):
        rng.shuffle(paths)
    base = r["inits"]
    inits, ps = [], []
    passes = r.get("passes", 1)
    for k in range(passes):
        for i, p in enumerate(paths):
            init = base[(i + k + ctx.seed) % len(base)]
            # every third behaviour: the coroutines run an event loop of their own as they are resumed, which in
            # specifications that leave the order within a step open makes no difference
            if (i + k) % 3 == 2 and r.get("nest", not r.get("ordered", True)):
                init = dict(init, nest=True)
            inits.append(init)
            ps.append(p)
    ps, inits = prioritize(g, ps, inits)
    t = time.time()
    n, steps, distinct, bad = replay.replay(g, ps, inits, binary, ordered=r.get("ordered", True), env=chk.get("env"),
                                            jobs=r.get("jobs", 8), budget=r.get("budget", 30), seed=ctx.seed)
    t_rep = time.time() - t
    states = len(g.out)
    c = ctx.cov
    c["states"] += max(states, g.distinct)
    c["transitions"] += g.nedges
    c["traces_validated_against_impl"] += n
    c["steps_driven"] += steps
    c["distinct_traces"] += distinct
    c["spec_runs"].append({
        "spec": r["spec"], "constants": {k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in consts.items()},
        "invariants": list(r.get("inv", ())), "states": states, "transitions": g.nedges, "depth": g.depth,
        "actions": g.act, "paths": len(ps), "paths_replayed": n, "cover_paths": ncover * passes,
        "replay_complete": n >= len(ps), "steps": steps, "tlc_s": round(t_tlc, 1), "replay_s": round(t_rep, 1)})
    if ps:
        k = rng.randrange(len(ps))
        c["samples"].append({"spec": r["spec"], "init": inits[k], "behaviour": [g.labels[l] for l, _ in ps[k][1]][:40]})
    if not n:
        raise RuntimeError("no behaviour was replayed")
    return g, ps, inits, binary, bad


def confirm(chk, g, ps, inits, binary, bad, r):
    """Re-runs each rejection in a fresh driver; keeps those that reproduce."""
    res = []
    for k, rej in bad[:6]:
        for _ in range(3):
            d = replay.Driver(binary, chk.get("env"))
            try:
                x = replay.run_path(d, g, ps[k][0], ps[k][1], inits[k], r.get("ordered", True))
            finally:
                d.kill()
            if x is not None:
                res.append(x)
                break
        else:
            print(f"note: a rejection did not reproduce and is not reported: {describe(rej)[:700]}", file=sys.stderr)
    return res


def matches_known(rej, kf):
    """A known finding names the history by its label sequence suffix/kind."""
    m = kf.get("match")
    if not m:
        return False
    if "kind" in m and m["kind"] != rej["kind"]:
        return False
    labs = [l.get("a") for l in rej["labels"]]
    if "suffix" in m and labs[-len(m["suffix"]):] != m["suffix"]:
        return False
    if "stderr" in m and m["stderr"] not in rej.get("stderr", ""):
        return False
    return True


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = load()[pid]
    ctx = Ctx(pid, tier, seed)
    rc = 0
    try:
        runs = chk["runs"](tier) if callable(chk["runs"]) else chk["runs"][tier]
        for r in runs:
            if "fn" in r:
                r["fn"](ctx, chk, r)
            else:
                g, ps, inits, binary, bad = do_run(ctx, chk, r)
                if bad:
                    seen = set()
                    for rej in confirm(chk, g, ps, inits, binary, bad, r):
                        kf = next((k for k in known_findings(pid) if matches_known(rej, k)), None)
                        if kf:
                            if kf["what"] not in ctx.known:
                                ctx.known.append(kf["what"])
                            continue
                        key = json.dumps([rej["kind"], rej["labels"][-1:] , rej.get("got", {}).get("e") if isinstance(rej.get("got"), dict) else None])
                        if key in seen:
                            continue
                        seen.add(key)
                        ctx.violation(describe(rej), dict(rej, spec=r["spec"], driver=chk["driver"][0], constants=str(r["consts"])))
            if ctx.violations:
                rc = 1
                break
        for k in known_findings(pid):
            if k.get("always") and k["what"] not in ctx.known:
                ctx.known.append(k["what"])
        for w in ctx.known:
            print(f"KNOWN-FINDING: property={pid} {w}")
    except (build.BuildError, tlc.SpecError) as e:
        mine = chk.get("header")
        errs = [l for l in str(e).splitlines() if mine and f"{mine}:" in l and " error: " in l]
        if errs:
            # the property's own macros do not compile when used
            ctx.violation("does not compile: " + errs[0], {"kind": "compile", "errors": errs})
        print(f"error: {type(e).__name__}: {e}", file=sys.stderr)
        rc = 1 if errs else 2
    except Exception:
        traceback.print_exc()
        rc = 2
    ctx.cov["samples"] = ctx.cov["samples"][:4]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"),
          "coverage": ctx.cov, "assumptions": chk.get("assumptions", []) + COMMON,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if rc == 0:
        c = ctx.cov
        print(f"{pid} {tier}: ok; {c['states']} states, {c['transitions']} transitions, "
              f"{c['traces_validated_against_impl']} behaviours replayed ({c['steps_driven']} steps"
              f"{', complete' if all(x.get('replay_complete', True) for x in c['spec_runs']) else ', partial'}), "
              f"{ev['wall_s']}s")
    return rc


COMMON = [
    "TLC and its CommunityModules evaluate the specification correctly; g++ 13 and Qt 6.4.2 as installed.",
    "Conformance is decided for the behaviours replayed; the exhaustive part is exhaustive within the constants listed in spec_runs.",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
