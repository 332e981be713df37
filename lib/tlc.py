"""Runs TLC and turns the transitions it explores into a labelled graph."""
import json, os, re, subprocess, tempfile, shutil, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"


class SpecError(Exception):
    """TLC rejected the specification (a broken invariant of the model, or a TLC error)."""


def fmt(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(fmt(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(fmt(x) for x in v) + ">>"
    raise TypeError(v)


TOK = re.compile(r'<<|>>|[\[\]{},]|"(?:[^"\\\\]|\\\\.)*"|[^<>\[\]{},"]+|[<>]')
CLOSE = {"[": "]", "{": "}", "<<": ">>"}


def canon(s):
    """Canonical text of a printed TLA+ value: TLC may print the fields of equal records in different orders."""
    toks = TOK.findall(s)
    pos = 0

    def items(end):
        nonlocal pos
        res, cur = [], []
        while True:
            t = toks[pos] if pos < len(toks) else None
            if t is None and end is None:
                res.append("".join(cur).strip())
                return res
            pos += 1
            if t == end:
                x = "".join(cur).strip()
                if x or res:
                    res.append(x)
                return res
            if t == ",":
                res.append("".join(cur).strip())
                cur = []
            elif t in CLOSE:
                inner = items(CLOSE[t])
                if t != "<<":
                    inner.sort()
                cur.append(t + ",".join(inner) + CLOSE[t])
            else:
                cur.append(t)
    return ",".join(items(None))


class Graph:
    def __init__(self):
        self.raw = {}
        self.nodes = {}       # raw state text -> id
        self.init = {}        # id -> obs
        self.labels = []      # label dicts
        self.lab_id = {}
        self.out = []         # id -> {label id: [(ev, dst, obs)]}
        self.ngen = 0
        self.nedges = 0
        self.distinct = 0
        self.depth = 0
        self.act = {}

    def node(self, s):
        i = self.raw.get(s)
        if i is None:
            c = canon(s)
            i = self.nodes.get(c)
            if i is None:
                i = self.nodes[c] = len(self.out)
                self.out.append({})
            self.raw[s] = i
        return i


def unesc(s):
    if "\\" in s:
        s = re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s)
    return s


def run(spec, consts, invariants=(), properties=(), emit=True, workers=4, timeout=600, extra_cfg="",
        simulate=None, seed=1, spec_name="Spec", heap="6g"):
    """Model-checks specs/<spec>.tla with the given constants. Returns a Graph."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        cfg = [f"SPECIFICATION {spec_name}", "CHECK_DEADLOCK FALSE"]
        if emit:
            cfg += ["VIEW vw", "ACTION_CONSTRAINT Emit", "INVARIANT Begin"]
        for k, v in consts.items():
            cfg.append(f"CONSTANT {k} = {fmt(v)}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if extra_cfg:
            cfg.append(extra_cfg)
        open(f"{d}/m.cfg", "w").write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss32m", "-cp", f"{JAR}:{DEPS}", "tlc2.TLC",
               "-workers", str(workers), "-metadir", f"{d}/meta", "-config", f"{d}/m.cfg", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(seed)]
        cmd.append(f"{VERIF}/specs/{spec}.tla")
        g = Graph()
        tail = []
        p = subprocess.Popen(cmd, cwd=f"{VERIF}/specs", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        import threading
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        evc, obc = {}, {}
        try:
            for line in p.stdout:
                if line.startswith('"E@@'):
                    f, t, l, e, o = unesc(line.rstrip("\n")[4:-1]).split("@@")
                    a, b = g.node(f), g.node(t)
                    li = g.lab_id.get(l)
                    if li is None:
                        li = g.lab_id[l] = len(g.labels)
                        g.labels.append(json.loads(l))
                    ev = evc.get(e)
                    if ev is None:
                        ev = evc[e] = json.loads(e)
                    ob = obc.get(o)
                    if ob is None:
                        ob = obc[o] = json.loads(o)
                    lst = g.out[a].setdefault(li, [])
                    item = (ev, b, ob)
                    if not any(x[1] == b and x[0] is ev for x in lst):
                        lst.append(item)
                        g.nedges += 1
                    nm = g.labels[li].get("a", "?")
                    g.act[nm] = g.act.get(nm, 0) + 1
                elif line.startswith('"I@@'):
                    s, o = unesc(line.rstrip("\n")[4:-1]).split("@@")
                    g.init[g.node(s)] = json.loads(o)
                else:
                    tail.append(line)
                    if len(tail) > 400:
                        del tail[:200]
                    m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", line)
                    if m:
                        g.ngen, g.distinct = int(m.group(1)), int(m.group(2))
                    m = re.match(r"The depth of the complete state graph search is (\d+)", line)
                    if m:
                        g.depth = int(m.group(1))
            rc = p.wait()
        finally:
            timer.cancel()
        g.tail = "".join(tail[-60:])
        if rc != 0:
            raise SpecError(f"TLC exit {rc} on {spec} {consts}\n" + g.tail)
        if emit and not simulate and g.distinct and g.distinct != len(g.out):
            raise SpecError(f"{spec}: {len(g.out)} states emitted, TLC found {g.distinct}")
        return g
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cover(g, rng, maxlen=40, hop=400):
    """Paths (init node, [(label id, intended dst)]) covering every (state, label) of the graph."""
    # BFS tree from the initial states
    parent = {}
    order = []
    for i in g.init:
        parent[i] = None
        order.append(i)
    k = 0
    while k < len(order):
        n = order[k]
        k += 1
        for li, lst in g.out[n].items():
            for ev, dst, ob in lst:
                if dst not in parent:
                    parent[dst] = (n, li)
                    order.append(dst)
    todo = {}
    for n in order:
        if g.out[n]:
            ls = [(li, d) for li, lst in g.out[n].items() for (_, d, _) in lst]
            rng.shuffle(ls)
            todo[n] = ls
    paths = []

    def prefix(n):
        p = []
        while parent[n] is not None:
            m, li = parent[n]
            p.append((li, n))
            n = m
        p.reverse()
        return n, p

    def nearest(n):
        seen = {n: None}
        q = [n]
        i = 0
        while i < len(q) and len(q) < hop:
            x = q[i]
            i += 1
            for li, lst in g.out[x].items():
                for ev, dst, ob in lst:
                    if dst in seen:
                        continue
                    seen[dst] = (x, li)
                    if todo.get(dst):
                        p = []
                        y = dst
                        while seen[y] is not None:
                            z, l = seen[y]
                            p.append((l, y))
                            y = z
                        p.reverse()
                        return p
                    q.append(dst)
        return None

    pending = [n for n in reversed(order) if todo.get(n)]  # deepest first: long paths cover more
    for n in pending:
        while todo.get(n):
            start, p = prefix(n)
            # anything on the prefix counts as covered
            cur = start
            for li, dst in p:
                lst = todo.get(cur)
                if lst and (li, dst) in lst:
                    lst.remove((li, dst))
                cur = dst
            limit = max(maxlen, len(p) + 8)
            while len(p) < limit:
                lst = todo.get(cur)
                if lst:
                    li, dst = lst.pop()
                    p.append((li, dst))
                    cur = dst
                    continue
                h = nearest(cur)
                if not h or len(p) + len(h) >= limit:
                    break
                for li, dst in h:
                    p.append((li, dst))
                    cur = dst
            else:
                pass
            if not p:
                break
            paths.append((start, p))
    return paths


def walks(g, rng, n, length):
    inits = list(g.init)
    res = []
    for _ in range(n):
        cur = s = rng.choice(inits)
        p = []
        for _ in range(length):
            if not g.out[cur]:
                break
            li = rng.choice(list(g.out[cur]))
            ev, dst, ob = rng.choice(g.out[cur][li])
            p.append((li, dst))
            cur = dst
        if p:
            res.append((s, p))
    return res
