"""Replays behaviours of a specification into a conformance driver and checks what it observes."""
import json, os, subprocess, select, time, multiprocessing as mp, random, shutil, tempfile, signal

ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
        "detect_stack_use_after_return=0:handle_segv=1:max_uar_stack_size_log=16:quarantine_size_mb=8:max_free_fill_size=4096:free_fill_byte=219")


class DriverDied(Exception):
    pass


class Driver:
    def __init__(self, binary, env=None, args=()):
        self.errf = tempfile.TemporaryFile()
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": ASAN, "QT_QPA_PLATFORM": "offscreen", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
                  "QT_LOGGING_RULES": "", "MALLOC_ARENA_MAX": "2"})
        e.pop("DISPLAY", None)
        e.update(env or {})
        self.p = subprocess.Popen([binary, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=e)
        self.buf = b""

    def send(self, lines):
        try:
            self.p.stdin.write(("\n".join(lines) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            raise DriverDied("driver is gone")

    def recv(self, timeout=60):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                raise DriverDied("no answer (hang)")
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b:
                raise DriverDied("driver exited")
            self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)

    def stderr_tail(self, n=6000):
        self.errf.flush()
        size = os.fstat(self.errf.fileno()).st_size
        return os.pread(self.errf.fileno(), n, max(0, size - n)).decode(errors="replace") if size <= n else \
            os.pread(self.errf.fileno(), 4000, self.errpos).decode(errors="replace")

    errpos = 0

    def mark(self):
        self.errpos = os.fstat(self.errf.fileno()).st_size

    def errtext(self, n=5000):
        size = os.fstat(self.errf.fileno()).st_size
        return os.pread(self.errf.fileno(), n, self.errpos).decode(errors="replace") if size > self.errpos else ""

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass
        for f in (self.p.stdin, self.p.stdout, self.errf):
            try:
                f.close()
            except Exception:
                pass


def ev_match(spec, impl, init, ordered):
    if len(spec) != len(impl):
        return False
    if ordered:
        return all(one_match(a, b, init) for a, b in zip(spec, impl))
    left = list(impl)
    for a in spec:
        for i, b in enumerate(left):
            if one_match(a, b, init):
                del left[i]
                break
        else:
            return False
    return True


def one_match(a, b, init):
    """Spec value a against observed value b. In a spec record, key 'q_any' lists keys not compared,
    and other keys starting with 'q_' are spec-only."""
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return False
        skip = set(a.get("q_any", ()))
        if a.get("q_first") is False and init.get("moves"):
            skip.add("v")
        for k, v in a.items():
            if k.startswith("q_") or k in skip:
                continue
            if k not in b or not one_match(v, b[k], init):
                return False
        for k in b:
            if k not in a and k not in skip:
                return False
        return True
    if a == "*" or b is None:   # "*": the specification leaves it open; null: not observable here
        return True
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(one_match(x, y, init) for x, y in zip(a, b))
    return a == b and type(a) is type(b) or (a == b and not isinstance(a, bool) and not isinstance(b, bool))


def run_path(drv, g, start, path, init, ordered=True, rng=None, adapt=0, trace=None):
    """Returns None if accepted, else a dict describing the rejection."""
    drv.mark()
    sent = []       # label ids actually driven
    obs_log = []

    def reject(kind, **kw):
        d = {"kind": kind, "init": init, "labels": [g.labels[l] for l in sent], "log": obs_log[-6:]}
        d.update(kw)
        return d

    try:
        first = json.dumps(init)
        cur = {start}
        i = 0
        pend = [first]
        npend = [None]
        plan = list(path)
        while True:
            # queue deterministic steps ahead, up to and including the first nondeterministic one
            det = True
            c = next(iter(cur)) if len(cur) == 1 else None
            while i < len(plan):
                li, dst = plan[i]
                if c is None:
                    if not all(li in g.out[n] for n in cur):
                        break
                    pend.append(json.dumps(g.labels[li]))
                    npend.append((li, dst))
                    i += 1
                    break
                lst = g.out[c].get(li)
                if not lst:
                    break
                pend.append(json.dumps(g.labels[li]))
                npend.append((li, dst))
                i += 1
                if len(lst) > 1:
                    break
                c = lst[0][1]
                if len(npend) > 32:
                    break
            if not pend:
                break
            last = i >= len(plan)
            drv.send(pend)
            for item in npend:
                if item is not None:
                    sent.append(item[0])
                r = drv.recv()
                if "hang" in r or "quit" in r or "done" in r:
                    if "hang" in r:
                        r2 = drv.recv()
                    return reject("crash" if "done" in r else ("hang" if "hang" in r else "quit"), answer=r,
                                  stderr=drv.errtext())
                obs_log.append({"label": g.labels[item[0]] if item else "init", "e": r["e"], "o": r["o"]})
                if item is None:
                    ok = [n for n in cur if n in g.init and one_match(g.init[n], r["o"], init)]
                    if not ok:
                        return reject("obs", expected=[g.init[n] for n in cur if n in g.init], got=r)
                    cur = set(ok)
                    continue
                li = item[0]
                nxt = set()
                exp = []
                for n in cur:
                    for ev, dst, ob in g.out[n].get(li, ()):
                        if ev_match(ev, r["e"], init, ordered) and one_match(ob, r["o"], init):
                            nxt.add(dst)
                        else:
                            exp.append({"e": ev, "o": ob})
                if not nxt:
                    return reject("mismatch", expected=exp[:4], got=r)
                cur = nxt
            pend, npend = [], []
            if i < len(plan):
                li, dst = plan[i]
                if not all(li in g.out[n] for n in cur):
                    # the implementation took another allowed branch: continue at random from there
                    rest = []
                    if rng is not None and len(cur) == 1:
                        n = next(iter(cur))
                        for _ in range(min(adapt, len(plan) - i)):
                            if not g.out[n]:
                                break
                            l = rng.choice(list(g.out[n]))
                            rest.append((l, None))
                            if len(g.out[n][l]) > 1:
                                break
                            n = g.out[n][l][0][1]
                    plan = rest
                    i = 0
                    if not rest:
                        break
            else:
                break
        drv.send(["end"])
        r = drv.recv()
        if r.get("done") != 0:
            return reject("crash at end", answer=r, stderr=drv.errtext())
        if trace is not None:
            trace.append([g.labels[l] for l in sent])
        return None
    except DriverDied as e:
        return reject("died", why=str(e), stderr=drv.errtext())


_G = {}


def _worker(args):
    wid, idx, deadline, seed = args
    g, paths, inits, binary, ordered, env, stop = (_G[k] for k in ("g", "paths", "inits", "binary", "ordered", "env", "stop"))
    rng = random.Random(seed)
    drv = Driver(binary, env)
    n = steps = 0
    bad = []
    lens = set()
    try:
        for k in idx:
            if time.time() > deadline or stop.value:
                break
            start, p = paths[k]
            init = inits[k]
            r = run_path(drv, g, start, p, init, ordered, rng, adapt=len(p))
            n += 1
            steps += len(p)
            lens.add(hash((json.dumps(init, sort_keys=True), start, tuple(x[0] for x in p))))
            if r is not None:
                drv.kill()
                drv = Driver(binary, env)
                bad.append((k, r))
                if len(bad) >= 3:
                    break
    finally:
        drv.kill()
    return n, steps, bad, lens


def replay(g, paths, inits, binary, ordered=True, env=None, jobs=8, budget=60, seed=1):
    """paths[i] replayed with inits[i]. Returns (paths run, steps run, distinct, rejections)."""
    ctx = mp.get_context("fork")
    stop = ctx.Value("b", 0)
    scratch = tempfile.mkdtemp(prefix="qcv-")
    env = dict(env or {}, TMPDIR=scratch)
    _G.update(g=g, paths=paths, inits=inits, binary=binary, ordered=ordered, env=env, stop=stop)
    deadline = time.time() + budget
    jobs = max(1, min(jobs, len(paths)))
    chunks = [(w, list(range(w, len(paths), jobs)), deadline, seed * 1000 + w) for w in range(jobs)]
    try:
        with ctx.Pool(jobs) as pool:
            res = pool.map(_worker, chunks, chunksize=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    n = sum(r[0] for r in res)
    steps = sum(r[1] for r in res)
    bad = [b for r in res for b in r[2]]
    distinct = len(set().union(*(r[3] for r in res)))
    return n, steps, distinct, bad
