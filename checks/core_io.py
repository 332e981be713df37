"""QIODevice reads and writes, QProcess."""
IO = ("io", ["core"], ["vt.cpp", "drivers/io.cpp"])
def early(r, **k):
    """a timeout of 50 units doesn't pass after 49: timers which aren't precise are up to 5% early"""
    return dict(r, consts=dict(r["consts"], **dict(dict(Tos={50}, Jumps={49, 50}), **k)), budget=4, passes=1)

def default(r, **k):
    """750 units, 30 s, are the timeout of a wait that isn't given one"""
    return dict(r, consts=dict(r["consts"], **dict(dict(Tos={750}, Jumps={749, 750}), **k)), budget=4, passes=1)


READ_INV = ["TypeOK", "NoneStuck", "NeverInline"]
ROPS = {"all", "read1", "read2", "line0", "line3", "direct", "ready"}


def read_inits(n):
    return [dict(spec="read", n=n, unbuffered=u, ptr=p) for u in (False, True) for p in (False, True)]


def c12(tier):
    base = dict(N=2, MaxBytes=4, Chunks={1, 3}, Rops=ROPS, Tos={99}, Jumps=set(), Ops={"close", "end", "destroy"}, MaxRounds=3)
    run = dict(spec="Read", inv=READ_INV, ordered=False)
    q = [dict(run, consts=base, inits=read_inits(2), budget=18),
         dict(run, consts=dict(base, N=1, MaxBytes=7, Chunks={1, 2, 3}, Tos={99, 0, 1}, Jumps={1}, MaxRounds=5), inits=read_inits(1), budget=18, passes=2)]
    q.append(early(q[1], MaxBytes=3, MaxRounds=3, Rops={"all", "line0", "ready"}))
    q.append(dict(run, consts=dict(base, MaxBytes=4, Chunks={2}, Rops={"all", "line0", "direct", "ready"}, Tos={99, 1}, Jumps={1}, Ops={"close", "reopen"}, MaxRounds=3), inits=read_inits(2), budget=15))
    # a process, which stays open when it ends; before, it may not even have been started
    q.append(dict(run, consts=dict(base, Rops=ROPS - {"direct"}, Chunks={2}, MaxBytes=2, Tos={99, 1}, Jumps={1}, Ops={"close", "end", "destroy", "knows"}, MaxRounds=3),
                  inits=procs(2, "read"), budget=12))
    q.append(dict(run, consts=dict(base, Rops={"all", "read1", "line0", "ready"}, Chunks={2}, MaxBytes=4, Ops={"close", "end", "destroy", "knows"}, MaxRounds=3),
                  inits=[dict(spec="read", n=2, proc="real", ptr=p) for p in (False, True)], budget=6))
    if tier == "quick":
        return q
    return [q[2], dict(q[3], passes=4, budget=200), dict(q[4], passes=4, consts=dict(q[4]["consts"], MaxBytes=4), budget=150), dict(q[0], passes=4, budget=200), dict(q[1], consts=dict(q[1]["consts"], MaxBytes=10, MaxRounds=8), budget=200),
            dict(run, consts=dict(base, N=3, MaxRounds=3, Chunks={1, 3}, MaxBytes=4, Tos={99, 1}, Jumps={1}, Rops={"all", "read1", "ready"}), inits=read_inits(3), budget=300)]


def procs(n, spec):
    return [dict(spec=spec, n=n, proc=m, unbuffered=u, ptr=p) for p in (False, True) for u in (False, True) for m in ("exit", "crash", "fails", "late")]


WRITE_INV = ["TypeOK", "NoneStuck", "NeverInline"]


def c13(tier):
    base = dict(N=2, Sizes={1, 2, 3}, Room=1000, MaxBytes=5, Mode="async", Tos={99}, Jumps=set(), Ops={"close", "destroy"}, Kinds={"write", "wait"})
    run = dict(spec="Write", inv=WRITE_INV, ordered=False)
    q = [dict(run, consts=base, inits=[dict(spec="write", n=2, mode="async", unbuffered=u) for u in (False, True)], budget=15, passes=2),
         dict(run, consts=dict(base, Room=2, Tos={99, 0, 1}, Jumps={1}), inits=[dict(spec="write", n=2, mode="async", room=2)], budget=15),
         dict(run, consts=dict(base, N=1, Mode="sync"), inits=[dict(spec="write", n=1, mode="sync"), dict(spec="write", n=1, mode="sync", room=1001)], budget=5, passes=2),
         dict(run, consts=dict(base, N=3, Kinds={"write"}, Sizes={1, 3}), inits=[dict(spec="write", n=3, mode="async")], budget=10)]
    q.append(early(q[1]))
    q.append(dict(run, consts=dict(base, Tos={99, 1}, Jumps={1}, Ops={"close", "end", "destroy"}, Sizes={1, 2}, MaxBytes=3), inits=procs(2, "write"), budget=10))
    if tier == "quick":
        return q
    return q + [dict(q[5], passes=4, budget=100), dict(run, consts=dict(base, N=3, MaxBytes=7), inits=[dict(spec="write", n=3, mode="async")], budget=300),
                dict(run, consts=dict(base, N=3, MaxBytes=6, Room=2, Tos={99, 1}, Jumps={1}), inits=[dict(spec="write", n=3, mode="async", room=2)], budget=300)]


PROC = ("process", ["core"], ["vt.cpp", "drivers/process.cpp"])


def c14(tier):
    base = dict(N=2, Tos={99}, Jumps=set(), Kinds={"started", "finished"}, MaxRounds=5, MaxRuns=2)
    run = dict(spec="Process", inv=["TypeOK", "NoneStuck", "NeverInline"], ordered=False)
    fake = lambda n: [dict(n=n, ref=r) for r in (False, True)]
    real = lambda n: [dict(n=n, ref=r, real=True) for r in (False, True)]
    q = [dict(run, consts=base, inits=fake(2), budget=10, passes=2),
         dict(run, consts=dict(base, Tos={99, 0, 1}, Jumps={1}, MaxRounds=4), inits=fake(2), budget=15),
         dict(run, consts=dict(base, Kinds={"started", "finished", "start"}, MaxRounds=3), inits=real(2), budget=15)]
    q.append(early(q[1], MaxRounds=2, Tos={99, 50}, Kinds={"started", "finished", "starts"}))
    q.append(default(q[1], MaxRounds=2, Kinds={"started", "finished", "starts"}))
    if tier == "quick":
        return q
    return [q[3], q[4], dict(q[0], consts=dict(base, N=3, MaxRounds=6, MaxRuns=3), inits=fake(3), budget=200),
            dict(q[1], consts=dict(q[1]["consts"], N=3, MaxRounds=5, Kinds={"started", "finished", "starts"}), inits=fake(3), budget=300),
            dict(q[2], consts=dict(q[2]["consts"], N=3, MaxRounds=4), inits=real(3), budget=200)]


CHECKS = {
    "C14": dict(driver=PROC, runs=c14),
    "C12": dict(driver=IO, runs=c12),
    "C13": dict(driver=IO, runs=c13),
}
