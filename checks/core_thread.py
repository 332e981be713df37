"""QThread waits, moving coroutines between threads, QFuture."""
from core_io import early
THR = ("thread", ["core"], ["vt.cpp", "drivers/thread.cpp"])


def c15(tier):
    base = dict(N=2, Tos={99}, Jumps=set(), Kinds={"started", "finished"}, Mids={"start", "finish", "startfinish"},
                Ats={1, 2, 3, 4, 5, 6}, Stages=True, MaxRounds=4, MaxRuns=2, Destroying=True)
    run = dict(spec="Thread", inv=["TypeOK", "NoneStuck", "NeverInline"], ordered=False)
    inits = lambda n: [dict(n=n, ref=r) for r in (False, True)]
    q = [dict(run, consts=base, inits=inits(2), budget=20),
         dict(run, consts=dict(base, Tos={99, 0, 1}, Jumps={1}, Ats={2, 4, 6}, Stages=False, MaxRounds=3), inits=inits(2), budget=20)]
    q.append(early(q[1], MaxRounds=2, Mids=set(), Ats=set()))
    if tier == "quick":
        return q
    return [q[2], dict(q[0], consts=dict(base, MaxRounds=5, MaxRuns=3, Ats={1, 2, 3, 4, 5, 6, 7, 8}), passes=2, budget=300),
            dict(q[1], consts=dict(q[1]["consts"], N=3, MaxRounds=4), inits=inits(3), budget=400)]


HOP = ("threadhop", ["core"], ["vt.cpp", "drivers/threadhop.cpp"])


def c16(tier):
    base = dict(C=1, T=2, Senders={0, 1}, Kinds={"move", "sig", "timed", "fut", "sleep"}, Orders={"012", "210"}, StartAts={1, 2, 4}, MaxRounds=3)
    run = dict(spec="ThreadHop", inv=["TypeOK", "OnlyRunning", "NoneLeft"], ordered=False)
    q = [dict(run, consts=base, inits=[dict(n=1, t=2)], budget=15),
         dict(run, consts=dict(base, C=2, T=1, Orders={"01", "10"}, Kinds={"move", "sig", "fut"}, StartAts={2}), inits=[dict(n=2, t=1)], budget=20)]
    if tier == "quick":
        return q
    return [dict(q[0], consts=dict(base, MaxRounds=4, StartAts={1, 2, 3, 4}), budget=250),
            dict(q[1], consts=dict(q[1]["consts"], MaxRounds=4), budget=250),
            dict(q[1], consts=dict(base, C=2, Kinds={"move", "timed"}, MaxRounds=3, StartAts={2}), inits=[dict(n=2, t=2)], budget=250)]


FUT = ("future", ["core"], ["vt.cpp", "drivers/future.cpp"])


def c17(tier):
    base = dict(N=2, Void=False, Kinds={"direct", "result", "wait", "take"}, Canceling=True, MaxRounds=3)
    run = dict(spec="Future", inv=["TypeOK", "NoneStuck", "NeverEarly"], ordered=False)
    i = lambda t, **k: [dict(n=n_, type=t, thr=thr, exc=e, **k) for thr in (False, True) for e in (0, 1)]
    n_ = 2
    q = [dict(run, consts=base, inits=i("int") + i("string") + i("counted"), budget=10, passes=3),
         dict(run, consts=dict(base, Void=True), inits=i("void"), budget=5),
         dict(run, consts=dict(base, Kinds={"take"}), inits=i("moveonly"), budget=5),
         dict(run, consts=dict(base, Canceling=False), inits=i("string", cont=True), budget=5),
         dict(run, consts=dict(base, Void=True, Canceling=False), inits=i("void", cont=True), budget=5)]
    if tier == "quick":
        return q
    n_ = 3
    big = dict(base, N=3, MaxRounds=4)
    return [dict(q[0], consts=big, inits=i("int") + i("string") + i("counted"), budget=200, passes=6),
            dict(q[1], consts=dict(big, Void=True), inits=i("void"), budget=100, passes=4), q[2],
            dict(q[3], consts=dict(big, Canceling=False), inits=i("string", cont=True), budget=100, passes=4), q[4]]


CHECKS = {
    "C17": dict(driver=FUT, runs=c17),
    "C16": dict(driver=HOP, runs=c16),
    "C15": dict(driver=THR, runs=c15),
}
