"""Signals, signal listeners, timers and sleeps."""
SIG = ("signal", ["core"], ["vt.cpp", "drivers/signal.cpp"])
SIG_INV = ["TypeOK", "Registered", "Rounds", "NeverInEmit", "NoneLost"]
KINDS = ["one", "two", "none", "ref", "priv", "privonly", "over"]


def sig_inits(n, mx):
    return [dict(n=n, max=mx, k1=k, k2=KINDS[(i + 3) % 7], form3=f) for f in (False, True) for i, k in enumerate(KINDS)]


def c09(tier):
    full = dict(N=2, Sg={1}, MaxEmit=2, Tos={99, 0, 2}, Progs={"once", "twice"}, Jumps={1, 2})
    q = [dict(spec="Signal", consts=full, inv=SIG_INV, inits=sig_inits(2, 2), budget=15, passes=2, ordered=False),
         dict(spec="Signal", consts=dict(full, Sg={1, 2}, MaxEmit=3, Tos={99, 1}, Progs={"once", "emit", "kill"}, Jumps={1}), inv=SIG_INV,
              inits=sig_inits(2, 3), budget=15, ordered=False),
         dict(spec="Signal", consts=dict(full, N=3, Tos={99, 1}, Progs={"once", "twice"}, Jumps={1}), inv=SIG_INV, inits=sig_inits(3, 2), budget=15, ordered=False),
         # a timeout of 50 units doesn't pass after 49: coarse timers are up to 5% early
         dict(spec="Signal", consts=dict(full, N=2, Tos={99, 50}, Progs={"once"}, Jumps={49, 50}), inv=SIG_INV, inits=sig_inits(2, 2), budget=5, ordered=False),
         # timeouts beyond 2^31 and 2^32 ms, which no int holds
         dict(spec="Signal", consts=dict(full, N=1, Tos={53687092, 107374183}, Progs={"once", "twice"}, Jumps={1, 53687091, 53687092}), inv=SIG_INV, inits=sig_inits(1, 2), budget=4, ordered=False)]
    if tier == "quick":
        return q
    return [q[3], q[4], dict(q[0], passes=8, budget=100), dict(q[1], passes=4, budget=150),
            dict(q[1], consts=dict(q[1]["consts"], N=3, MaxEmit=2), inits=sig_inits(3, 2), budget=300),
            dict(spec="Signal", consts=dict(full, N=3, MaxEmit=3, Tos={99, 1}, Progs={"once", "twice"}, Jumps={1}), inv=SIG_INV, inits=sig_inits(3, 3), budget=300, ordered=False)]


LIS_INV = ["TypeOK", "Complete", "WaitingMeansEmpty", "NeverInEmit"]


def lis_inits(n):
    return [dict(spec="listener", n=n, k1=k) for k in KINDS]


def c10(tier):
    full = dict(N=1, MaxEmit=4, Bursts={1}, Tos={99, 0, 2}, Modes={"step", "auto"}, Jumps={1, 2})
    q = [dict(spec="Listener", consts=full, inv=LIS_INV, inits=lis_inits(1), budget=15, passes=7, ordered=False),
         dict(spec="Listener", consts=dict(full, N=2, MaxEmit=3, Tos={99, 1}, Jumps={1}), inv=LIS_INV, inits=lis_inits(2), budget=20, ordered=False),
         dict(spec="Listener", consts=dict(full, MaxEmit=2, Tos={50}, Jumps={49, 50}), inv=LIS_INV, inits=lis_inits(1), budget=5, ordered=False),
         # a consumer that is busy while a lot is emitted
         dict(spec="Listener", consts=dict(full, MaxEmit=258, Bursts={129}, Tos={99, 1}, Modes={"auto"}, Jumps={1}), inv=LIS_INV, inits=lis_inits(1), budget=8, ordered=False),
         dict(spec="Listener", consts=dict(full, MaxEmit=2, Tos={53687092, 107374183}, Jumps={1, 53687091, 53687092}), inv=LIS_INV, inits=lis_inits(1), budget=4, ordered=False)]
    if tier == "quick":
        return q
    return [q[2], q[3], q[4], dict(q[0], consts=dict(full, MaxEmit=6), budget=200), dict(q[1], passes=3, budget=300),
            dict(spec="Listener", consts=dict(full, N=2, MaxEmit=3), inv=LIS_INV, inits=lis_inits(2), budget=300, ordered=False)]


TIMER = ("timer", ["core"], ["vt.cpp", "drivers/timer.cpp"])
TIMER_INV = ["TypeOK", "Registered", "NothingDue"]


def timer_inits(n, nt):
    return [dict(n=n, nt=nt, rep=r) for r in ("ms", "us", "ns", "dbl")]


def c11(tier):
    base = dict(N=2, NT=1, Intervals={0, 1, 2}, Kinds={"direct", "wrapped"}, Progs={"once", "twice", "stop", "restart"}, Sleeps=set(), Clocks=set(),
                Jumps={0, 1, 3}, Ops={"timer"})
    slp = dict(N=2, NT=1, Intervals=set(), Kinds=set(), Progs=set(), Sleeps={7777777, 0, 1, 999, 1000, 1500, 2000, 1001000, 1002500},
               Clocks={"for", "steady", "system", "custom"}, Jumps={0, 1, 1000}, Ops=set())
    run = dict(spec="Timer", inv=TIMER_INV, ordered=False, nest=False)
    q = [dict(run, consts=base, inits=timer_inits(2, 1), budget=12, passes=2),
         dict(run, consts=slp, inits=timer_inits(2, 1), budget=12, passes=4),
         dict(run, consts=dict(base, N=2, NT=2, Progs={"once", "twice"}, Intervals={1, 2}, Sleeps={1500}, Clocks={"for"}, Jumps={1}), inits=timer_inits(2, 2), budget=15),
         dict(run, consts=dict(slp, N=1, Sleeps={400000, 100000}, Jumps={399, 99}), inits=timer_inits(1, 1), budget=5),
         # coroutines that run event loops of their own
         dict(run, consts=dict(base, N=1, Intervals={1, 2}, Progs={"once", "spin"}, Jumps={0, 1, 2}), inits=timer_inits(1, 1), budget=8, passes=4)]
    if tier == "quick":
        return q
    return [q[3], dict(q[0], passes=4, budget=60), dict(q[0], consts=dict(base, N=3, Jumps={1, 3}), inits=timer_inits(3, 1), budget=300),
            dict(q[1], consts=dict(slp, N=3, Sleeps={0, 1, 1000, 1500, 1001000}, Clocks={"for", "system"}), inits=timer_inits(3, 1), budget=200),
            dict(q[1], budget=60), dict(q[2], budget=200, passes=2)]


COMPOSE = ("compose", ["core"], ["vt.cpp", "drivers/compose.cpp"])


def c29(tier):
    def run(k, ps, budget, emit=2, time=4, period=2, data=0, **kw):
        return dict(spec="Compose", consts=dict(K=k, Ps=set(ps), MaxEmit=emit, MaxTime=time, MaxData=data, Period=period, NoTo=99),
                    inv=["TypeOK", "NoneStuck", "InOrder"], props=["OnlyDue"], inits=[dict(n=k, period=period)], budget=budget, ordered=False, **kw)
    if tier == "quick":
        return [run(2, range(1, 15), 30, time=3), run(2, {1, 7, 12, 15, 16}, 20, emit=1, time=3, data=2), run(3, {7, 8, 11, 12}, 20, emit=1, time=2), run(3, {1, 3, 5, 6}, 20, emit=1, time=2)]
    return [run(2, range(1, 15), 200, emit=3, time=6, passes=2), run(2, range(1, 15), 150, emit=2, time=6, period=3),
            run(3, {3, 6, 7, 8, 9, 11}, 250, time=3), run(3, {2, 4, 5, 10, 13, 14}, 200, time=4),
            run(3, {7, 12, 15, 16}, 200, emit=1, time=3, data=2)]


CHECKS = {
    "C29": dict(driver=COMPOSE, runs=c29),
    "C11": dict(driver=TIMER, runs=c11),
    "C10": dict(driver=SIG, runs=c10),
    "C09": dict(driver=SIG, runs=c09),
}
