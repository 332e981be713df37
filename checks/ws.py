"""Web sockets."""
from core_io import early
WS = ("websocket", ["core", "network", "websockets"], ["vt.cpp", "drivers/websocket.cpp"])
OPEN_INV = ["TypeOK", "NoneStuck", "NeverInline"]
STREAM_INV = ["TypeOK", "Complete", "WaitingMeansEmpty", "NoneStuck", "NeverInEmit"]
KINDS = ["text", "binary", "textframes", "binaryframes"]


def c22(tier):
    ob = dict(N=2, Tos={99}, Jumps=set(), Kinds={"open"}, MaxRounds=4, MaxPongs=0, Payloads={1})
    orun = dict(spec="WsOpen", inv=OPEN_INV, ordered=False)
    oin = lambda n, up=False: [dict(n=n, ref=r, up=up) for r in (False, True)]
    pb = dict(ob, Kinds={"ping"}, MaxRounds=3, MaxPongs=3, Payloads={0, 1, 3})
    sb = dict(N=1, MaxEmit=4, Bursts={1}, MaxDowns=1, Tos={99, 0, 1}, Modes={"step", "auto"}, Jumps={1})
    srun = dict(spec="WsStream", inv=STREAM_INV, ordered=False)
    sin = lambda n: [dict(n=n, kind=k) for k in KINDS]
    q = [dict(orun, consts=ob, inits=oin(2), budget=8),
         dict(orun, consts=dict(ob, Tos={99, 0, 1}, Jumps={1}, MaxRounds=3), inits=oin(2), budget=8),
         dict(orun, consts=pb, inits=oin(2, True), budget=8),
         dict(orun, consts=dict(pb, Tos={99, 0, 1}, Jumps={1}, MaxRounds=2, MaxPongs=2, Payloads={0, 1}), inits=oin(2, True), budget=8),
         dict(srun, consts=sb, inits=sin(1), budget=12, passes=2),
         dict(srun, consts=dict(sb, N=2, MaxEmit=3, Tos={99}, Jumps=set(), MaxDowns=2), inits=sin(2), budget=12)]
    q.append(dict(srun, consts=dict(sb, MaxEmit=214, Bursts={107}, Tos={99}, Modes={"auto"}), inits=sin(1), budget=5))
    q += [early(q[1]), early(q[3]), early(q[4], MaxEmit=2)]
    if tier == "quick":
        return q
    return q[6:] + [dict(q[0], consts=dict(ob, N=3, MaxRounds=5), inits=oin(3), budget=150),
            dict(q[1], consts=dict(q[1]["consts"], N=3), inits=oin(3), budget=150),
            dict(q[2], consts=dict(pb, N=3, MaxRounds=4), inits=oin(3, True), budget=150),
            dict(q[3], consts=dict(q[3]["consts"], N=3, MaxRounds=3), inits=oin(3, True), budget=100),
            dict(srun, consts=dict(sb, MaxEmit=6, MaxDowns=2), inits=sin(1), budget=200, passes=4),
            dict(srun, consts=dict(sb, N=2, MaxEmit=3), inits=sin(2), budget=200)]


def c23(tier):
    base = dict(N=2, Tos={99}, Jumps=set(), MaxRounds=4, MaxConns=3, Ops={"steal", "close", "tells"}, Real=False)
    run = dict(spec="Server", inv=["TypeOK", "NoneStuck", "NeverInline"], props=["NothingOnlyWhenOver"], ordered=False)
    init = lambda n: [dict(kind="server", n=n, ref=r) for r in (False, True)]
    q = [dict(run, consts=base, inits=init(2), budget=12, passes=2),
         dict(run, consts=dict(base, N=3, MaxRounds=4, MaxConns=3, Ops=set()), inits=init(3), budget=8),
         dict(run, consts=dict(base, Tos={99, 0, 1, 2}, Jumps={1}, MaxRounds=3, MaxConns=2, Ops={"steal", "destroy", "close", "tells"}), inits=init(2), budget=20)]
    q.append(early(q[2]))
    if tier == "quick":
        return q
    return [q[3], dict(q[0], consts=dict(base, N=3, MaxRounds=5, MaxConns=4), inits=init(3), budget=250),
            dict(q[2], consts=dict(q[2]["consts"], MaxRounds=4, MaxConns=3), budget=250)]


CHECKS = {
    "C22": dict(driver=WS, runs=c22),
    "C23": dict(driver=WS, runs=c23),
}
