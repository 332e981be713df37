"""Sockets, servers and network replies."""
from core_io import default, early
SOCK = ("socket", ["core", "network"], ["vt.cpp", "drivers/socket.cpp"])
PRIV = "/usr/include/x86_64-linux-gnu/qt6/"
BUILD = dict(extra_flags=["-isystem " + PRIV + p for p in ("QtNetwork/6.4.2", "QtNetwork/6.4.2/QtNetwork", "QtCore/6.4.2", "QtCore/6.4.2/QtCore")])
SOCK_INV = ["TypeOK", "NoneStuck", "NeverInline"]
ROPS = {"all", "read1", "read2", "line0", "line3", "direct", "ready"}


def sock_runs(tier, kind):
    local = kind == "local"
    init = lambda n, **k: [dict(k, n=n, sock=kind, ref=r) for r in (False, True)]
    base = dict(N=2, Tos={99}, Jumps=set(), Kinds={"up", "down", "connect", "destroy"} - ({"connect"} if local else set()), MaxRounds=3, MaxRuns=2, Local=local, Real=False)
    run = dict(spec="Socket", inv=SOCK_INV, ordered=False)
    q = [dict(run, consts=base, inits=init(2), budget=12),
         dict(run, consts=dict(base, Tos={99, 0, 1}, Jumps={1}, MaxRounds=2), inits=init(2), budget=12)]
    if local:
        real = dict(base, Real=True)
        q.append(dict(run, consts=dict(real, MaxRounds=4), inits=[dict(n=2, sock="real", ref=r) for r in (False, True)], budget=8))
    io = lambda n, **k: [dict(k, n=n, sock=kind, unbuffered=u, ptr=p) for u in (False, True) for p in (False, True)]
    rd = dict(N=2, MaxBytes=4, Chunks={1, 3}, Rops=ROPS, Tos={99}, Jumps=set(), Ops={"close", "end", "knows", "destroy"}, MaxRounds=3)
    rrun = dict(spec="Read", inv=["TypeOK", "NoneStuck", "NeverInline"], ordered=False)
    wr = dict(N=2, Sizes={1, 2, 3}, Room=1000, MaxBytes=5, Mode="async", Tos={99}, Jumps=set(), Ops={"close", "end", "destroy"}, Kinds={"write", "wait"})
    wrun = dict(spec="Write", inv=["TypeOK", "NoneStuck", "NeverInline"], ordered=False)
    q += [early(q[1]), default(q[1])]
    q += [dict(rrun, consts=rd, inits=io(2, spec="read"), budget=12),
          dict(rrun, consts=dict(rd, N=1, MaxBytes=7, Chunks={1, 2, 3}, Tos={99, 0, 1}, Jumps={1}, MaxRounds=4), inits=io(1, spec="read"), budget=12),
          dict(wrun, consts=wr, inits=io(2, spec="write"), budget=8)]
    if tier == "quick":
        return q
    return q[2:] + [dict(run, consts=dict(base, N=3, MaxRounds=4), inits=init(3), budget=200),
                    dict(run, consts=dict(base, Tos={99, 0, 1}, Jumps={1}, MaxRounds=3), inits=init(2), budget=200),
                    dict(rrun, consts=dict(rd, MaxRounds=4, Rops={"all", "read1", "line0", "direct"}, Tos={99, 1}, Jumps={1}), inits=io(2, spec="read"), budget=200)]


def c18(tier):
    return sock_runs(tier, "abs")


def c19(tier):
    return sock_runs(tier, "local")


SERVER = ("server", ["core", "network"], ["vt.cpp", "drivers/server.cpp"])


def c20(tier):
    base = dict(N=2, Tos={99}, Jumps=set(), MaxRounds=4, MaxConns=3, Ops={"steal", "close"}, Real=False)
    run = dict(spec="Server", inv=["TypeOK", "NoneStuck", "NeverInline"], props=["NothingOnlyWhenOver"], ordered=False)
    init = lambda n, **k: [dict(k, n=n, ref=r) for r in (False, True)]
    q = [dict(run, consts=base, inits=init(2), budget=12),
         dict(run, consts=dict(base, N=3, MaxRounds=4, MaxConns=3, Ops=set()), inits=init(3), budget=8),
         dict(run, consts=dict(base, Tos={99, 0, 1, 2}, Jumps={1}, MaxRounds=3, MaxConns=2, Ops={"steal", "destroy"}), inits=init(2), budget=15),
         dict(run, consts=dict(base, Real=True, Ops={"steal"}), inits=init(2, real=True), budget=10)]
    q += [early(q[2]), default(q[2])]
    if tier == "quick":
        return q
    return [q[4], q[5], dict(q[0], consts=dict(base, N=3, MaxRounds=5, MaxConns=4), inits=init(3), budget=250),
            dict(q[2], consts=dict(q[2]["consts"], MaxRounds=4, MaxConns=3, Ops={"steal", "close", "destroy"}), budget=250),
            dict(q[3], consts=dict(base, N=3, Real=True, Ops={"steal"}, MaxRounds=5, MaxConns=4), inits=init(3, real=True), budget=150)]


REPLY = ("reply", ["core", "network"], ["vt.cpp", "drivers/reply.cpp"])


def c21(tier):
    base = dict(N=2, Tos={99}, Jumps=set(), Kinds={"direct", "nested", "wait"}, MaxRounds=4)
    run = dict(spec="Reply", inv=["TypeOK", "NoneStuck", "NeverInline", "NeverEarly"], ordered=False)
    init = lambda n: [dict(n=n, ref=r) for r in (False, True)]
    rd = dict(N=2, MaxBytes=4, Chunks={1, 3}, Rops=ROPS - {"direct"}, Tos={99}, Jumps=set(), Ops={"end", "reply", "knows", "close"}, MaxRounds=3)
    rrun = dict(spec="Read", inv=["TypeOK", "NoneStuck", "NeverInline"], ordered=False)
    io = lambda n: [dict(spec="read", n=n, unbuffered=u, ptr=p, err=e, quiet=q) for u in (False, True) for p in (False, True) for e, q in ((False, True), (True, False), (False, False))]
    q = [dict(run, consts=base, inits=init(2), budget=8),
         dict(run, consts=dict(base, Tos={99, 0, 1}, Jumps={1}, MaxRounds=3), inits=init(2), budget=10),
         dict(rrun, consts=rd, inits=io(2), budget=15),
         dict(rrun, consts=dict(rd, N=1, MaxBytes=7, Chunks={1, 2, 3}, Tos={99, 0, 1}, Jumps={1}, MaxRounds=4), inits=io(1), budget=12)]
    q.append(early(q[1]))
    if tier == "quick":
        return q
    return [q[4], dict(q[0], consts=dict(base, N=3, MaxRounds=6), inits=init(3), budget=150),
            dict(q[1], consts=dict(q[1]["consts"], N=3, MaxRounds=4), inits=init(3), budget=200),
            dict(q[2], budget=100, passes=4), dict(q[3], budget=100, passes=4),
            dict(rrun, consts=dict(rd, MaxRounds=4, Rops={"all", "read1", "line0", "ready"}, Tos={99, 1}, Jumps={1}), inits=io(2), budget=200)]


CHECKS = {
    "C21": dict(driver=REPLY, runs=c21),
    "C20": dict(driver=SERVER, runs=c20),
    "C18": dict(driver=SOCK, build=BUILD, runs=c18),
    "C19": dict(driver=SOCK, build=BUILD, runs=c19),
}
