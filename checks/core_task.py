"""Task, LazyTask, then, waitFor, connect."""
TASK = ("task", ["core"], ["vt.cpp", "drivers/task.cpp"])
TYPES = ["int", "void", "qstring", "counted", "nodefault", "moveonly", "converted"]


def task_inits(nc, ns):
    res = []
    rets = ["value", "const", "lvalue", "ref", "cref"]
    for i in range(7 * 2 * len(rets)):
        t = TYPES[i % 7]
        res.append(dict(nc=nc, ns=ns, type=t, moves=t not in ("int", "void"), exc="odd" if (i // 7) % 2 else "std",
                        ret=rets[(i // 14) % len(rets)]))
    return res


TASK_INV = ["TypeOK", "WaitersRegistered", "NoWaiterLost", "FrameLifetime", "DeliveredAfterEnd", "NeverResumedTwice"]


def c01(tier):
    q = [dict(spec="Task", consts=dict(NC=3, NS=3, ProgSel="await", SlotOps=set()), inv=TASK_INV,
              inits=task_inits(3, 3), budget=26)]
    for sel, n in (("wide", 24), ("deep", 24)):
        q.append(dict(spec="Task", consts=dict(NC=n, NS=n, ProgSel=sel, SlotOps=set()), inv=TASK_INV, inits=task_inits(n, n), budget=5))
    if tier == "quick":
        return q
    return [q[1], q[2], dict(q[0], budget=200, passes=3),
            dict(spec="Task", consts=dict(NC=4, NS=4, ProgSel="mini", SlotOps=set()), inv=TASK_INV,
                 inits=task_inits(4, 4), budget=400)]


def c02(tier):
    ops = {"drop", "move", "null", "self", "assign"}
    q = [dict(spec="Task", consts=dict(NC=2, NS=2, ProgSel="life", SlotOps=ops), inv=TASK_INV,
              inits=task_inits(2, 2), budget=15, passes=3),
         dict(spec="Task", consts=dict(NC=3, NS=2, ProgSel="life", SlotOps={"drop", "move"}), inv=TASK_INV,
              inits=task_inits(3, 2), budget=20)]
    if tier == "quick":
        return q
    return [dict(q[0], budget=60), dict(q[1], consts=dict(NC=3, NS=2, ProgSel="life", SlotOps=ops), budget=500)]


THEN = ("then", ["core"], ["vt.cpp", "drivers/then.cpp"])
THEN_INV = ["TypeOK", "Registered", "OnceOnly", "NothingLost"]


def then_inits(n):
    return [dict(n=n, type=t, arg=a, moves=t in ("qstring", "counted", "moveonly"))
            for t in ("int", "void", "qstring", "counted", "moveonly") for a in ("value", "cref", "none")]


def c03_inits(n):
    return then_inits(n) + [dict(n=n, type=t, arg=a, moves=t in ("qstring", "counted", "moveonly"))
                            for t, a in (("int", "both"), ("qstring", "auto"), ("moveonly", "both"), ("counted", "auto"))]


def c03(tier):
    full = dict(BaseModes={"pause", "val", "exc", "odd"}, CbKinds={"val", "thr", "task", "taskval", "taskthr"},
                ErrKinds={"none", "ok", "thr"}, Forms={"l", "r"}, Outcomes={"val", "exc", "odd"}, Ops={"drop"})
    q = [dict(spec="Then", consts=dict(full, N=2), inv=THEN_INV, inits=c03_inits(2), budget=20),
         dict(spec="Then", consts=dict(full, N=3, BaseModes={"pause"}, CbKinds={"val", "task"}, ErrKinds={"none", "ok"}, Ops=set(), Outcomes={"val", "exc"}),
              inv=THEN_INV, inits=c03_inits(3), budget=25)]
    if tier == "quick":
        return q
    return [dict(q[0], passes=9, budget=100), dict(q[1], passes=3, budget=150),
            dict(spec="Then", consts=dict(full, N=3, CbKinds={"val", "thr", "task"}), inv=THEN_INV, inits=c03_inits(3), budget=500)]


LAZY = ("lazy", ["core"], ["vt.cpp", "drivers/lazy.cpp"])
LAZY_INV = ["TypeOK", "Lazy", "BeginsOnce", "NothingLost", "Registered"]


def c04(tier):
    full = dict(MaxObs=2, BaseModes={"pause", "val", "exc", "odd"}, CbKinds={"val", "thr", "lazy", "lazyval", "eager"},
                ErrKinds={"none", "ok"}, Forms={"l", "r"}, Outcomes={"val", "exc", "odd"}, Ops={"drop", "move"})
    q = [dict(spec="Lazy", consts=dict(full, N=2), inv=LAZY_INV, inits=then_inits(2), budget=20, passes=2),
         dict(spec="Lazy", consts=dict(full, N=3, MaxObs=1, BaseModes={"pause", "val"}, CbKinds={"val", "lazy"}, ErrKinds={"none"}, Outcomes={"val", "exc"}),
              inv=LAZY_INV, inits=then_inits(3), budget=25)]
    if tier == "quick":
        return q
    return [dict(q[0], passes=9, budget=100), dict(q[1], passes=3, budget=150),
            dict(spec="Lazy", consts=dict(full, N=3, MaxObs=1, BaseModes={"pause", "val", "exc"}, Outcomes={"val", "exc"}), inv=LAZY_INV, inits=then_inits(3), budget=500)]


WAIT = ("waitfor", ["core"], ["vt.cpp", "drivers/waitfor.cpp"])
WAIT_INV = ["TypeOK", "Blocked", "NeverEarly", "NoneStuck"]


def wait_inits(n):
    return [dict(n=n, type=t, moves=t in ("qstring", "nodefault", "moveonly")) for t in ("int", "void", "qstring", "nodefault", "moveonly")]


def c07(tier):
    full = dict(Kinds={"lref", "rref", "lazy", "cust"}, Modes={"pause", "val", "exc", "odd"}, Outcomes={"val", "exc", "odd"}, Ops={"chain", "post"})
    q = [dict(spec="WaitFor", consts=dict(full, N=2, MaxDepth=2), inv=WAIT_INV, inits=wait_inits(2), budget=25, passes=2),
         dict(spec="WaitFor", consts=dict(full, N=3, MaxDepth=3, Kinds={"lref"}, Modes={"pause"}, Outcomes={"val", "exc"}, Ops={"chain"}), inv=WAIT_INV, inits=wait_inits(3), budget=20)]
    if tier == "quick":
        return q
    return [dict(q[0], passes=5, budget=120), dict(q[1], passes=3, budget=150),
            dict(spec="WaitFor", consts=dict(full, N=3, MaxDepth=3, Outcomes={"val", "exc"}, Modes={"pause", "val"}), inv=WAIT_INV, inits=wait_inits(3), budget=400),
            dict(spec="WaitFor", consts=dict(full, N=4, MaxDepth=4, Kinds={"lref"}, Modes={"pause"}, Outcomes={"val"}, Ops={"chain"}), inv=WAIT_INV, inits=wait_inits(4), budget=200)]


CONN = ("connect", ["core"], ["vt.cpp", "drivers/connect.cpp"])


def c08(tier):
    def inits(n, nx):
        return [dict(n=n, nx=nx, type=t) for t in ("int", "void", "qstring", "counted")]
    full = dict(Kinds={"task", "future"}, Modes={"pause", "val", "exc", "odd"}, Forms={"arg", "cref", "noarg", "member", "marg", "mcref", "suicide"}, Outcomes={"val", "exc", "odd"}, Lvs={False})
    inv = ["TypeOK", "CalledOnce"]
    q = [dict(spec="Connect", consts=dict(full, N=2, NX=2), inv=inv, inits=inits(2, 2), budget=20),
         dict(spec="Connect", consts=dict(full, N=3, NX=2, Modes={"pause", "val"}, Outcomes={"val"}, Forms={"arg", "noarg"}), inv=inv, inits=inits(3, 2), budget=15),
         dict(spec="Connect", consts=dict(full, N=2, NX=1, Kinds={"awaiter", "awaitable", "lazy"}, Forms={"arg", "noarg", "marg"}), inv=inv, inits=inits(2, 1), budget=15),
         dict(spec="Connect", consts=dict(full, N=1, NX=1, Kinds={"task", "future", "awaiter", "awaitable", "lazy"}, Lvs={False, True}), inv=inv, inits=inits(1, 1), budget=10, passes=3)]
    if tier == "quick":
        return q
    return [dict(q[0], passes=4, budget=200), dict(q[1], budget=300, consts=dict(full, N=3, NX=2, Modes={"pause", "val"}, Outcomes={"val", "exc"}, Forms={"arg", "suicide"})),
            dict(q[2], passes=2, budget=200, consts=dict(q[2]["consts"], NX=2, Kinds={"awaiter", "awaitable", "lazy", "task"})),
            dict(q[3], budget=100, consts=dict(q[3]["consts"], N=2, Modes={"pause", "val", "exc"}, Outcomes={"val", "exc"}, Forms={"arg", "noarg", "member", "suicide"}), inits=inits(2, 1))]


AWAITABLE = ("awaitable", ["core"], ["vt.cpp", "drivers/awaitable.cpp"])


def c28(tier):
    q = [dict(spec="Awaitable", consts=dict(N=1, Kinds={"methods", "member", "free", "plain", "plainop"}, Cats={"lvalue", "const", "rvalue", "temp"},
                                            Readys={"no", "yes", "throws"}, Susps={"void", "true", "false", "throws", "self", "noop"},
                                            Outs={"val", "ref", "none", "exc"}),
              inv=["TypeOK"], props=["ResumedOnce", "OnlyItself"], inits=[dict(n=1, type=t) for t in ("task", "lazy", "agen")],
              ordered=True, passes=3, budget=15),
         dict(spec="Awaitable", consts=dict(N=2, Kinds={"methods", "free", "plain"}, Cats={"lvalue", "temp"},
                                            Readys={"no", "yes"}, Susps={"void", "true", "false", "self", "other"},
                                            Outs={"val", "exc"}),
              inv=["TypeOK"], props=["ResumedOnce", "OnlyItself"], inits=[dict(n=2, type=t) for t in ("task", "lazy", "agen")],
              ordered=True, passes=3, budget=25)]
    if tier == "quick":
        return q
    return [q[0], dict(q[1], consts=dict(q[1]["consts"], Kinds={"methods", "member", "free", "plain", "plainop"}, Cats={"lvalue", "const", "rvalue", "temp"},
                                         Readys={"no", "yes", "throws"}, Susps={"void", "true", "false", "throws", "self", "noop", "other"}),
                       budget=500)]


CHECKS = {
    "C28": dict(driver=AWAITABLE, runs=c28),
    "C01": dict(driver=TASK, runs=c01),
    "C02": dict(driver=TASK, runs=c02),
    "C03": dict(driver=THEN, runs=c03),
    "C04": dict(driver=LAZY, runs=c04),
    "C07": dict(driver=WAIT, runs=c07),
    "C08": dict(driver=CONN, runs=c08),
}
