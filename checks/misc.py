"""DBus, QML, image provider, test macros."""
DBUS = ("dbus", ["core", "dbus"], ["vt.cpp", "drivers/dbus.cpp"])
DBUS_INV = ["TypeOK", "NoneStuck", "NeverInline", "NeverEarly"]
DBUS_KINDS = {"msg", "msgwait", "typed", "typedwait"}


def c24(tier):
    run = dict(spec="DBus", inv=DBUS_INV, ordered=False)
    base = dict(N=2, C=1, Ways={"net"}, Kinds=DBUS_KINDS, Outcomes={"ok", "error", "wrong"}, MaxRounds=3, Races=False)
    q = [dict(run, consts=base, inits=[dict(n=2)], budget=15),
         dict(run, consts=dict(base, Races=True, MaxRounds=2, Outcomes={"ok", "error"}), inits=[dict(n=2)], budget=12),
         dict(run, consts=dict(base, C=2, Kinds={"msg", "msgwait", "typedwait", "msgthen"}, Outcomes={"ok"}), inits=[dict(n=2)], budget=12),
         dict(run, consts=dict(base, C=1, Ways={"completed", "failed", "null"}, Kinds=DBUS_KINDS | {"msgthen"}), inits=[dict(n=2, offline=True)], budget=5)]
    if tier == "quick":
        return q
    return [dict(q[0], consts=dict(base, N=3, MaxRounds=4), inits=[dict(n=3)], budget=200),
            dict(q[1], consts=dict(q[1]["consts"], N=3, MaxRounds=3), inits=[dict(n=3)], budget=200),
            dict(q[2], consts=dict(q[2]["consts"], Races=True, MaxRounds=4, Outcomes={"ok", "error"}), budget=200),
            q[3]]


QML = ("qmltask", ["core", "qml"], ["vt.cpp", "drivers/qmltask.cpp"])
QML_TYPES = ["variant", "string", "int", "void", "future", "custom", "awaiter", "awaitable", "lazy"]


def c25(tier):
    run = dict(spec="QmlTask", inv=["TypeOK", "AllTold", "NoneTold"], props=["Once"], ordered=False)
    base = dict(N=2, Modes={"plain"}, Ivs={0, 2}, MaxHandles=1, Ops={"then", "await"})
    inits = lambda n: [dict(n=n, type=t) for t in QML_TYPES]
    q = [dict(run, consts=dict(base, Ops={"then", "await", "forget"}), inits=inits(2), budget=15),
         dict(run, consts=dict(base, Modes={"plain", "nest", "throw", "drop"}, MaxHandles=2, Ops={"then"}), inits=inits(2), budget=15, passes=2),
         dict(run, consts=dict(base, N=1, MaxHandles=3, Ops={"then", "await", "engine", "forget", "misuse"}), inits=inits(1), budget=15, passes=2)]
    if tier == "quick":
        return q
    return [dict(q[0], consts=dict(q[0]["consts"], N=3), inits=inits(3), budget=250),
            dict(q[1], consts=dict(q[1]["consts"], N=3), inits=inits(3), budget=250),
            dict(q[2], consts=dict(q[2]["consts"], N=2), inits=inits(2), budget=250)]


IMG = ("imageprovider", ["core", "quick"], ["vt.cpp", "drivers/imageprovider.cpp"])


def c26(tier):
    run = dict(spec="ImageProvider", inv=["TypeOK", "Once"], props=["OnceOnly"], ordered=True)
    base = dict(N=2, Ids={1, 2}, Sizes={3}, Hows={"later", "ok", "failed", "odd", "mute", "null"})
    q = [dict(run, consts=base, inits=[dict(n=2)], budget=15),
         dict(run, consts=dict(base, N=1, Ids={1, 2, 3}, Sizes={1, 2, 4, 5, 6}), inits=[dict(n=1)], budget=15),
         dict(run, consts=dict(base, N=3, Ids={5}, Sizes={1}), inits=[dict(n=3)], budget=15)]
    if tier == "quick":
        return q
    return [q[1], dict(run, consts=dict(base, N=3, Sizes={1, 4}, Ids={1}), inits=[dict(n=3)], budget=200),
            dict(run, consts=dict(base, N=4, Ids={5}, Sizes={1}), inits=[dict(n=4)], budget=300)]


MACROS = ("testmacros", ["core", "test"], ["vt.cpp", "drivers/testmacros.cpp"])
M_CHECKS = {"verify", "verify2", "compareint", "comparestr", "comparerhs", "test"}
M_TRIES = {"tryverify", "tryverifyt", "tryverify2", "tryverify2t", "trycompare", "trycomparet"}


def try_probe(ctx, chk, r):
    """The retrying macros have to compile as documented. The one reason known why they do not is a finding."""
    import build, check
    try:
        build.build("tryprobe", ["test"], ["drivers/tryprobe.cpp"])
    except build.BuildError as e:
        errs = [l for l in str(e).splitlines() if "error:" in l]
        for k in check.known_findings("C27"):
            if errs and all(k["undeclared"] in l for l in errs):
                ctx.known.append(k["what"])
                return
        if any("qcorotest.h:" in l or "tryprobe.cpp:" in l for l in errs):
            ctx.violation("QCORO_TRY_* do not compile: " + errs[0], {"kind": "compile", "errors": errs})
        else:
            raise


def c27(tier):
    probe = dict(fn=try_probe)
    run = dict(spec="TestMacros", inv=["TypeOK", "LeftMeans", "NothingHidden"])
    full = dict(Checks=M_CHECKS, Tries=M_TRIES, Throws={"throws", "thrown"}, Misc={"fail", "skip", "expect"}, MaxLen=2)
    q = [dict(run, consts=full, inits=[{}], budget=40, passes=2),
         dict(run, consts=dict(full, MaxLen=4), inits=[{}], budget=30)]
    if tier == "quick":
        return [probe] + q
    return [probe, dict(run, consts=full, inits=[{}], budget=60),
            dict(run, consts=dict(full, MaxLen=6), inits=[{}], budget=300, passes=4, walks=2000)]


CHECKS = {
    "C27": dict(driver=MACROS, runs=c27, header="qcorotest.h"),
    "C26": dict(driver=IMG, runs=c26),
    "C25": dict(driver=QML, runs=c25),
    "C24": dict(driver=DBUS, runs=c24),
}
