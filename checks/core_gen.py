"""Generator and AsyncGenerator."""
GEN = ("generator", ["core"], ["vt.cpp", "drivers/generator.cpp"])


def gen_inits(ns, ni):
    res = []
    for k, (t, temp) in enumerate([("int", 0), ("int", 1), ("int&", 0), ("constint", 0), ("constint", 1), ("constqstring&", 0),
                                   ("constqstring&", 1), ("qstring", 0), ("qstring", 1), ("string&", 0), ("counted", 0),
                                   ("counted", 1), ("nodefault&", 0), ("moveonly", 1), ("moveonly", 0)]):
        res.append(dict(ns=ns, ni=ni, type=t, temp=bool(temp), odd=bool(k % 2)))
    # wrap: through a generator that passes on what another one yields
    return res + [dict(res[k], wrap=True) for k in (0, 2, 10, 13)]


GEN_INV = ["TypeOK", "Owned", "NotOwnedGone", "Lazy"]


def c05(tier):
    ops = {"loop", "null", "move"}
    q = [dict(spec="Generator", consts=dict(NC=2, NS=2, NI=1, MaxLen=2, Ops=ops), inv=GEN_INV, inits=gen_inits(2, 1), budget=25)]
    if tier == "quick":
        return q
    return [dict(q[0], passes=3, budget=100),
            dict(spec="Generator", consts=dict(NC=3, NS=2, NI=2, MaxLen=2, Ops=ops), inv=GEN_INV, inits=gen_inits(2, 2), budget=400),
            dict(spec="Generator", consts=dict(NC=1, NS=2, NI=1, MaxLen=6, Ops=ops), inv=GEN_INV, inits=gen_inits(2, 1), budget=60)]


AGEN = ("asyncgenerator", ["core"], ["vt.cpp", "drivers/asyncgenerator.cpp"])
AGEN_INV = ["TypeOK", "OneWaiter", "Owned", "Lazy"]


def agen_inits(nc, ns, nk):
    # wrap: through a generator that passes on what another one yields; hop: the body suspends in a Task it awaits
    return [dict(nc=nc, ns=ns, nk=nk, type=t, temp=bool(temp), odd=bool(k % 2), wrap=k >= 10, hop=k % 3 == 2) for k, (t, temp) in enumerate(
        [("int", 0), ("int", 1), ("qstring", 0), ("counted", 0), ("counted", 1), ("moveonly", 0), ("moveonly", 1),
         ("constqstring", 0), ("constqstring", 1), ("int&", 0), ("counted", 0), ("int", 1), ("moveonly", 0)])]


def c06(tier):
    ops = {"loop", "null", "move"}
    q = [dict(spec="AsyncGenerator", consts=dict(NC=2, NS=2, NK=1, MaxLen=2, Ops=ops), inv=AGEN_INV, inits=agen_inits(2, 2, 1), budget=25),
         dict(spec="AsyncGenerator", consts=dict(NC=2, NS=2, NK=2, MaxLen=1, Ops={"loop", "give"}), inv=AGEN_INV, inits=agen_inits(2, 2, 2), budget=15),
         dict(spec="AsyncGenerator", consts=dict(NC=1, NS=1, NK=1, MaxLen=4, Ops={"loop"}), inv=AGEN_INV, inits=agen_inits(1, 1, 1), budget=10)]
    q.append(dict(spec="AsyncGenerator", consts=dict(NC=1, NS=1, NK=2, MaxLen=4, Ops={"give"}), inv=AGEN_INV, inits=agen_inits(1, 1, 2), budget=10))
    if tier == "quick":
        return q
    return [q[3], dict(spec="AsyncGenerator", consts=dict(NC=1, NS=1, NK=3, MaxLen=5, Ops={"give", "loop", "move"}), inv=AGEN_INV, inits=agen_inits(1, 1, 3), budget=100),
            dict(q[0], passes=3, budget=100), dict(q[2], passes=9, budget=100),
            dict(spec="AsyncGenerator", consts=dict(NC=2, NS=2, NK=2, MaxLen=2, Ops={"loop", "move"}), inv=AGEN_INV, inits=agen_inits(2, 2, 2), budget=400)]


CHECKS = {"C05": dict(driver=GEN, runs=c05), "C06": dict(driver=AGEN, runs=c06)}
