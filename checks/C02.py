"""C02: weak pointers. Specs: GC (with weak blocks, exhaustive), Heap (weak arrays), GCSnap."""
import os
import vf, heapcheck
from concurrent.futures import ThreadPoolExecutor


def storm(r, n):
    """Values dropped while weakly referenced, read back through the weak array at every distance, kept and looked at later."""
    evs = []
    ev = lambda op, R=0, a=0, b=0, n=0, m=0: evs.append(dict(op=op, r=R, a=a, b=b, n=n, m=m, out=[], idx=[]))
    ev("int", 5)
    big = r.random() < .2
    ev("wbig" if big else "warr", 0, n=3)

    def advance(k):
        for _ in range(k):
            ev(*r.choice([("churn", 0, 0, 0, 1), ("churn", 0, 0, 0, 5), ("minor",), ("minor",), ("churn", 0, 0, 0, 3)]))
    while len(evs) < n:
        i = r.randrange(4)
        kind = r.choice(["ref", "pair", "arr", "big", "vec", "str"])
        if kind == "ref" and r.random() < .5:
            ev("ref", 2, 5, n=0)
        ev(kind, 1, r.choice([2, 5]), 5, r.randrange(4), r.choice([1, 9, 60]))
        ev("wset", 0, 0, 1, i)
        ev("int", 1, n=r.randrange(9))
        ev("int", 2, n=r.randrange(9))
        advance(r.choice([0, 1, 2, 3, 5, 8, 13, 20]))
        k = r.random()
        if k < .7:
            ev("wget", 3, 0, n=i)
            advance(r.choice([3, 8, 15, 25]))
            ev("dump", 0, 3)
            if r.random() < .3:
                ev("copy", 4, 3)
            ev("int", 3)
        elif k < .8:
            ev("wpay", 0, 0, n=i)
        elif k < .9:
            ev("wdead", 0, 0, n=i)
            ev("wget", 4, 0, n=i)
        else:
            ev(r.choice(["wapp", "wfoldl", "wfoldr"]), 0, 0)
        if r.random() < .05:
            ev("full")
        if r.random() < .1:
            ev("dump", 0, 4)
    return evs


def check(c):
    with ThreadPoolExecutor(2) as ex:
        ins = vf.build(extra=("intinf",))
        hsf = ex.submit(vf.tlc_generate, "HeapGen", "HeapGenW", vf.scale(200, 1500), 91)
        c.add_model("GC with weak blocks", vf.tlc("GC", "GC", workers=6))
        c.add_model("Heap", vf.tlc("HeapGen", vf.scale("HeapMCsmall", "HeapMC"), workers=4))
        hs = hsf.result()
    heapcheck.replay(c, ins, hs, "weak-array histories", heapcheck.CONFIGS, vf.scale(500, 4000))
    r = vf.rng("C02 storm")
    hs = [storm(r, r.choice([100, 200, 400])) for _ in range(vf.scale(60, 600))]
    heapcheck.replay(c, ins, hs, "weak storms", heapcheck.CONFIGS, vf.scale(100, 1000))
