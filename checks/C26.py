"""C26: dates and times are what specs/Cal.tla determines."""
import re
import vf

DAYS = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
NODST = {"from": {"m": 1, "w": 1, "d": 0, "t": 0}, "to": {"m": 1, "w": 1, "d": 0, "t": 0}}


def rule(m, w, d, t):
    return {"m": m, "w": w, "d": d, "t": t}


ZONES = [("UTC0", {"std": 0, "dst": 0, "has": False, **NODST}),
         ("CET-1CEST,M3.5.0,M10.5.0/3", {"std": 3600, "dst": 7200, "has": True, "from": rule(3, 5, 0, 7200), "to": rule(10, 5, 0, 10800)}),
         ("EST5EDT,M3.2.0,M11.1.0", {"std": -18000, "dst": -14400, "has": True, "from": rule(3, 2, 0, 7200), "to": rule(11, 1, 0, 7200)}),
         ("IST-5:30", {"std": 19800, "dst": 19800, "has": False, **NODST}),
         ("AEST-10AEDT,M10.1.0,M4.1.0/3", {"std": 36000, "dst": 39600, "has": True, "from": rule(10, 1, 0, 7200), "to": rule(4, 1, 0, 10800)}),
         ("NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01", {"std": -12600, "dst": -9000, "has": True, "from": rule(3, 2, 0, 60), "to": rule(11, 1, 0, 60)}),
         ("MHT-12", {"std": 43200, "dst": 43200, "has": False, **NODST}),
         ("HST10", {"std": -36000, "dst": -36000, "has": False, **NODST})]


def hx(s):
    return s.encode("latin-1").hex() or "-"


def sml(n):
    return str(n).replace("-", "~")


def t2(us):
    return [us // 10 ** 6, us % 10 ** 6]


def num(w):
    return int(w.replace("~", "-"))


def moment(r):
    """Seconds since 1970, some near the edges of years, months and days."""
    import calendar
    k = r.random()
    y = r.choice([1970, 1971, 1972, 1999, 2000, 2004, 2024, 2026, 2036, 2037]) if r.random() < .6 else r.randint(1970, 2037)
    if k < .35:
        return calendar.timegm((y, r.randint(1, 12), r.choice([1, 28]), 0, 0, 0)) + r.choice([0, -1, 1, 86400, 86399, 2 * 86400, 3 * 86400]) + r.choice([0, r.randrange(-50000, 50000)])
    if k < .7:      # the days on which zones change
        m, d = r.choice([(3, 8), (3, 14), (3, 25), (3, 31), (10, 1), (10, 7), (10, 25), (10, 31), (11, 1), (11, 7), (4, 1), (4, 7)])
        return calendar.timegm((y, m, d, 0, 0, 0)) + r.randrange(-86400, 2 * 86400)
    if k < .8:      # what does not fit 32 bits
        return r.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32, r.randrange(2 ** 31, 2 ** 33), r.randrange(2 ** 31, 10 ** 11)])
    return r.randrange(0, 2 ** 31 - 1) if k < .95 else r.choice([0, 1, 59, 60, 3599, 3600, 86399, 86400, 2 ** 31 - 2])


FMT = "aAbBcdHIjmMpSUwWxXyY%"


def text(r):
    """A text for Date.scan, the fields it has, and what is left of it."""
    f = {"y": r.choice([1900, 1970, 1999, 2000, 2024, 2037, 2038, 9999, r.randint(1900, 3000)]), "m": r.randint(1, 12), "d": r.choice([1, 9, 10, 28, 29, 30, 31]),
         "h": r.choice([0, 23, 12, r.randint(0, 23)]), "mi": r.choice([0, 59, r.randint(0, 59)]), "s": r.choice([0, 59, 60, 61, r.randint(0, 59)]), "wday": r.randint(0, 6)}
    s = f"{DAYS[f['wday']]} {MONTHS[f['m'] - 1]} {f['d']:2d} {f['h']:02d}:{f['mi']:02d}:{f['s']:02d} {f['y']}"
    bad = r.random() < .2
    if bad:
        s = r.choice([lambda: s.replace(DAYS[f["wday"]], r.choice(["", "Sux", "sun", "Sunday", "7"])), lambda: s.replace(MONTHS[f["m"] - 1], r.choice(["", "Mai", "JAN", "June", "12"])),
                      lambda: s[:r.choice([0, 3, 5, 8, 11, 14, 17, 19])], lambda: s.replace(":", ";"), lambda: s[:4] + "x" + s[4:]])()
        if s.startswith("Mai") or not s:
            s = "x"
    tail = r.choice(["", "", " ", "x", "\n", " 12", ":30", " Mon"])
    return f, r.choice(["", "", " ", "\t\n "]) + s + ("" if bad else tail), len(tail), bad


def hist(r, n):
    evs, made = [], {}

    def add(line, **ev):
        evs.append((line, ev))
    for k in range(8):      # the slots, which outlive a history
        t = moment(r)
        add(f"univ {k} {t * 10 ** 6}", op="univ", k=k, w=list(divmod(t, 86400)))
    for _ in range(4):      # the first and last days of years and months, with every directive
        y, (m, d), k = r.choice([1996, 1999, 2000, 2004, 2023, 2024, 2027, 2028, 2032, 1900, 2100, 2400, r.randint(1960, 2045)]), r.choice([(12, 31), (12, 31), (1, 1), (2, 28), (2, 29), (3, 1), (12, 30), (1, 7), (6, 30)]), r.randrange(8)
        hh, s = r.choice([0, 11, 12, 13, 23]), r.choice([0, 59])
        add(f"date {k} {y} {m} {d} {hh} 59 {s} none", op="date", k=k, y=y, m=m, d=d, h=hh, mi=59, s=s, off="none", west=0)
        f = "%j %U %W %w %a %A %b %B %d %m %y %Y %H %I %p %M %S"
        add(f"fmt {k} {hx(f)}", op="fmt", k=k, f=list(f.encode()))
        add(f"str {k}", op="str", k=k)
    for _ in range(n):
        op = r.choice(["date"] * 6 + ["univ", "local", "local", "totime", "totime", "str", "fmt", "fmt", "cmp", "scan", "scan", "fromstr", "localoff", "now",
                       "tbin", "tbin", "tconv", "tconv", "tunits", "tfmt", "tfmt", "tscan", "tscan"])
        k = r.randrange(8)
        if op == "date":
            w = r.random()
            y = r.choice([1970, 1999, 2000, 1900, 2100, 2024, 2037, 2038, 1, 400, 3000]) if r.random() < .5 else r.randint(1960, 2045)
            y = -1 if r.random() < .02 else 0 if r.random() < .02 else y
            m, d, h, mi, s = r.randint(1, 12), r.choice([1, 28, 29, 30, 31, r.randint(1, 31)]), r.choice([0, 1, 2, 3, 23, r.randint(0, 23)]), r.choice([0, 30, 59]), r.choice([0, 59, 30])
            if w < .35:
                d, h, mi, s = [r.choice([x, r.randrange(-50, 50), r.randrange(-400, 800), r.randrange(-10 ** 5, 10 ** 5)]) for x in (d, h, mi, s)]
                d = d if r.random() < .7 else r.choice([0, -1, 365, 366, 367, 1461, 36524, 146097, -306, -30])
                s = s if r.random() < .7 else r.choice([60, 86400, -1, 10 ** 9, -10 ** 9, 3600])
            elif w < .55:      # around the changes of time
                y = r.randint(1970, 2037)
                m, d = r.choice([(3, r.randint(8, 14)), (3, r.randint(25, 31)), (10, r.randint(1, 7)), (10, r.randint(25, 31)), (11, r.randint(1, 7)), (4, r.randint(1, 7))])
                h = r.choice([0, 1, 2, 3])
                mi, s = r.choice([(0, 0), (59, 59), (0, 30), (1, 0), (30, 0)])
            off = "none" if r.random() < .5 else r.choice([0, 3600, 18000, 43199, 43200, 43201, 82800, 86399, 86400, 90000, 172800, 180000, 133200, 300000, 10 ** 6, -3600, -43199, 12345])
            add(f"date {k} {sml(y)} {m} {sml(d)} {sml(h)} {sml(mi)} {sml(s)} {off if off == 'none' else sml(off)}",
                op=op, k=k, y=y, m=m, d=d, h=h, mi=mi, s=s, off="none" if off == "none" else "some", west=0 if off == "none" else off)
        elif op in ("univ", "local"):
            us = moment(r) * 10 ** 6
            us += r.choice([0, 0, 1, 999999, 500000]) if us < 2 ** 52 else 0      # a time is a real: microseconds up to 2^53
            if op == "univ" and r.random() < .1:
                us = -r.randrange(1, 2 * 10 ** 9) * 10 ** 6
            us = us if op == "univ" or us >= 0 else -us
            if us < 0:
                us -= us % 10 ** 6
            add(f"{op} {k} {sml(us)}", op=op, k=k, w=list(divmod(us // 10 ** 6, 86400)))
        elif op in ("totime", "str"):
            add(f"{op} {k}", op=op, k=k)
        elif op == "fmt":
            f = "".join(r.choice(["%" + r.choice(FMT)] * 4 + ["-", " ", "x", "\xe6"]) for _ in range(r.choice([1, 2, 3, 5, 8])))
            if r.random() < .06:
                f = f + "z" * r.choice([200, 230, 250, 255, 260])
            add(f"fmt {k} {hx(f)}", op=op, k=k, f=list(f.encode("latin-1")))
        elif op == "cmp":
            j = r.randrange(8)
            add(f"cmp {k} {j}", op=op, k=k, j=j)
        elif op in ("scan", "fromstr"):
            f, s, rest, bad = text(r)
            add(f"{op} {k} {hx(s)}", op=op, k=k, want=f, rest=rest, bad=bad)
        elif op in ("localoff", "now"):
            add(op, op=op)
        elif op == "tbin":
            a, b = (r.choice([r.randrange(-10 ** 15, 10 ** 15), r.randrange(-10 ** 7, 10 ** 7), 0, 1, -1, 999999, 10 ** 6]) for _ in "ab")
            b = a + r.choice([0, 1, -1]) if r.random() < .3 else b
            add(f"tbin {sml(a)} {sml(b)}", op=op, a=t2(a), b=t2(b))
        elif op in ("tconv", "tfmt"):
            a = r.choice([r.randrange(-2 * 10 ** 15, 2 * 10 ** 15), r.randrange(-10 ** 7, 10 ** 7), 0, 1, -1, -999, 999, 1000, -1000, 999999, -999999, 999500, 1999999, 9999995, 500, 1500, -500000, 500000])
            if op == "tconv":
                add(f"tconv {sml(a)}", op=op, a=t2(a))
            else:
                p = r.choice([-1, 0, 1, 2, 3, 4, 5, 6])
                add(f"tfmt {sml(p)} {sml(a)}", op=op, p=p, a=t2(a))
        elif op == "tunits":
            s = r.choice([r.randrange(-2 * 10 ** 9, 2 * 10 ** 9), r.randrange(-10 ** 4, 10 ** 4), 0, 1, -1])
            add(f"tunits {sml(s)}", op=op, s=t2(s * 10 ** 6), ms=t2(s * 1000), us=t2(s))
        elif op == "tscan":
            s = r.choice(["", "", " ", "\n\t "]) + r.choice(["", "", "+", "~", "-", "~ ", "--"])
            s += r.choice(["", "0", "1", "12", "007", "123456789", str(r.randrange(10 ** 9))]) + r.choice(["", "", ".", ".5", ".25", ".000001", ".999999", ".123456", ".1234567", ".9999999", ".00000149", ".123456789012", ".x", "..5"])
            s += r.choice(["", "", "", " ", "x", "e5", ".", "\xff"])
            add(f"tscan {hx(s)}", op=op, s=list(s.encode("latin-1")))
    return evs


def fixed(w):
    m = re.fullmatch(r"(~?)(\d+)(?:\.(\d+))?", w)
    return {"neg": m[1] == "~", "s": int(m[2]), "f": int(m[3] or 0)}, len(m[3] or "")


def date(w):
    n = [num(x) for x in w[:8]]
    return {**dict(zip(("y", "m", "d", "h", "mi", "s", "wday", "yday"), n)), "dst": w[8], "off": w[9], "west": 0 if w[9] == "none" else num(w[9])}


def read(e, o):
    """The reply as the specification has it."""
    op, w = e["op"], o.split(" ")
    if o in ("Date", "Time", "Overflow", "Fail", "Subscript", "Size", "?"):
        return {"ex": o}
    if op in ("date", "univ", "local"):
        return {"ex": "", "d": date(w)}
    if op in ("scan", "fromstr"):
        return {"ex": "NONE"} if o == "NONE" else {"ex": "", "rest": num(w[0]), "d": date(w[1:])}
    if op == "totime":
        n, f = divmod(num(o), 10 ** 6)
        return {"ex": "", "w": list(divmod(n, 86400)), "us": f}
    if op == "localoff":
        return {"ex": "", "t": t2(num(o))}
    if op in ("str", "fmt"):
        return {"ex": "", "s": list(bytes.fromhex(o[1:].replace("-", "")))}
    if op == "cmp":
        return {"ex": "", "r": o}
    if op == "now":
        return {"b": w[0]}
    if op == "tbin":
        return {"sum": t2(num(w[0])), "diff": t2(num(w[1])), "cmp": w[2], "r": w[3]}
    if op == "tconv":
        s, ms = num(w[0]), num(w[1])
        f, n = fixed(w[4])
        if n != 3:
            raise ValueError
        return {"sec": [s < 0, abs(s)], "ms": [ms < 0, abs(ms) // 1000, abs(ms) % 1000], "us": t2(num(w[2])), "b": w[3], "str": f}
    if op == "tunits":
        return {"s": t2(num(w[0])), "ms": t2(num(w[1])), "us": t2(num(w[2]))}
    if op == "tfmt":
        f, n = fixed(o)
        if n != max(0, e["p"]):
            raise ValueError
        return {"str": f}
    if op == "tscan":
        return {"ex": "NONE", "b": w[1]} if w[0] == "NONE" else {"ex": "", "t": t2(num(w[0])), "rest": num(w[1]), "b": w[2]}
    raise ValueError


def check(c):
    ins = vf.build()
    c.add_model("CalMC", vf.tlc("CalMC", cfg=vf.scale("CalMC", "CalMCbig"), timeout=1500))
    exe = vf.driver(ins, "date")
    n = vf.scale(10, 150)

    def go(i):
        r = vf.rng("C26", i)
        hs = [hist(r, 120) for _ in range(n)]
        return hs, vf.feed(ins, exe, [l for h in hs for l, _ in h], TZ=ZONES[i][0])
    traces = []
    for i, (hs, (out, bad)) in enumerate(vf.pmap(go, list(range(8)))):
        it = iter(out)
        for h in hs:
            t = [{"op": "zone", "zone": ZONES[i][1]}]
            for l, e in h:
                o = next(it, None)
                if o is None:
                    break
                try:
                    t.append(dict(e, o=read(e, o)))
                except (ValueError, IndexError, TypeError):
                    c.violation(f"no proper answer to '{l}': {o[:200]}", {"zone": ZONES[i][0], "commands": [a for a, _ in h], "command": l, "answer": o}, key=e["op"])
                    break
            traces.append(t)
            if len(t) < len(h) + 1:
                for _ in range(len(h) - len(t)):
                    next(it, None)
        if bad or len(out) != sum(map(len, hs)):
            c.violation(f"driver {i}: {bad or 'wrong number of replies'}", {"job": i, "replies": len(out)})
    rej, states = vf.tlc_traces("CalTrace", traces, timeout=900, parts=8)
    c.add_traces("dates and times", len(traces), states, sum(map(len, traces)))
    c.sample({"history": traces[0][:4]})
    vf.explain(c, traces, rej, "not what the calendar gives", keyf=lambda h, l: h[l]["op"])
