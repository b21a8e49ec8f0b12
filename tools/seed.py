#!/usr/bin/env python3
"""Planted changes: create, confirm and run the checks against them, in scratch copies of /repo.

  seed.py new SPEC.py [ID...]   create seeded/<id> from a Python file defining SEEDS, then confirm and check
  seed.py confirm ID...         builds, stable tests pass, demo passes without and fails with the patch
  seed.py check ID...           runs the property's quick check against the patch; prints CAUGHT / MISSED
The scratch copy is bind-mounted over /repo in a private mount namespace; /repo itself is never touched.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.environ.get("SEEDED", "seeded")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def ns(copy, script, timeout=1500):
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {script}"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout,
                       env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
    return r.returncode, r.stdout.decode("latin-1")


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["cp", "-a", os.environ.get("SRC", "/repo"), d + "/repo"], check=True)
    return d


DEMO = """#!/bin/sh
# exit 0 iff the behaviour is right; run in /repo after the build
export PATH="$PWD/_build/inst/bin:$PATH"
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cd "$d" || exit 2
"""


def make(s):
    d = f"{V}/{SD}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    t = copy()
    try:
        for f, old, new in s["edits"]:
            p = f"{t}/repo/{f}"
            x = open(p, encoding="latin-1", newline="").read()
            assert x.count(old) == 1, (s["id"], f, x.count(old), old)
            open(p, "w", encoding="latin-1", newline="").write(x.replace(old, new))
        diff = subprocess.run(["git", "-C", f"{t}/repo", "diff"], stdout=subprocess.PIPE).stdout
        open(f"{d}/patch.diff", "wb").write(diff)
    finally:
        shutil.rmtree(t)
    for n, body in s.get("files", {}).items():
        open(f"{d}/{n}", "w").write(body)
    if "sml" in s:
        open(f"{d}/t.sml", "w").write(s["sml"])
        s["demo"] = ('cp "$here/t.sml" . && mosmlc -toplevel t.sml -o t >log 2>&1 || { cat log; exit 1; }\n'
                     'out=$(timeout 100 ./t 2>&1); echo "$out"; [ "$out" = "OK" ]\n')
    open(f"{d}/demo.sh", "w").write(DEMO + s["demo"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(f"{d}/meta.json", "w"), indent=1)


def confirm(i):
    d = f"{V}/{SD}/{i}"
    t = copy()
    try:
        c = f"{t}/repo"
        demo = f"{t}/demo"
        shutil.copytree(d, demo)
        rc, o = ns(c, f"bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 sh {demo}/demo.sh")
        if rc != 0:
            return f"{i}: demo fails on the unchanged tree: {o[-600:]}"
        rc, o = ns(c, f"git apply {d}/patch.diff && bash /opt/vp/test.sh {t}/r.json 2>&1")
        if not os.path.exists(f"{t}/r.json"):
            return f"{i}: tests did not run: {o[-1500:]}"
        lost = BASE - set(json.load(open(f"{t}/r.json"))["passed"])
        if lost:
            return f"{i}: stable tests fail: {sorted(lost)[:6]} ({len(lost)})"
        rc, o = ns(c, f"timeout 300 sh {demo}/demo.sh")
        if rc == 0:
            return f"{i}: demo passes with the patch: {o[-600:]}"
        return f"{i}: confirmed (demo rc {rc}: {o.strip()[-200:]!r})"
    finally:
        shutil.rmtree(t)


def check(i, tier="quick", prop=None):
    d = f"{V}/{SD}/{i}"
    p = prop or json.load(open(f"{d}/meta.json"))["property"]
    t = copy()
    try:
        rc, o = ns(f"{t}/repo", f"git apply {d}/patch.diff && cd {V} && VF_EVIDENCE={t}/ev bin/check {p} {tier}")
        hit = rc == 1 and f"VIOLATION property={p}" in o
        ls = [l for l in o.split("\n") if l.startswith("  ") or "ERROR" in l][:2]
        return f"{i}: {'CAUGHT' if hit else 'MISSED'} by {p} (rc {rc}) {' | '.join(ls)[:300]}" + ("" if rc in (0, 1) else o[-800:])
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        g = {}
        exec(open(args[0]).read(), g)
        ids = []
        for s in g["SEEDS"]:
            if len(args) == 1 or s["id"] in args[1:]:
                try:
                    make(s); ids.append(s["id"])
                except Exception as e:
                    print(s["id"], "NOT MADE", e)
        with ThreadPoolExecutor(4) as ex:
            ok = []
            for i, r in zip(ids, ex.map(confirm, ids)):
                print(r, flush=True)
                if ": confirmed" in r:
                    ok.append(i)
        for i in ok:
            print(check(i), flush=True)
    elif cmd == "confirm":
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(confirm, args):
                print(r, flush=True)
    elif cmd == "check":
        for i in args or sorted(os.listdir(f"{V}/{SD}")):
            print(check(i), flush=True)
    elif cmd == "thorough":
        for i in args:
            print(check(i, "thorough"), flush=True)
