#!/usr/bin/env python3
"""sensitivity.py [IDs]: does the specification reject wrong executions?

Takes the traces the last run of each check recorded (work/ID/), corrupts one call in each of many copies of programs
(one component of its result changed, two exchanged, one dropped, the outcome flipped between result and panic), and
reports per operation how many of the corrupted calls the specification rejects, with examples of accepted ones.
For C01 an event is deleted, doubled or given another element.  Reads /verif only; writes work/sensitivity/.
"""
import copy, json, os, random, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
import check
from props import PROPS

def leaves(x, path=()):
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path

def get(x, path):
    for i in path:
        x = x[i]
    return x

def put(x, path, v):
    if not path:
        return v
    get(x, path[:-1])[path[-1]] = v
    return x

def wrong(L, v, rnd):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        lane = json.dumps(L)
        if '"fx"' in lane:
            return v + rnd.choice([-1, 1]) * rnd.randint(2000, 9000)
        if '"p"' in lane:
            return v + 1 if rnd.random() < .5 else max(0, v - 1) if v else 1
        return v + rnd.choice([-1, 1])
    if isinstance(v, str):
        return v + "x"
    return 0

def corrupt(L, e, mode, rnd):
    e = copy.deepcopy(e)
    if mode == "outcome":
        e["ok"] = not e["ok"]
        if not e["ok"]:
            e["r"] = 0
        return e
    if not e["ok"]:
        return None
    ls = list(leaves(e["r"]))
    if mode == "value":
        if not ls:
            return None
        q = rnd.choice(ls)
        e["r"] = put(e["r"], q, wrong(L, get(e["r"], q), rnd))
        return e
    if mode == "swap":
        for _ in range(10):
            if len(ls) < 2:
                return None
            a, b = rnd.sample(ls, 2)
            x, y = get(e["r"], a), get(e["r"], b)
            if type(x) is type(y) and x != y and not ('"fx"' in json.dumps(L) and isinstance(x, int) and abs(x - y) < 2000):
                put(e["r"], a, y)
                put(e["r"], b, x)
                return e
        return None
    if mode == "drop":
        if not isinstance(e["r"], list) or not e["r"]:
            return None
        if isinstance(e["r"][0], list) and rnd.random() < .5:
            e["r"] = [x[:-1] if isinstance(x, list) else x for x in e["r"]]
        else:
            e["r"] = e["r"][:-1]
        return e

def run(pid, rnd, per=12):
    work = os.path.join(V, "work", pid)
    out = os.path.join(V, "work", "sensitivity", pid)
    os.makedirs(out, exist_ok=True)
    spec = PROPS[pid].get("trace", "Trace")
    total, cases, meta = {}, [], []
    for f in sorted(os.listdir(work)):
        if not f.endswith("-0.ndjson"):
            continue
        progs = [check.parse(l) for l in open(os.path.join(work, f), errors="replace")]
        rnd.shuffle(progs)
        for pr in progs:
            ev = pr["ev"]
            order = list(range(len(ev)))
            rnd.shuffle(order)
            if spec == "TraceOwn":
                for i in order[:2]:
                    e = ev[i]
                    mode = rnd.choice(["delete", "double", "other"])
                    new = copy.deepcopy(ev)
                    if e[0] == 6 or e[0] == 3 or (mode == "other" and e[0] not in (2, 4, 5)):
                        continue
                    if mode == "delete" and e[0] in (8, 9):
                        continue
                    if mode == "delete":
                        del new[i]
                    elif mode == "double":
                        new.insert(i, copy.deepcopy(e))
                    else:
                        new[i][1] = e[1] + 1
                    if pr.get("panicked") or any(x[0] == 9 for x in ev):
                        continue
                    key = (mode, str(e[0]))
                    if total.get(key, 0) < 60:
                        total[key] = total.get(key, 0) + 1
                        cases.append(dict(id=pr["id"], L=pr["L"], ev=new))
                        meta.append((key, dict(at=i, event=e)))
                continue
            done = 0
            for i in order:
                e = ev[i]
                if e["op"][0] == "load":
                    continue
                for mode in ("value", "swap", "drop", "outcome"):
                    kh = e["k"][0] if isinstance(e["k"], list) and e["k"] and isinstance(e["k"][0], str) else ""
                    key = (mode, ".".join(e["op"]), str(kh), pr["L"][0] if pr["L"] else "")
                    if total.get(key, 0) >= (per if mode != "drop" or e["op"][0] in "tnd" else 1):
                        continue
                    c = corrupt(pr["L"], e, mode, rnd)
                    if c is None or c["r"] == e["r"] and c["ok"] == e["ok"]:
                        continue
                    total[key] = total.get(key, 0) + 1
                    cases.append(dict(id=pr["id"], L=pr["L"], ev=ev[:i] + [c]))
                    meta.append((key, c))
                    done += 1
                if done >= 8:
                    break
    # one TLC run per batch; a batch in which TLC cannot compare the corrupted result with the expected one is split
    rejected = set()
    def judge(idx):
        f = os.path.join(out, "s.ndjson")
        open(f, "w").write("".join(json.dumps(cases[i]) + "\n" for i in idx))
        t = check.Tlc(spec, spec + ".cfg", out, 8, env={"TRACE": f})
        if not t.diverged and not t.clean or (t.rc not in (0, 12, 13) and not t.clean and t.distinct == 0):
            if len(idx) == 1:
                rejected.add(idx[0])
                return
            h = len(idx) // 2
            judge(idx[:h])
            judge(idx[h:])
            return
        bad = any(m in t.out for m in ("Attempted to", "In applying the function", "unable to fingerprint", "in the domain", "evaluating", "Reason:"))
        if bad and len(idx) > 1:
            h = len(idx) // 2
            judge(idx[:h])
            judge(idx[h:])
            return
        if bad:
            rejected.add(idx[0])
        for d in t.diverged:
            rejected.add(idx[d["prog"] - 1])
    idx = list(range(len(cases)))
    for lo in range(0, len(idx), 4000):
        judge(idx[lo:lo + 4000])
    acc = {}
    for i, (key, c) in enumerate(meta):
        a = acc.setdefault(key, [0, 0, None])
        a[1] += 1
        if i not in rejected:
            a[0] += 1
            a[2] = a[2] or dict(c=c, id=cases[i]["id"], ev=cases[i]["ev"] if len(json.dumps(cases[i])) < 1500 else "long")
    n = len(cases)
    print("%s corrupted calls %d, rejected %d (%.1f%%)" % (pid, n, len(rejected), 100 * len(rejected) / max(1, n)), flush=True)
    for key in sorted(acc):
        if acc[key][0]:
            print("   accepted %d/%d %s e.g. %s" % (acc[key][0], acc[key][1], "/".join(key), json.dumps(acc[key][2])[:700]))

for pid in sys.argv[1:] or PROPS:
    run(pid, random.Random(1))
