#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decides one property.

  1. builds the harness against /repo's working tree,
  2. lets TLC generate the scenarios the harness has to replay (where the property has some),
  3. runs the harness, which records every call of the real code as events of programs,
  4. lets TLC check the laws of the specification (exhaustive small models) and
  5. validate every recorded program against the specification.

Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: tool error.
check.py --replay FILE : validates the program stored in a replay file again.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
SPEC = os.path.join(V, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa: E402

def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)

def env_build():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(H, "target"))
    return e

def prove(module, work):
    """tlapm on a proof: (module, number of proved obligations or 0, output)."""
    d = os.path.join(work, "proof-" + module)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, "spec"), d)
    try:
        r = subprocess.run(["tlapm", "--threads", "4", "--stretch", "5", module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1800)
        m = re.search(r"All (\d+) obligations? proved", r.stdout)
        out = r.stdout
    except (OSError, subprocess.TimeoutExpired) as e:
        m, out = None, str(e)
    shutil.rmtree(d, ignore_errors=True)
    return module, int(m.group(1)) if m else 0, out

def build(bins):
    cmd = ["cargo", "build", "--offline", "--quiet"]
    for b in bins:
        cmd += ["--bin", b]
    r = subprocess.run(cmd, cwd=H, env=env_build(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        die("the harness does not build against /repo")

def gist(out):
    return "\n".join(l for l in out.splitlines() if l.strip() and not l.startswith(("Parsing", "Semantic processing", "Linting")))[-3000:]

class Tlc:
    """One TLC run; parses its counters and its DIVERGED lines."""
    def __init__(self, module, cfg, work, workers, env=None, timeout=800, extra=()):
        self.module, self.cfg = module, cfg
        meta = os.path.join(work, "meta-" + cfg.replace(".cfg", "") + "-%d" % time.monotonic_ns())
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-Xmx6g", "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-continue",
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            self.out, self.rc = (ex.stdout or b"").decode() if isinstance(ex.stdout, bytes) else (ex.stdout or ""), -1
            self.states = self.distinct = 0
            self.diverged = []
            return
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        self.out, self.rc = r.stdout, r.returncode
        m = re.findall(r"number of states generated: ([\d,]+)()", self.out) or re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", self.out)
        self.states, self.distinct = (int(x.replace(",", "") or 0) for x in m[-1]) if m else (0, 0)
        self.diverged = []
        seen = set()
        for s in re.findall(r'^"DIVERGED (.*)"\s*$', self.out, re.M):
            s = s.replace('\\"', '"')
            if s not in seen:
                seen.add(s)
                self.diverged.append(json.loads(s))
    @property
    def clean(self):
        return self.rc == 0 and "No error has been found" in self.out

def run_harness(binary, trace, seed, scale, scen, work, timeout):
    exe = os.path.join(H, "target", "debug", binary)
    cmd = [exe, trace, str(seed), str(scale)] + ([scen] if scen else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        die("harness %s took longer than %d s" % (binary, timeout))
    if r.returncode == 0:
        return json.loads(r.stdout.strip().splitlines()[-1])
    if r.returncode == 3:
        return dict(programs=0, events=0, calls=0, unsupported=0, panics=0, hang=True)
    if r.returncode < 0:  # died from a signal inside the code under test: find the call
        pend = os.path.join(work, "pending.json")
        if os.path.exists(pend):
            os.remove(pend)
        e = dict(os.environ, VH_SYNC=pend)
        r2 = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout * 4)
        if r2.returncode < 0 and os.path.exists(pend):
            shutil.copy(pend, trace)
            return dict(programs=1, events=0, calls=0, unsupported=0, panics=0, signal=-r2.returncode)
        if -r.returncode in (4, 6, 7, 8, 11):  # memory corrupted earlier
            return dict(programs=0, events=0, calls=0, unsupported=0, panics=1, setup_panic="the harness died from signal %d" % -r.returncode)
    if r.returncode == 101:  # the code under test panicked while a driver prepared an operand with it
        e = dict(os.environ, VH_LOUD="1")
        r2 = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout * 4)
        lines = [l for l in r2.stderr.splitlines() if l.startswith("PANIC")]
        if lines:
            return dict(programs=0, events=0, calls=0, unsupported=0, panics=1, setup_panic=lines[-1])
    print(r.stdout[-2000:], r.stderr[-2000:])
    die("harness %s failed with status %d" % (binary, r.returncode))

def cut(trace, most=20_000_000):
    """Long recordings are validated in parts: (programs before the part, file)."""
    if os.path.getsize(trace) <= most:
        return [(0, trace)]
    parts, n, out = [], 0, None
    for line in open(trace, errors="replace"):
        if out is None or out.tell() > most:
            if out:
                out.close()
            parts.append((n, "%s.%d" % (trace, len(parts))))
            out = open(parts[-1][1], "w")
        out.write(line)
        n += 1
    out.close()
    return parts

def parse(line):
    try:
        return json.loads(line, strict=False)
    except ValueError:
        return dict(id="garbled", raw=line[:5000], ev=[line[:500]])

def isolate(progs, tspec, work):
    """The first program on which TLC cannot evaluate the specification."""
    def bad(part):
        f = os.path.join(work, "part.ndjson")
        open(f, "w").write("\n".join(part) + "\n")
        t = Tlc(tspec, tspec + ".cfg", work, 8, env={"TRACE": f})
        return bool(t.diverged) or not t.clean
    lo, hi = 0, len(progs)
    if not bad(progs):
        return []
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if bad(progs[lo:mid]):
            hi = mid
        elif bad(progs[mid:hi]):
            lo = mid
        else:
            return []
    return [dict(prog=lo + 1, ev=len(parse(progs[lo])["ev"]))]

def known_findings(pid):
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    if args and args[0] == "--build":
        build(sorted({b for p in PROPS.values() for b in p.get("bins", [])}))
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    work = os.path.join(V, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evid = os.path.join(V, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    if os.path.exists(evid):
        os.remove(evid)
    thorough = tier == "thorough"

    # laws of the specification, in the background
    law_results, proof_results = [], []
    def laws():
        for module, c, c_thorough in cfg.get("laws", []):
            law_results.append(Tlc(module, c_thorough if thorough and c_thorough else c, work, 4, timeout=3600 if thorough else 600))
        for module in cfg.get("proofs", []) if thorough else []:
            proof_results.append(prove(module, work))
    th = threading.Thread(target=laws)
    th.start()
    build(cfg["bins"])
    t_build = time.time() - t0

    # scenarios generated by the specification
    scen, scen_states, scen_count = None, 0, 0
    if "scenarios" in cfg:
        lines = []
        for module, c, c_th, sim in (cfg["scenarios"] if isinstance(cfg["scenarios"], list) else [cfg["scenarios"] + (None,)]):
            # sim = (quick, thorough): number of random histories instead of all of them
            extra = ["-simulate", "num=%d" % sim[thorough], "-depth", "100", "-seed", str(seed)] if sim else []
            t = Tlc(module, c_th if thorough and c_th else c, work, 1 if sim else 8, extra=extra)
            if not (t.clean or sim and t.rc == 0):
                print(gist(t.out))
                die("scenario generation failed")
            lines += [s.replace('\\"', '"').replace("\\\\", "\\") for s in re.findall(r'^"SCENARIO (.*)"\s*$', t.out, re.M)]
            scen_states += t.states
        scen = os.path.join(work, "scenarios.ndjson")
        lines = sorted(set(lines))
        open(scen, "w").write("\n".join(lines) + "\n")
        scen_count = len(lines)

    rounds = cfg["thorough_rounds"] if thorough else 1
    tot = dict(programs=0, events=0, calls=0, unsupported=0, panics=0)
    states = distinct = 0
    samples, ops, viol, known_hit = [], {}, [], []
    known = known_findings(pid)
    for rnd in range(rounds):
        for b in cfg["bins"]:
            trace = os.path.join(work, "%s-%d.ndjson" % (b, rnd))
            sc = cfg["scale"] if not thorough else cfg.get("thorough_scale", cfg["scale"])
            st = run_harness(b, trace, seed * 1000 + rnd, sc, scen, work, 600)
            for k in tot:
                tot[k] += st.get(k, 0)
            if "setup_panic" in st:
                f = os.path.join(work, "violation-%d.json" % len(viol))
                pr = dict(id="set-up", ev=[dict(op=["set-up", "panic"], ok=False, r=st["setup_panic"])])
                json.dump(dict(property=pid, spec=cfg.get("trace", "Trace"), bin=b, seed=seed * 1000 + rnd, scale=sc, failing_event=1, event=pr["ev"][0], program=pr), open(f, "w"))
                viol.append((f, pr, 1))
                break
            nlines = sum(1 for _ in open(trace, errors="replace"))
            if nlines == 0:
                die("no programs recorded")
            tspec = cfg.get("trace", "Trace")
            parts = cut(trace)
            with concurrent.futures.ThreadPoolExecutor(2) as pool:
                runs = list(pool.map(lambda x: Tlc(tspec, tspec + ".cfg", work, 8 if len(parts) == 1 else 4, env={"TRACE": x[1]}), parts))
            diverged = []
            for t, (first, part) in zip(runs, parts):
                if not t.diverged and not t.clean and re.search("Attempted to|In applying the function|unable to fingerprint|in the domain|evaluating the|equality test|Reason:|JsonSyntax|MalformedJson", t.out):
                    # a result whose very shape the specification cannot compare: find the program
                    print(gist(t.out))
                    t.diverged = isolate(open(part, errors="replace").read().splitlines(), tspec, work)
                diverged += [dict(d, prog=d["prog"] + first) for d in t.diverged]
                states += t.states
                distinct += t.distinct
                if part != trace:
                    os.remove(part)
            broken = [t for t in runs if not t.clean]
            if diverged:
                progs = open(trace, errors="replace").read().splitlines()
                for d in diverged:
                    pr = parse(progs[d["prog"] - 1])
                    key = pr.get("key", pr["id"])
                    kk = [w for w in known if w[0] == key]
                    if kk:
                        known_hit.append(kk[0])
                        continue
                    f = os.path.join(work, "violation-%d.json" % len(viol))
                    json.dump(dict(property=pid, spec=cfg.get("trace", "Trace"), bin=b, seed=seed * 1000 + rnd, scale=sc,
                                   failing_event=d["ev"], event=(pr["ev"] + [None])[d["ev"] - 1], program=pr), open(f, "w"))
                    viol.append((f, pr, d["ev"]))
                    if len(viol) >= 20:
                        break
            elif broken:
                print(gist(broken[0].out))
                die("TLC did not finish on " + trace)
            if rnd == 0:
                for i, line in enumerate(open(trace, errors="replace")):
                    for o in re.findall(r'"op":\["(\w*)","(\w*)"\]|\[6,"([^"]*)"', line):
                        o = o[2] or ".".join(o[:2])
                        ops[o] = ops.get(o, 0) + 1
                    if i in (1, nlines // 2, nlines - 1):
                        samples.append(parse(line) if len(line) < 3000 else line[:1500])
            if rounds > 1 and not viol:
                os.remove(trace)
            if viol:
                break
        if viol:
            break
    th.join()
    for t in law_results:
        states += t.states
        distinct += t.distinct
        if not t.clean:
            print(gist(t.out))
            die("the specification violates its own law in %s/%s" % (t.module, t.cfg))
    for module, n, out in proof_results:
        if not n:
            print(out[-3000:])
            die("the proof %s does not check" % module)
    for k in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    missing = [o for o in cfg.get("ops", []) if not ops.get(o)]
    if missing and not viol:
        print("WARNING: operations never checked in this run: " + " ".join(missing))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=states + scen_states, transitions=states + scen_states - tot["programs"],
                            traces_validated_against_impl=tot["programs"],
                            samples=samples, distinct_states=distinct, calls=tot["calls"], events=tot["events"],
                            calls_without_exact_meaning=tot["unsupported"], panics_observed=tot["panics"],
                            scenarios_generated_by_tlc=scen_count, calls_per_operation=ops,
                            laws=[dict(model=t.module, cfg=t.cfg, states=t.states) for t in law_results],
                            proofs=[dict(module=m, obligations=n) for m, n, _ in proof_results],
                            exhaustive=False, operations_not_reached=missing),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    json.dump(ev, open(evid, "w"), indent=1)
    if viol:
        f, pr, n = viol[0]
        e = (pr["ev"] + [None])[n - 1]
        print("The real code left the specification in program %s, call %d: %s" % (pr["id"], n, json.dumps(e)[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    print("OK property=%s programs=%d calls=%d states=%d (build %.0f s, total %.0f s)" %
          (pid, tot["programs"], tot["calls"], states, t_build, time.time() - t0))
    return 0

def replay(path):
    d = json.load(open(path))
    if d["program"]["id"] == "set-up":
        print(d["event"]["r"])
        print("regenerate with: VH_LOUD=1 harness/target/debug/%s OUT %d %d" % (d["bin"], d["seed"], d["scale"]))
        return 1
    work = os.path.join(V, "work", "replay")
    os.makedirs(work, exist_ok=True)
    tr = os.path.join(work, "one.ndjson")
    open(tr, "w").write(json.dumps(d["program"]) + "\n")
    t = Tlc(d["spec"], d["spec"] + ".cfg", work, 1, env={"TRACE": tr})
    print(gist(t.out))
    print("regenerate with: harness/target/debug/%s OUT %d %d" % (d["bin"], d["seed"], d["scale"]))
    return 1 if t.diverged else 0

if __name__ == "__main__":
    sys.exit(main())
