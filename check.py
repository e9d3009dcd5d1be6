#!/usr/bin/env python3
"""Decides one property: check.py <ID> [quick|thorough] | check.py --replay FILE | check.py --setup

Exit 0: held on everything explored.  Exit 1 with "VIOLATION property=<id> replay=<path>": broken.
Exit 2: the check itself could not run.
"""
import json, os, re, subprocess, sys, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
VH = os.path.join(BUILD, "debug", "vh")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN  # noqa: E402


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=BUILD, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", RUSTC_WRAPPER="",
             PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin"))
    for k in ("RUSTFLAGS",):
        e.pop(k, None)
    return e


def build():
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=env(),
                       capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stderr[-4000:])


def tlc(work, name, module, cfg, envs, xmx="3g", workers="1", timeout=800, extra=()):
    """Runs TLC; returns its output.  The caller decides what it means."""
    meta = os.path.join(work, "meta-" + name)
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx,
           "-Dfile.encoding=UTF-8", "-cp", CP, "tlc2.TLC", "-workers", workers, "-metadir", meta,
           "-noGenerateSpecTE", *extra, "-config", cfg, module + ".tla"]
    e = dict(os.environ)
    e.update(envs)
    out = os.path.join(work, name + ".tlc")
    with open(out, "w") as f:
        try:
            subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {name} timed out")
    shutil.rmtree(meta, ignore_errors=True)
    return open(out, errors="replace").read()


def counts(txt):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states", txt)
    return tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)


VRE = re.compile(r'<<\s*"@@V",\s*"(\w+)",\s*(-?\d+),\s*(\d+),\s*"([^"]*)"\s*>>')


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = os.path.join(ROOT, "work", f"{pid}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.viol = []      # dicts: tag, shard, tr, line, replay data
        self.states = self.trans = self.lines = self.traces = self.cases = 0
        self.samples, self.notes = [], {}

    # ---- trace validation -------------------------------------------------
    def shard(self, j):
        """One driver run of the real code judged by TLC."""
        name = j["name"]
        log = os.path.join(self.work, name + ".ndjson")
        args = [VH] + [str(a) for a in j["args"]] + [log]
        try:
            p = subprocess.run(args, env=env(), capture_output=True, text=True, timeout=j.get("timeout", 500))
        except subprocess.TimeoutExpired:
            # Calls that never return are the code's doing, not the check's: the driver is deterministic and
            # finishes in seconds.
            if j.get("hang_is_violation"):
                self.add(dict(tag="hang", shard=name, module=j["module"], tr=-1, line=0, args=j["args"]))
                return
            raise ToolError(f"driver {name} timed out")
        if p.returncode != 0:
            if p.returncode < 0 and j.get("crash_is_violation", True):
                self.add(dict(tag=f"crash signal {-p.returncode}", shard=name, module=j["module"], tr=-1, line=0,
                              args=j["args"]))
                return
            if p.returncode == 101:
                self.add(dict(tag="panic", shard=name, module=j["module"], tr=-1, line=0, args=j["args"], err=p.stderr[-1500:]))
                return
            raise ToolError(f"driver {name} failed ({p.returncode}): {p.stderr[-2000:]}")
        self.judge(j, name, log)

    def judge(self, j, name, log):
        txt = tlc(self.work, name, j["module"], j.get("cfg", j["module"] + ".cfg"),
                  {"LOG": log, "FMT": log + ".fmt", "PROP": self.pid, **j.get("env", {})}, timeout=800)
        n = sum(1 for _ in open(log))
        ends = re.findall(r'<<\s*"@@END",\s*(\d+)\s*>>', txt)
        if not ends or int(ends[-1]) != n or "Model checking completed. No error" not in txt:
            # A recorded state the specification cannot even evaluate (an index outside a sequence, a missing block)
            # is a state outside the specification; anything else is a failure of the tool.
            at = re.findall(r"^/?\\? ?l = (\d+)$", txt, re.M)
            if "OutOfMemory" in txt or "StackOverflow" in txt or not at or not re.search(
                    r"TLC threw an unexpected exception|evaluating|Attempted|In computing next states", txt):
                raise ToolError(f"TLC did not consume {name}: {txt[-3000:]}")
            txt += f'\n<< "@@V", "{self.pid}", 0, {min(int(at[-1]) + 1, n)}, "state outside the specification" >>\n'
        gen, dist = counts(txt)
        vs = VRE.findall(txt)
        L = None
        for prop, tr, line, tag in vs:
            if prop != self.pid:
                continue
            if L is None:
                L = [json.loads(x) for x in open(log)]
            tr, line = int(tr), int(line)
            ops, k = [], line - 1
            while k >= 0:
                ops.append({"tr": L[k]["tr"], "op": L[k]["op"]})
                if L[k]["op"].get("n") == "start":
                    break
                k -= 1
            self.add(dict(tag=tag, shard=name, module=j["module"], tr=tr, line=line, args=j["args"], ops=ops[::-1],
                          got=L[line - 1].get("res"), before=L[line - 2].get("st") if line > 1 else None,
                          after=L[line - 1].get("st")))
        with self.lock:
            self.states += dist
            self.trans += max(gen - 1, 0)
            self.lines += n
            self.traces += sum(1 for x in open(log) if '"n":"start"' in x) or 1
            if len(self.samples) < 3:
                with open(log) as f:
                    h = [next(f, "")[:400] for _ in range(3)]
                self.samples.append({"shard": name, "first_lines": h})

    # ---- exhaustive model + replay of every transition --------------------
    def model(self, j):
        """TLC explores the model exhaustively, checks its invariants and prints every transition."""
        name = "mc-" + j["name"]
        txt = tlc(self.work, name, j["module"], j["cfg"], {"PROP": self.pid, **j.get("env", {})},
                  xmx=j.get("xmx", "6g"), workers=j.get("workers", "1"), timeout=800, extra=j.get("extra", ()))
        sim = re.search(r"The number of states generated: (\d+)", txt) if "-simulate" in j.get("extra", ()) else None
        if "Error:" in txt or not (sim or "Model checking completed. No error" in txt):
            raise ToolError(f"the model itself fails ({name}): " + re.sub(r'(?m)^"@@C.*\n', "", txt)[-3000:])
        gen, dist = (int(sim.group(1)), 0) if sim else counts(txt)
        with self.lock:
            self.states += dist
            self.trans += gen
            self.notes[name] = {"distinct_states": dist, "transitions": gen}
        if "replay" not in j:
            return None
        cases = os.path.join(self.work, name + ".cases")
        n = 0
        with open(cases, "w") as f:
            for m in re.finditer(r'^"@@C(.*)"$', txt, re.M):
                f.write(m.group(1).replace('\\"', '"').replace("\\\\", "\\") + "\n")
                n += 1
        if n == 0:
            raise ToolError(f"model {name} emitted no cases: {txt[-2000:]}")
        return cases, n

    def replay_cases(self, j, cases, n):
        """Every transition of the model replayed into the real code and the states compared."""
        name = "mc-" + j["name"]
        k = j.get("parts", 8)
        L = open(cases).read().splitlines()
        outs = []

        def part(i):
            fi, fo = f"{cases}.{i}", f"{cases}.{i}.out"
            with open(fi, "w") as f:
                f.write("\n".join(L[i::k]) + "\n")
            p = subprocess.run([VH, *j["replay"], fi, fo], env=env(), capture_output=True, text=True, timeout=700)
            if p.returncode != 0:
                if p.returncode < 0:
                    self.add(dict(tag=f"crash signal {-p.returncode}", shard=name, module=j["module"], tr=-1, line=0,
                                  args=[*j["replay"], fi]))
                    return []
                raise ToolError(f"replay {name} failed: {p.stderr[-2000:]}")
            return [json.loads(x) for x in open(fo)]
        with ThreadPoolExecutor(k) as ex:
            for r in ex.map(part, [i for i in range(k) if L[i::k]]):
                outs += r
        done = 0
        for o in outs:
            if "done" in o:
                done += o["done"]
            elif self.pid in o.get("props", [self.pid]):
                self.add(dict(tag=o["tag"], shard=name, module=j["module"], tr=-1, line=0, case=o))
        if done != n and not self.viol:
            raise ToolError(f"replay {name}: {done} of {n} cases done")
        with self.lock:
            self.cases += n
            self.notes[name]["replayed_into_code"] = n
            if L:
                self.samples.append({"model_case": L[len(L) // 2][:600]})

    def add(self, v):
        with self.lock:
            self.viol.append(v)


def known():
    """Known findings: property, regular expression over the canonical description of a violation, text."""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) match=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def describe(v):
    o = v.get("ops") or []
    last = o[-1]["op"] if o else v.get("case", {}).get("last", {})
    return f"{v['tag']}:" + json.dumps(last, sort_keys=True, separators=(",", ":"))


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if pid not in PLAN:
        raise ToolError("no plan for " + pid)
    plan = PLAN[pid]
    os.environ.update(plan.get("env", {}))
    r = Run(pid, tier, seed)
    shards, models = plan["shards"](tier, seed), plan.get("models", lambda t: [])(tier)
    with ThreadPoolExecutor(16) as ex:
        fb = ex.submit(build)
        fm = [(m, ex.submit(r.model, m)) for m in models]
        fb.result()
        fs = [ex.submit(r.shard, s) for s in sorted(shards, key=lambda s: -s.get("weight", 1))]
        fr = []
        for m, f in fm:
            x = f.result()
            if x:
                r.replay_cases(m, *x)
        for f in fs + fr:
            f.result()
    kn = known()
    viol, kf = [], {}
    for v in r.viol:
        d = describe(v)
        k = next((x for x in kn if x[0] == pid and re.search(x[1], d)), None)
        if k:
            kf[k[2]] = kf.get(k[2], 0) + 1
        else:
            viol.append(v)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": plan.get("level", "model_checking"),
        "coverage": {
            "states": r.states, "transitions": r.trans, "traces_validated_against_impl": r.traces + r.cases,
            "log_lines_judged": r.lines, "model_transitions_replayed": r.cases, "models": r.notes,
            "samples": r.samples[:4],
            "rule": plan.get("rule", ""),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, c in kf.items():
        print(f"KNOWN-FINDING: property={pid} {k} ({c} occurrences)")
    seen = set()
    for i, v in enumerate(viol):
        key = (v["tag"], v["shard"])
        if key in seen or len(seen) >= 8:
            continue
        seen.add(key)
        path = os.path.join(r.work, f"violation-{len(seen)}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, **v}, f, indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {describe(v)[:300]}  [{v['shard']} line {v['line']}]")
    if not viol:
        for f in os.listdir(r.work):
            if not f.endswith(".json"):
                os.unlink(os.path.join(r.work, f))
        print(f"{pid}: held; {r.lines} log lines in {r.traces} traces, {r.cases} model transitions replayed, "
              f"{r.states} states, {ev['wall_s']} s")
    return 1 if viol else 0


def replay(path):
    v = json.load(open(path))
    print(json.dumps({k: v[k] for k in ("property", "tag", "module", "shard", "line") if k in v}))
    os.environ.update(PLAN[v["property"]].get("env", {}))
    build()
    r = Run(v["property"], "replay", 1)
    if v.get("ops"):
        ops = os.path.join(r.work, "ops.ndjson")
        with open(ops, "w") as f:
            f.writelines(json.dumps(o) + "\n" for o in v["ops"])
        r.shard(dict(name="replay", module=v["module"], args=["replay", ops]))
    elif v.get("case"):
        c = os.path.join(r.work, "one.cases")
        with open(c, "w") as f:
            f.write(v["case"]["raw"] + "\n")
        j = dict(name="one", module=v["module"], replay=v["case"]["cmd"], parts=1)
        r.notes["mc-one"] = {}
        r.replay_cases(j, c, 1)
    else:
        r.shard(dict(name="replay", module=v["module"], args=v["args"], hang_is_violation=True))
    for x in r.viol:
        print("VIOLATION", describe(x)[:400])
    print("reproduced" if r.viol else "not reproduced")
    return 1 if r.viol else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            build()
            sys.exit(0)
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(main(sys.argv[1], tier))
    except (ToolError, subprocess.TimeoutExpired, KeyError, OSError) as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
