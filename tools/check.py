#!/usr/bin/env python3
"""Decides one property:  check.py PROPERTY [quick|thorough]

1. TLC checks the specification (spec/MC*.tla) for the property;
2. TLC draws test cases from spec/Gen.tla (and behaviours of spec/Session.tla, spec/Cli.tla);
3. the harness (or the built command line tool) executes them on /repo's code;
4. TLC replays the recorded traces on spec/Trace.tla (or TraceCli.tla) with the property's obligations on.
Exit 0: held; 1: violated (a VIOLATION line); 2: the check itself failed."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import MODELS, EFFORT, ASSUMPTIONS  # noqa: E402


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, env=None, cwd=None, timeout=840):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tlc(module, cfg, run, env=None, workers=1, args=(), heap="2g", timeout=840):
    meta = os.path.join(run, "meta-%s-%s-%d" % (module, os.path.basename(cfg), time.monotonic_ns()))
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-cleanup", "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, *args, module + ".tla"]
    rc, out = sh(cmd, env=env, cwd=SPEC, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


# ---------------------------------------------------------------- builds ----
def cargo_env(target, flags):
    env = {"CARGO_TARGET_DIR": target, "RUSTFLAGS": flags, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}
    return env


def with_env(cmd):
    return ["bash", "-c", ". /opt/vp/env.sh 2>/dev/null; " + cmd]


def build_harness():
    """Uses as many of the hooks as the current tree still offers."""
    target = os.path.join(BUILD, "target")
    out = ""
    for feats, flags in (("priv,probe", "--cfg visqol_verif --cfg visqol_verif_probe"), ("priv", "--cfg visqol_verif"), ("", "")):
        cmd = "cargo build --offline" + (" --features " + feats if feats else "")
        env = cargo_env(target, flags)
        # keep the settings of env.sh from overriding ours
        pre = "".join("export %s='%s'; " % kv for kv in env.items())
        rc, out = sh(["bash", "-c", ". /opt/vp/env.sh 2>/dev/null; " + pre + cmd], cwd=os.path.join(VERIF, "harness"))
        if rc == 0:
            return os.path.join(target, "debug", "vh"), feats
        log("build with features '%s' failed:" % feats, out[-1500:])
    raise ToolError("the harness does not build:\n" + out[-3000:])


def build_cli():
    """The tool and the baseline program, in the target directory that the repository's own build uses."""
    cmd = ". /opt/vp/env.sh 2>/dev/null; unset RUSTFLAGS; export CARGO_TARGET_DIR=%s/target; " % REPO
    rc, out = sh(["bash", "-c", cmd + "cd %s && cargo build --workspace --bins --offline" % REPO])
    if rc != 0:
        raise ToolError("the command line tool does not build:\n" + out[-3000:])
    rc, out = sh(["bash", "-c", cmd + "cd %s/clibase && cargo build --offline" % VERIF])
    if rc != 0:
        raise ToolError("the baseline program does not build:\n" + out[-3000:])
    return os.path.join(REPO, "target/debug/visqol"), os.path.join(REPO, "target/debug/clibase")


# ----------------------------------------------------------------- steps ----
def run_models(prop, tier, run):
    """Checks the specification.  Configurations named after a deliberately wrong design must be refuted:
    they show that the properties of the model are not vacuous."""
    res = []
    svm = svm_file(run) if prop == "C06" else ""
    plan = MODELS.get(prop, {})
    for module, cfg, workers, expect in plan.get(tier, plan.get("quick", [])):
        t = time.time()
        rc, out = tlc(module, cfg + ".cfg", run, workers=workers, heap="6g", env={"SVM_FILE": svm})
        s, d = counts(out)
        refuted = rc != 0 and ("is violated" in out or "was violated" in out or "Deadlock reached" in out)
        if (rc != 0 and not refuted) or refuted != (expect == "refuted"):
            # the specification is part of this framework: a failure here is not a finding about the code
            raise ToolError("model %s/%s (expected to be %s): TLC exit %d\n%s" % (module, cfg, expect, rc, out[-3000:]))
        res.append({"model": module, "config": cfg, "result": expect, "states": d, "transitions": s, "seconds": round(time.time() - t, 1)})
        log("model", cfg, expect + ":", d, "states")
    return res


def given(cases, run):
    """the cases of a replay file: the failing one and everything it is compared with"""
    out = os.path.join(run, "cases.ndjson")
    with open(out, "w") as f:
        for i, c in enumerate(cases):
            f.write(json.dumps(dict(c, id=i + 1)) + "\n")
    return out


def simulate(module, prop, run, num, seed):
    """Histories: behaviours of a generator specification, as TLC's simulator draws them."""
    raw, out = os.path.join(run, "histories.ndjson"), os.path.join(run, "cases.ndjson")
    rc, text = tlc(module, module + ".cfg", run, env={"GEN_PROP": prop, "GEN_OUT": raw}, args=("-simulate", "num=%d" % num, "-depth", "30", "-seed", str(seed)))
    if rc != 0 or not os.path.exists(raw):
        raise ToolError("history generation failed: " + text[-2000:])
    with open(out, "w") as f:
        for i, line in enumerate(open(raw)):
            f.write(json.dumps(dict(json.loads(line), id=i + 1)) + "\n")
    os.remove(raw)
    return out


def generate(prop, tier, run, seed):
    out = os.path.join(run, "cases.ndjson")
    effort = EFFORT.get(prop, {"quick": 100, "thorough": 1000})[tier]
    effort = int(os.environ.get("VERIF_EFFORT", effort))
    rc, text = tlc("Gen", "Gen.cfg", run, env={"GEN_PROP": prop, "GEN_EFFORT": str(effort), "GEN_OUT": out}, args=("-seed", str(seed)), heap="4g")
    if rc != 0 or not os.path.exists(out):
        raise ToolError("generation failed: " + text[-2000:])
    return out


def svm_file(run):
    """The support vector model as integers for TLC (1e-8; features 1e-6)."""
    src = os.path.join(REPO, "model", "libsvm_nu_svr_model.txt")
    out = os.path.join(run, "svm.ndjson")
    gamma = rho = None
    rows, body = [], False
    for line in open(src):
        t = line.split()
        if body and t:
            x = [0] * 32
            for kv in t[1:]:
                k, v = kv.split(":")
                x[int(k) - 1] = round(float(v) * 1e6)
            rows.append({"c": round(float(t[0]) * 1e8), "x": x})
        elif t and t[0] == "gamma":
            gamma = float(t[1])
        elif t and t[0] == "rho":
            rho = float(t[1])
        elif t and t[0] == "SV":
            body = True
    with open(out, "w") as f:
        f.write(json.dumps({"gamma": round(gamma * 1e8), "rho": round(rho * 1e8)}) + "\n")
        for r in rows:
            f.write(json.dumps(r) + "\n")
    return out


def models_dir(run):
    """variants of the default model: half and double kernel width, lower and higher scores"""
    text = open(os.path.join(REPO, "model", "libsvm_nu_svr_model.txt")).read()
    d = os.path.join(run, "models")
    os.makedirs(d, exist_ok=True)
    for name, key, f in (("narrow", "gamma", lambda x: x / 2), ("wide", "gamma", lambda x: x * 2), ("moved", "rho", lambda x: x + 1.2), ("lifted", "rho", lambda x: x - 1.5)):
        new = re.sub(r"(?m)^%s (\S+)" % key, lambda m: "%s %r" % (key, f(float(m.group(1)))), text, count=1)
        open(os.path.join(d, name + ".txt"), "w").write(new)
    return d


def execute(vh, cases, run):
    """Runs the cases.  If the process dies on one of them, that case is found and recorded as such."""
    out = os.path.join(run, "trace.ndjson")
    tmp = os.path.join(run, "tmp")
    os.makedirs(tmp, exist_ok=True)
    lines = open(cases).read().splitlines()
    events, lost = {}, []

    def part(idx, name):
        """runs the cases numbered idx; returns the process's end and those it began"""
        sub, res = os.path.join(run, name + ".in"), os.path.join(run, name + ".out")
        with open(sub, "w") as f:
            f.writelines(lines[i] + "\n" for i in idx)
        rc, text = sh([vh, "run", sub, res], env={"VH_TMP": tmp, "VH_MODELS": models_dir(run), "VH_MODEL": os.path.join(REPO, "model", "libsvm_nu_svr_model.txt")})
        got = {}
        for line in open(res, errors="replace") if os.path.exists(res) else []:
            try:
                e = json.loads(line)
            except ValueError:
                continue        # cut off in the middle
            e["case"] = idx[e["case"] - 1] + 1
            got.setdefault(e["case"] - 1, []).append(e)
        begun = [idx[int(x)] for x in open(res + ".started").read().split()] if os.path.exists(res + ".started") else []
        for f in (sub, res, res + ".started"):
            if os.path.exists(f):
                os.remove(f)
        return rc, text, got, begun

    todo = list(range(len(lines)))
    while todo:
        rc, text, got, begun = part(todo, "part")
        if rc == 0:
            events.update(got)
            break
        if rc == 2 or "harness:" in text or not begun:
            raise ToolError("harness exit %d: %s" % (rc, text[-2000:]))
        log("the harness ended with status %d" % rc)
        # what had certainly been completed stays; the cases in progress are run alone
        suspects = begun[-16:]
        events.update({i: v for i, v in got.items() if i not in suspects})
        for i in suspects:
            rc1, text1, got1, _ = part([i], "alone")
            if rc1 == 0:
                events.update(got1)
            else:
                lost.append(i)
                events[i] = [{"ev": "Hang", "case": i + 1, "id": i, "unit": json.loads(lines[i]).get("u", "pipe") != "pipe", "status": rc1, "said": text1[-200:]}]
        todo = [i for i in todo if i not in events]
        if len(lost) >= 3:
            break
    with open(out, "w") as f:
        for i in sorted(events):
            for e in events[i]:
                f.write(json.dumps(e) + "\n")
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def shard(trace, run, n):
    """Splits a trace by case; cases of one group stay together."""
    groups, order = {}, []
    for line in open(trace):
        e = json.loads(line)
        key = "case%d" % e["case"]
        if e["ev"] == "Begin" and isinstance(e.get("want"), dict) and e["want"].get("group"):
            alias[e["case"]] = e["want"]["group"]
        key = alias.get(e["case"], key)
        if key not in groups:
            groups[key] = []
            order.append(key)
        groups[key].append(line)
    weight = [0] * n
    parts = [[] for _ in range(n)]
    for k in sorted(order, key=lambda k: -sum(map(len, groups[k]))):
        i = weight.index(min(weight))
        weight[i] += sum(map(len, groups[k])) + 2000
        parts[i].append(k)
    files = []
    for i, p in enumerate(parts):
        if p:
            f = os.path.join(run, "shard%d.ndjson" % i)
            with open(f, "w") as h:
                for k in p:
                    h.writelines(groups[k])
            files.append(f)
    return files


alias = {}


def trace_cfg(module, prop, run):
    text = open(os.path.join(SPEC, module + ".cfg")).read()
    text = re.sub(r"CONSTANT Check = .*", 'CONSTANT Check = {"%s"}' % prop, text)
    p = os.path.join(run, module + ".cfg")
    open(p, "w").write(text)
    return p


def validate(module, prop, files, run, env):
    cfg = trace_cfg(module, prop, run)
    rejected, states, lines = [], 0, 0

    def one(f):
        e = dict(env)
        e["TRACE_FILE"] = f
        return f, tlc(module, cfg, run, env=e, heap="3g")

    with cf.ThreadPoolExecutor(8) as ex:
        for f, (rc, out) in ex.map(one, files):
            n = sum(1 for _ in open(f))
            s, d = counts(out)
            rej = re.findall(r'"REJECT (\S+) line (\d+) case (\d+) : (.*)"', out)
            stop = re.findall(r'"STOPPED at line (\d+) of (\d+)"', out)
            if rc == 0 and not rej and not stop and d >= n:
                states += d
                lines += n
                continue
            if not rej and not stop:
                raise ToolError("trace validation failed with TLC exit %d\n%s" % (rc, out[-3000:]))
            at = int(rej[0][1] if rej else stop[0][0])
            ev = json.loads(open(f).read().splitlines()[at - 1])
            states += d
            lines += at - 1
            rejected.append({"line": at, "case": ev["case"], "what": rej[0][3] if rej else "event %s is not possible here" % ev["ev"], "event": ev})
    return rejected, states, lines


def main():
    global T0
    T0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    again = None
    if tier == "replay":
        again = json.load(open(sys.argv[3]))
        tier, seed = again.get("tier", "quick"), again.get("seed", seed)
    run = os.path.join(BUILD, "run", "%s-%s" % (prop, "replay" if again else tier))
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    import importlib
    cli = prop in ("C18", "C19", "C20", "C21")
    with cf.ThreadPoolExecutor(4) as ex:
        models = ex.submit(run_models, None if again else prop, tier, run)
        if cli:
            clirun = importlib.import_module("clirun")
            cases = ex.submit(given, again["cases"], run) if again else ex.submit(clirun.generate, prop, tier, run, seed, tlc, ToolError)
            vh = ex.submit(build_harness)
            exe = ex.submit(build_cli)
            cases, (vh, feats), (exe, base) = cases.result(), vh.result(), exe.result()
            log("built, hooks: ", feats, "; histories:", sum(1 for _ in open(cases)))
            trace = clirun.execute(exe, base, vh, cases, run, REPO, ToolError, prop)
            module = "TraceCli"
        else:
            if again:
                cases = ex.submit(given, again["cases"], run)
            elif prop == "C03":
                cases = ex.submit(simulate, "GenSession", prop, run, int(os.environ.get("VERIF_HISTORIES", {"quick": 60, "thorough": 900}[tier])), seed)
            else:
                cases = ex.submit(generate, prop, tier, run, seed)
            b = ex.submit(build_harness)
            cases, (vh, feats) = cases.result(), b.result()
            log("built with hooks '%s'; cases: %d" % (feats, sum(1 for _ in open(cases))))
            trace = execute(vh, cases, run)
            module = "Trace"
        log("executed; events:", sum(1 for _ in open(trace)))
        mres = models.result()
    env = {"SVM_FILE": svm_file(run) if prop in ("C05", "C06") else ""}
    files = shard(trace, run, 8)
    rejected, states, lines = validate(module, prop, files, run, env)
    log("validated", lines, "events in", len(files), "shards; rejected:", len(rejected))

    allcases = [json.loads(x) for x in open(cases)]
    seen_events = {}
    for x in open(trace):
        e = json.loads(x)
        k = e["ev"] + (":" + e["out"] if e["ev"] == "End" else "")
        seen_events[k] = seen_events.get(k, 0) + 1
    fams = {}
    for c in allcases:
        fams[c.get("fam", "")] = fams.get(c.get("fam", ""), 0) + 1
    step = max(1, len(allcases) // 4)
    coverage = {
        "states": sum(m["states"] for m in mres) + states,
        "transitions": sum(m["transitions"] for m in mres) + lines,
        "traces_validated_against_impl": len(allcases) - len(rejected),
        "samples": allcases[::step][:4],
        "models": mres,
        "trace_events": seen_events,
        "events_replayed": lines,
        "case_families": fams,
        "hooks": feats,
        "rule": "cases are drawn by TLC from the generator specification with the given seed; each is executed on the code built from /repo and every recorded event must be a step of the trace specification with this property's obligations on",
    }
    violations = []
    for i, r in enumerate(rejected):
        case = next((c for c in allcases if c.get("id") == r["case"]), None) or allcases[r["case"] - 1]
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (prop, i))
        if again:
            p = sys.argv[3]
            violations.append((p, r))
            continue
        group = case.get("want", {}).get("group") if isinstance(case.get("want"), dict) else None
        same = [c for c in allcases if isinstance(c.get("want"), dict) and c["want"].get("group") == group] if group else [case]
        json.dump({"property": prop, "what": r["what"], "cases": same, "event": r["event"], "seed": seed, "tier": tier,
                   "how": "tools/replay.sh %s %s" % (prop, p)}, open(p, "w"), indent=1)
        violations.append((p, r))
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
                "assumptions": ASSUMPTIONS.get(prop, []) + ASSUMPTIONS["*"], "wall_s": round(time.time() - T0, 1), "violations": len(violations)}
    if not again:
        json.dump(evidence, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for f in files:
        os.remove(f)
    for p, r in violations:
        print("case %s: %s" % (r["case"], r["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
    if not violations:
        print("OK property=%s: %d cases, %d events, %d model states, %.0f s" % (prop, len(allcases), lines, sum(m["states"] for m in mres), time.time() - T0))
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    try:
        main()
    except ToolError as e:
        print("CHECK-ERROR:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR: timeout", e)
        sys.exit(2)
