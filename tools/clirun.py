"""Executes histories of the command line tool (C18-C21) and records them for spec/TraceCli.tla.

A history (drawn by TLC from spec/GenCli.tla) is a set of signal files, batch files and output files and a
sequence of commands.  Everything happens in a scratch directory that is removed afterwards.  Recorded are
the outcome of every pair on its own (the tool run alone, or the library called directly) and, for every
command, its exit status, what it printed and the output files after it."""
import concurrent.futures as cf
import csv
import hashlib
import io
import json
import os
import random
import re
import shutil
import subprocess

N = {"C18": {"quick": 24, "thorough": 260}, "C19": {"quick": 24, "thorough": 260}, "C20": {"quick": 30, "thorough": 320}, "C21": {"quick": 20, "thorough": 200}}
LIMIT = 120


def generate(prop, tier, run, seed, tlc, ToolError):
    out = os.path.join(run, "cases.ndjson")
    raw = os.path.join(run, "histories.ndjson")
    n = int(os.environ.get("VERIF_HISTORIES", N[prop][tier]))
    jobs = [(n, "0")] + ([(1, "1"), (1, "2")] if prop == "C20" else [])
    for num, probe in jobs:
        rc, text = tlc("GenCli", "GenCli.cfg", run, env={"GEN_PROP": prop, "GEN_OUT": raw, "GEN_PROBE": probe}, args=("-simulate", "num=%d" % num, "-depth", "30", "-seed", str(seed)))
        if rc != 0 or not os.path.exists(raw):
            raise ToolError("history generation failed: " + text[-2000:])
    with open(out, "w") as f:
        for i, line in enumerate(open(raw)):
            c = json.loads(line)
            c["id"] = i + 1
            f.write(json.dumps(c) + "\n")
    return out


# ------------------------------------------------------------------ worlds ----
def write_batch(path, b, names):
    style = b["style"]
    if style == "missing":
        return
    rows = [(names[r - 1], names[d - 1]) for r, d in b["rows"]]
    eol = "\r\n" if style == "crlf" else "\n"
    if style == "binary":
        data = b"reference,degraded\n" + rows[0][0].encode() + b",\xff\xfe\xfd.wav\n"
    elif style == "onecolumn":
        s = io.StringIO()
        w = csv.writer(s, lineterminator="\n")
        w.writerow(["reference", "degraded"])
        w.writerow([rows[0][0]])
        data = s.getvalue().encode()
    else:
        s = io.StringIO()
        w = csv.writer(s, lineterminator=eol, quoting=csv.QUOTE_ALL if style == "quoted" else csv.QUOTE_MINIMAL)
        w.writerow(["reference", "degraded"])
        for r in rows:
            w.writerow(r)
        t = s.getvalue()
        if style == "noeol":
            t = t[: -len(eol)]
        elif style == "header":
            t = "Reference file,Degraded file" + t[t.index(eol):]
        elif style == "blank":
            t = t.replace(eol, eol + eol)
        data = t.encode()
    with open(path, "wb") as f:
        f.write(data)


MODEL = "libsvm_nu_svr_model.txt"


def other_model(src):
    """the default model with another offset: every prediction moves"""
    def move(m):
        return "rho %r" % (float(m.group(1)) + 0.35)
    return re.sub(r"(?m)^rho (\S+)", move, open(src).read(), count=1)


def num(x):
    """one spelling per number"""
    try:
        return repr(float(x))
    except ValueError:
        return "text:" + x


def canon(v):
    return hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:16]


class World:
    def __init__(self, case, exe, base, vh, root, repo):
        self.case, self.exe, self.base = case, exe, base
        self.names = case["names"]
        self.dir = os.path.join(root, "w%d" % case["id"])
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "lists"))
        os.makedirs(os.path.join(self.dir, "model"))
        os.makedirs(os.path.join(self.dir, "out"))
        spec = os.path.join(root, "w%d.json" % case["id"])
        json.dump([dict(f, name=self.names[i]) for i, f in enumerate(case["files"])], open(spec, "w"))
        p = subprocess.run([vh, "files", spec, self.dir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.remove(spec)
        if p.returncode != 0:
            raise RuntimeError("vh files: " + p.stdout.decode("utf-8", "replace")[-800:])
        default = os.path.join(repo, "model", MODEL)
        shutil.copy(default, os.path.join(self.dir, "model", MODEL))
        open(os.path.join(self.dir, "model", "other.txt"), "w").write(other_model(default))
        for i, b in enumerate(case["batches"]):
            write_batch(self.batch_path(i + 1, True), b, self.names)
        if case["pre"] in (1, 3, 5):
            open(self.out_path("csv", 1), "w").write("reference,degraded,moslqo\n" + "old one.wav,old two.wav,1.25\n" * 40)
        if case["pre"] in (2, 3, 5):
            open(self.out_path("log", 1), "w").write(json.dumps({"moslqo": 2.5, "earlier": [1, 2, 3]}, indent=2) + "\n")
        if case["pre"] in (4, 6):      # many earlier entries; the last one not ended by a newline
            many = "\n".join(json.dumps({"moslqo": 1 + i / 1000, "earlier": [i] * 20}, indent=2) for i in range(500))
            open(self.out_path("log", 1), "w").write(many + ("\n" if case["pre"] == 4 else ""))
            open(self.out_path("csv", 1), "w").write("reference,degraded,moslqo\nold.wav,old.wav,1.5")
        self.cache = {}

    def abs(self, p):
        return os.path.join(self.dir, p)

    def batch_path(self, i, full=False):
        p = "lists/b%d.csv" % i
        return self.abs(p) if full else p

    def out_path(self, kind, i, full=True):
        if i == 3:
            p = "model"                                  # a folder: nothing can be written there
            return self.abs(p) if full else p
        p = "out/%s%d.%s" % (kind, i, "csv" if kind == "csv" else "json")
        return self.abs(p) if full else p

    def call(self, args):
        env = {k: v for k, v in os.environ.items() if not k.startswith("RUST_")}
        try:
            p = subprocess.run(args, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=LIMIT)
            return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            return 124, "", "timeout"

    # -------------------------------------------------------- command lines ----
    def model_path(self, m):
        return {"default": "model/" + MODEL, "other": "model/other.txt", "missing": "model/none.txt"}[m]

    def argv(self, c):
        opts = []
        if c["ref"]:
            opts.append(["--reference_file", self.names[c["ref"] - 1]])
        if c["deg"]:
            opts.append(["--degraded_file", self.names[c["deg"] - 1]])
        if c["batch"]:
            opts.append(["--batch_input_csv", self.batch_path(c["batch"])])
        if c["radius"] >= 0:
            opts.append(["--search_window_radius", str(c["radius"])])
        if c["csv"]:
            opts.append(["--results_csv", self.out_path("csv", c["csv"], False)])
        if c["debug"]:
            opts.append(["--output_debug", self.out_path("log", c["debug"], False)])
        if c["verbose"]:
            opts.append(["--verbose"])
        x = c["extra"]
        if x == "unknown":
            opts.append(["--search_window"])
        elif x == "noval":
            opts = [["--search_window_radius"]]          # swallows the subcommand as its value
        elif x in ("radiustext", "radiusneg", "radiusempty", "radiusfloat"):
            opts = [o for o in opts if o[0] != "--search_window_radius"]
            opts.append(["--search_window_radius=" + {"radiustext": "ten", "radiusneg": "-1", "radiusempty": "", "radiusfloat": "2.5"}[x]])
        elif x == "positional":
            opts.append(["extra.wav"])
        elif x == "dup":
            opts = [o for o in opts if o[0] != "--search_window_radius"]
            opts += [["--reference_file", self.names[0]], ["--reference_file", self.names[1]], ["--degraded_file", self.names[1]]]
        elif x == "dupbatch":
            opts += [["--batch_input_csv", self.batch_path(1)], ["--batch_input_csv", self.batch_path(2)]]
        if x != "noval":
            random.Random(c["order"]).shuffle(opts)
        args = [a for o in opts for a in o]
        if x == "badsub":
            return [self.exe] + args + ["narrowband"]
        if c["sub"]:
            args.append(c["sub"])
            if c["unscaled"]:
                args.append("--use_unscaled_speech_mos_mapping")
            if c["model"]:
                args += ["--similarity_to_quality_model", self.model_path(c["model"])]
        return [self.exe] + args

    # --------------------------------------------------------- observations ----
    def read_csv(self, i):
        p = self.out_path("csv", i)
        if not os.path.exists(p):
            return {"there": False, "head": [], "rows": []}
        try:
            lines = list(csv.reader(io.StringIO(open(p, newline="").read(), newline="")))
        except Exception:
            return {"there": True, "head": ["unreadable"], "rows": []}
        return {"there": True, "head": lines[0] if lines else [], "rows": [r[:2] + [num(r[2])] + r[3:] if len(r) >= 3 else r for r in lines[1:]]}

    def read_log(self, i):
        p = self.out_path("log", i)
        if not os.path.exists(p):
            return []
        text = open(p, encoding="utf-8", errors="replace").read()
        out, at, dec = [], 0, json.JSONDecoder()
        while True:
            while at < len(text) and text[at].isspace():
                at += 1
            if at >= len(text):
                return out
            try:
                v, at = dec.raw_decode(text, at)
                out.append(canon(v))
            except ValueError:
                out.append("text:" + text[at:at + 40])
                return out

    def raw_logs(self):
        return [open(self.out_path("log", i), "rb").read() if os.path.exists(self.out_path("log", i)) else b"" for i in (1, 2)]

    @staticmethod
    def console(out):
        scores = [num(m.group(1)) for m in re.finditer(r"(?m)^MOS-LQO:\s*(\S+)\s*$", out)]
        return scores

    @staticmethod
    def cause(err, files, names):
        """the error a failing run names (its text without file names)"""
        m = re.findall(r"(?m)^Error: (.*)$", err)
        if m:
            return m[-1]
        m = re.findall(r"panicked at .*\n?(.*)", err)
        return "panic: " + m[0] if m else ""

    def verbose(self, out):
        """sections of a verbose run: paths, score and the two tables"""
        secs, cur = [], None
        for line in out.splitlines():
            line = re.sub(r"\x1b\[[0-9;]*m", "", line)
            m = re.match(r"Reference Filepath:\t ?(.*)$", line)
            if m:
                cur = {"ref": m.group(1), "deg": "", "score": "", "bands": [], "patches": [], "in": "", "seq": ["paths"]}
                secs.append(cur)
                continue
            if cur is None:
                continue
            m = re.match(r"Degraded Filepath:\t ?(.*)$", line)
            if m:
                cur["deg"] = m.group(1)
                continue
            m = re.match(r"MOS-LQO:\s*(\S+)", line)
            if m:
                cur["score"] = num(m.group(1))
                cur["seq"].append("score")
                continue
            if line.startswith("|"):
                cells = [c.strip() for c in line.strip().strip("|").split("|")]
                if cells[0] == "FVNSIM":
                    cur["in"] = "bands"
                elif cells[0] == "Patch Idx":
                    cur["in"] = "patches"
                elif set(line) <= set("|-+ "):
                    continue
                elif cur["in"]:
                    if cur["seq"][-1] != cur["in"]:
                        cur["seq"].append(cur["in"])
                    cur[cur["in"]].append([num(x) for c in cells for x in re.split(r"\s+-\s+", c)])
        return [{"ref": s["ref"], "deg": s["deg"], "score": s["score"], "tables": canon([s["bands"], s["patches"]]), "order": "-".join(s["seq"])} for s in secs]

    def loose(self, out, verbose):
        """lines of a report that belong to no section; without --verbose, any figure beside the scores
        (log messages and the line with the program's version apart)"""
        if not verbose:
            lines = [re.sub(r"\x1b\[[0-9;]*m", "", x) for x in out.splitlines()]
            other = [x for x in lines if not re.match(r"\d\d:\d\d:\d\d |MOS-LQO:|.*version", x)]
            return len([x for x in other if re.search(r"\d", x)])
        head = re.split(r"(?m)^(?:\x1b\[[0-9;]*m)*Reference Filepath:", out)[0]
        return len(re.findall(r"(?m)^\s*\||Filepath|FVNSIM|Patch Idx", head))

    def plain(self, c):
        """what the same command does without --verbose; the output files are put back afterwards"""
        keep, out = self.abs("keep"), self.abs("out")
        shutil.copytree(out, keep)
        rc, so, se = self.call(self.argv(dict(c, verbose=False)))
        left = self.left()
        shutil.rmtree(out)
        os.rename(keep, out)
        return [rc, self.console(so), left]

    def left(self):
        return {f: open(os.path.join(self.abs("out"), f), "rb").read() for f in sorted(os.listdir(self.abs("out")))}

    @staticmethod
    def tables(details):
        """what the tables of a comparison must contain"""
        bands = [[num(a), num(b)] for a, b in zip(details["fvnsim"], details["center_freq_bands"])]
        pat = [[num(i)] + [num(p[k]) for k in ("similarity", "ref_patch_start_time", "ref_patch_end_time", "deg_patch_start_time", "deg_patch_end_time")]
               for i, p in enumerate(details["patch_sims"])]
        return canon([bands, pat])

    # -------------------------------------------------------------- history ----
    def conf(self, c):
        return {"sub": c["sub"], "unscaled": c["unscaled"], "model": "none" if c["sub"] != "fullband" else (c["model"] or "default"), "radius": 60 if c["radius"] < 0 else c["radius"]}

    def alone(self, conf, r, d):
        c = {"sub": conf["sub"], "ref": r, "deg": d, "batch": 0, "unscaled": conf["unscaled"], "model": "" if conf["model"] == "none" else conf["model"],
             "radius": conf["radius"], "csv": 0, "debug": 0, "verbose": False, "extra": "", "order": 0}
        rc, out, err = self.call(self.argv(c))
        s = self.console(out)
        ok = rc == 0 and len(s) == 1
        return {"ok": ok, "score": s[0] if ok else "none", "entry": "none", "tables": "none", "cause": "" if ok else self.cause(err, self.case["files"], self.names)}

    def lib(self, conf, r, d):
        mode = "fullband" if conf["sub"] == "fullband" else ("unscaled" if conf["unscaled"] else "wideband")
        model = "-" if conf["model"] == "none" else self.model_path(conf["model"])
        rc, out, err = self.call([self.base, mode, model, str(conf["radius"]), self.names[r - 1], self.names[d - 1]])
        v = None
        for line in out.splitlines():
            if line.startswith('{"'):
                v = json.loads(line)
        if rc == 0 and v and v.get("ok"):
            return {"ok": True, "score": num(v["score"]), "entry": canon(v["details"]), "tables": self.tables(v["details"]), "cause": ""}
        return {"ok": False, "score": "none", "entry": "none", "tables": "none", "cause": (v or {}).get("debug", "") or self.cause(err, [], [])}

    def events(self, prop):
        case, out = self.case, []
        b = [{"ok": x["style"] not in ("binary", "onecolumn", "missing"), "rows": x["rows"]} for x in case["batches"]]
        out.append({"ev": "World", "names": self.names, "batches": b, "csv": [self.read_csv(1), self.read_csv(2)], "log": [self.read_log(1), self.read_log(2)]})
        want = []
        for c in case["runs"]:
            if c["sub"] not in ("wideband", "fullband") or c["extra"] or c["model"] == "missing":
                continue
            pairs = []
            if c["batch"] and b[c["batch"] - 1]["ok"]:
                pairs = [tuple(p) for p in b[c["batch"] - 1]["rows"]]
            elif c["ref"] and c["deg"]:
                pairs = [(c["ref"], c["deg"])]
            for p in pairs:
                k = (json.dumps(self.conf(c), sort_keys=True), p)
                if k not in want:
                    want.append(k)
        how = self.alone if prop == "C18" else self.lib
        for conf, (r, d) in want:
            conf = json.loads(conf)
            out.append(dict({"ev": "Base", "conf": conf, "ref": r, "deg": d}, **how(conf, r, d)))
        for c in case["runs"]:
            before = self.raw_logs()
            argv = self.argv(c)
            plain = self.plain(c) if prop == "C21" and c["verbose"] else None
            rc, so, se = self.call(argv)
            same = plain is None or plain == [rc, self.console(so), self.left()]
            after = self.raw_logs()
            e = {"ev": "Run", "cmd": {k: c[k] for k in c if k != "order"}, "argv": argv[1:], "rc": rc, "scores": self.console(so), "cause": self.cause(se, case["files"], self.names),
                 "usage": "error:" in se or "Usage" in se or "Usage" in so, "csv": [self.read_csv(1), self.read_csv(2)], "log": [self.read_log(1), self.read_log(2)],
                 "kept": all(a.startswith(x) for x, a in zip(before, after)), "sections": self.verbose(so), "loose": self.loose(so, c["verbose"]), "asplain": same, "stray": self.stray()}
            if e["rc"] not in (0,):
                e["stderr"] = se[-300:]
            out.append(e)
        out.append({"ev": "WorldEnd"})
        for e in out:
            e["case"] = case["id"]
        shutil.rmtree(self.dir, ignore_errors=True)
        return out

    def stray(self):
        """files nobody asked for"""
        want = {"csv1.csv", "csv2.csv", "log1.json", "log2.json"}
        return sorted(set(os.listdir(self.abs("out"))) - want)


def execute(exe, base, vh, cases, run, repo, ToolError, prop):
    root = os.path.join(run, "worlds")
    os.makedirs(root, exist_ok=True)
    todo = [json.loads(x) for x in open(cases)]
    trace = os.path.join(run, "trace.ndjson")

    def one(c):
        return World(c, exe, base, vh, root, repo).events(prop)
    with cf.ThreadPoolExecutor(8) as ex, open(trace, "w") as f:
        for evs in ex.map(one, todo):
            for e in evs:
                f.write(json.dumps(e) + "\n")
    shutil.rmtree(root, ignore_errors=True)
    return trace
