"""Runs that overlap and runs that are killed. Inputs and outputs are pipes where a run shall wait."""
import array, fcntl, json, os, random, select, subprocess, termios, time
from . import core
from .md import toml_str

COMBOS = [("Trace", "Json"), ("Trace", "Markdown"), ("Trace", "GnuError"), ("Parse", "Json"), ("Parse", "Markdown"), ("Parse", "Tags")]
PARSERS = {"json": "Json", "md": "Markdown", "mono": "MonoRequirement", "rs": "Rust"}
F_SETPIPE_SZ = 1031
PIPE = 4096                 # a run that writes more than this waits for somebody who reads it
PATIENCE = 30.0
stuck = []                  # a program that keeps being stuck is not waited for as long


def patience():
    return PATIENCE if len(stuck) < 3 else 4.0


# ------------------------------------------------------------ cases

def content(kind, k, n):
    """A file with n requirements; the ids of different files differ."""
    if kind == "json":
        loc = lambda i: {"file": f"somewhere/{k}", "location_in_file": {"Line": i}}
        return json.dumps([{"id": f"J{k}_{i}", "title": f"Title {i}", "location": loc(i), "tags": [], "depends": [],
                            "covers": [{"id": f"M{k}_{i}", "title": None, "location": loc(i)}], "attributes": {"Description": "words " * 12}} for i in range(n)])
    if kind == "md":
        return "".join(f"# D{k}_{i}: Title {i}\n\n{'words ' * 12}\n\nCovers: U{k}_{i}\n\n" for i in range(n))
    if kind == "rs":
        return "".join(f"fn f{k}_{i}() {{\n    requirement_covered!(X{k}_{i}: \"Title\");\n}}\n" for i in range(n))
    # every error of this one names all that it covers
    return "Title\n" + "".join(f"=> Y{k}_{i}: Title {i}\n" for i in range(min(n, 30)))


def make_process(r, p, waits, stops, jobs=None):
    """A run with that many inputs and outputs to wait for. Inputs: [parser, it is a pipe]."""
    arts = [{"kind": r.choice(["json", "md", "rs", "mono"]), "n": r.choice([70, 100]), "pipe": k < waits} for k in range(waits + r.choice([0, 1, 2]))]
    r.shuffle(arts)
    if not any(a["kind"] in ("json", "md") for a in arts):
        arts.append({"kind": "json", "n": 80, "pipe": False})
    dirs = [f"o{p}", f"o{p}/sub", "shared"]
    if jobs is None:
        jobs = []
        for k in range(stops):
            for _ in range(r.choice([0, 1, 1, 2])):
                jobs.append({"pipe": False})
            jobs.append({"pipe": True})
        for _ in range(r.choice([0, 1, 2])):
            jobs.append({"pipe": False})
        if not jobs:
            jobs.append({"pipe": False})
    names = []
    for i, j in enumerate(jobs):
        j["q"], j["f"] = r.choice(COMBOS if not j["pipe"] else COMBOS[:2] + COMBOS[3:5])
        again = [x for x in names if x is not None]
        if not j["pipe"] and again and r.random() < 0.25:
            j["file"] = r.choice(again)
        else:
            j["file"] = f"{r.choice(dirs)}/{p}-{i}{r.choice(['', '.json', '.md', '.tmp', '.log'])}"
        names.append(None if j["pipe"] else j["file"])
    old = [f for f in sorted({f for f in names if f}) if r.random() < 0.6]
    return {"arts": arts, "jobs": jobs, "old": old}


def make_case(r, acts, shape):
    """acts: [what, process] in order."""
    procs = [make_process(r, p, *w) for p, w in enumerate(shape)]
    return {"procs": procs, "acts": acts, "base": r.choice([".", ".", "base"])}


def schedules(a, b):
    out = os.path.join(core.scratch(), f"runs{a}{b}.ndjson")
    core.tlc_model("Gen_Runs", f'SPECIFICATION Spec\nCONSTANTS\n  Stops1 = {a}\n  Stops2 = {b}\n  OutFile = "{out}"\nCHECK_DEADLOCK FALSE\n', "generation")
    with open(out, encoding="utf-8") as f:
        res = [json.loads(x)["s"] for x in f if x.strip()]
    os.unlink(out)
    return sorted(res)


def generate(tier, seed):
    r = random.Random(f"runs{seed}{tier}")
    cases = []
    # one run, killed at each place where it waits, or not at all
    for waits in (0, 1, 2):
        for stops in (0, 1, 2):
            n = waits + stops + 1
            for k in range(1, n + 1):
                acts = [["go", 0]] * k + ([["kill", 0]] if k < n else [])
                for _ in range(2 if tier == "quick" else 12):
                    cases.append(make_case(r, acts, [(waits, stops)]))
    single = len(cases)
    # all schedules of two runs
    shapes = [((1, 1), (1, 1)), ((0, 2), (1, 1)), ((2, 0), (1, 1))] if tier == "quick" else [((a, b), (c, d)) for a in (0, 1, 2) for b in (0, 1, 2) for c in (0, 1) for d in (1, 2)]
    total = 0
    for x, y in shapes:
        ss = schedules(sum(x) + 1, sum(y) + 1)
        total += len(ss)
        for s in r.sample(ss, min(len(ss), 75 if tier == "quick" else 110)):
            cases.append(make_case(r, [["go" if p > 0 else "kill", abs(p) - 1] for p in s], [x, y]))
    two = len(cases) - single
    # killed at some moment
    for _ in range(110 if tier == "quick" else 1200):
        w, s = r.choice([0, 0, 1]), r.choice([0, 0, 0, 1])
        k = r.randrange(w + s + 1)
        c = make_case(r, [["go", 0]] * k + [["crash", 0, r.choice([r.uniform(0, 0.004), r.uniform(0, 0.03)])]], [(w, s)])
        for p in c["procs"]:
            for a in p["arts"]:
                a["n"] = r.choice([40, 300]) if not a["pipe"] else a["n"]
        cases.append(c)
    # at the same time, as it comes
    for _ in range(40 if tier == "quick" else 250):
        n = r.choice([2, 3, 4, 6])
        cases.append(make_case(r, [["all"]], [(0, 0)] * n))
    return cases, {"single": single, "schedules": f"{two} of {total}", "cases": len(cases)}


# ------------------------------------------------------------ execution

def path_of(p, k, a):
    return f"in/{p if a['pipe'] else 'shared-%d' % p}-{k}.{'md' if a['kind'] == 'mono' else a['kind']}"


def config(case, p):
    proc = case["procs"][p]
    cfg, ids = "", []
    for k, a in enumerate(proc["arts"]):
        ids.append(f"a{k}")
        cfg += f'[[artefacts]]\nid = "a{k}"\nparser = "{PARSERS[a["kind"]]}"\npaths = [{toml_str(path_of(p, k, a))}]\n'
    for k, j in enumerate(proc["jobs"]):
        cfg += f'[jobs.j{k}]\nquery = "{j["q"]}"\nformat = "{j["f"]}"\nfile = {toml_str(j["file"])}\n'
    rel = [f'{{upper = "{ids[i]}", lower = ["{ids[i + 1]}"]}}' for i in range(len(ids) - 1)]
    return f"relations = [{', '.join(rel)}]\n" + cfg


def args_of(case, p):
    return ["-c", f"c{p}.toml", "-b", case["base"]] + [f"j{k}" for k in range(len(case["procs"][p]["jobs"]))]


def prepare(d, case, p, pipes):
    """The inputs, the configuration and the old outputs of a run."""
    b = os.path.normpath(os.path.join(d, case["base"]))
    proc = case["procs"][p]
    core.write_file(f"{d}/c{p}.toml", config(case, p))
    for k, a in enumerate(proc["arts"]):
        f = os.path.join(b, path_of(p, k, a))
        if pipes and a["pipe"]:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            os.mkfifo(f)
            os.chmod(f, 0o666)
        else:
            core.write_file(f, content(a["kind"], k, a["n"]))
    for j in proc["jobs"]:
        f = os.path.join(b, j["file"])
        x = os.path.dirname(f)
        os.makedirs(x, exist_ok=True)
        while x != d:
            os.chmod(x, 0o777)
            x = os.path.dirname(x)
        if pipes and j["pipe"]:
            os.mkfifo(f)
            os.chmod(f, 0o666)
        elif pipes and j["file"] in proc["old"]:
            core.write_file(f, OLD)
            os.chmod(f, 0o666)


OLD = b"something that was there before\n" * 2000


def reference(case, p):
    """What each job of the run gives on its own, and the exit code of all."""
    d = core.new_dir("r")
    try:
        prepare(d, case, p, False)
        b = os.path.normpath(os.path.join(d, case["base"]))
        kinds = sorted({(j["q"], j["f"]) for j in case["procs"][p]["jobs"]})
        plain = dict(case["procs"][p], jobs=[{"q": q, "f": f, "file": f"ref{k}"} for k, (q, f) in enumerate(kinds)])
        alone = dict(case, procs=case["procs"][:p] + [plain])
        core.write_file(f"{d}/c{p}.toml", config(alone, p))
        rc, _, _ = core.run_cli(d, args_of(alone, p))
        if rc not in (0, 1):
            return None, rc
        got = {}
        for k, x in enumerate(kinds):
            with open(os.path.join(b, f"ref{k}"), "rb") as f:
                got[x] = f.read()
        return [got[j["q"], j["f"]] for j in case["procs"][p]["jobs"]], rc
    except OSError:
        return None, None
    finally:
        core.drop_dir(d)


class Run:
    def __init__(self, d, b, case, p):
        self.p, self.d, self.case = p, d, case
        proc = case["procs"][p]
        self.inputs = {path_of(p, k, a): content(a["kind"], k, a["n"]).encode() for k, a in enumerate(proc["arts"]) if a["pipe"]}
        self.outputs = [j["file"] for j in proc["jobs"] if j["pipe"]]
        self.base = b
        self.read = {}
        self.waits = None           # ("asks", path, descriptor) or ("blocks", path)
        self.served = set()
        self.proc = None
        for f in self.outputs:
            fd = os.open(os.path.join(b, f), os.O_RDONLY | os.O_NONBLOCK)
            fcntl.fcntl(fd, F_SETPIPE_SZ, PIPE)
            self.read[f] = fd

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": self.d, "REQTRACE_LOG": "off", "RUST_BACKTRACE": "0"}
        kw = dict(user=core.NOBODY, group=core.NOBODY, extra_groups=[]) if os.geteuid() == 0 else {}
        self.proc = subprocess.Popen(core.LIMITS + [core.build()] + args_of(self.case, self.p), cwd=self.d, env=env, stdin=subprocess.DEVNULL,
                                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **kw)

    def asked(self, again=False):
        for f in self.inputs:
            if (f in self.served) == again:
                try:
                    return f, os.open(os.path.join(self.base, f), os.O_WRONLY | os.O_NONBLOCK)
                except OSError:
                    pass
        return None

    def next_wait(self):
        """-> an event"""
        t0 = time.time()
        nap = 0.0002
        while time.time() - t0 < patience():
            rc = self.proc.poll()
            if rc is not None:
                self.waits = None
                return {"e": "ends", "x": str(rc)}
            # a run that reads an input once more gets it once more
            a = self.asked() or (time.time() - t0 > 3 and self.asked(True))
            if a:
                self.waits = ("asks",) + a
                return {"e": "asks", "x": a[0]}
            for f, fd in self.read.items():
                n = array.array("i", [0])
                fcntl.ioctl(fd, termios.FIONREAD, n)
                if n[0] > 0:
                    self.waits = ("blocks", f)
                    return {"e": "blocks", "x": f}
            time.sleep(nap)
            nap = min(nap * 1.5, 0.01)
        stuck.append(self.p)
        self.proc.kill()
        self.proc.wait()
        return {"e": "stuck", "x": ""}

    def release(self):
        """-> an event, or None"""
        if self.waits is None:
            return None
        kind, f = self.waits[:2]
        if kind == "asks":
            fd = self.waits[2]
            os.set_blocking(fd, True)
            try:
                with os.fdopen(fd, "wb") as w:
                    w.write(self.inputs[f])
            except OSError:
                pass
            self.served.add(f)
            self.waits = None
            return {"e": "gets", "x": f}
        data, t0, fd = [], time.time(), self.read[f]
        try:
            fcntl.fcntl(fd, F_SETPIPE_SZ, 1 << 18)
        except OSError:
            pass
        while True:
            if time.time() - t0 >= patience():
                stuck.append(self.p)
                break
            try:
                x = os.read(fd, 1 << 18)
                if not x:
                    break
                data.append(x)
            except BlockingIOError:
                select.select([fd], [], [], 1.0)
        data = b"".join(data)
        self.waits = None
        return {"e": "drains", "x": f, "data": data}

    def kill(self):
        self.proc.kill()
        self.proc.wait()
        if self.waits and self.waits[0] == "asks":
            os.close(self.waits[2])
        self.waits = None

    def close(self):
        if self.proc and self.proc.poll() is None:
            self.kill()
        for fd in self.read.values():
            os.close(fd)


def listing(b, pipes):
    res = {}
    for root, _, files in os.walk(b):
        for f in files:
            p = os.path.join(root, f)
            n = os.path.relpath(p, b)
            if n not in pipes:
                with open(p, "rb") as h:
                    res[n] = h.read()
    return res


def execute(cases):
    return core.parallel(one, cases)


def one(case):
    refs = [reference(case, p) for p in range(len(case["procs"]))]
    d = core.new_dir("runs")
    runs = []
    try:
        b = os.path.normpath(os.path.join(d, case["base"]))
        for p in range(len(case["procs"])):
            prepare(d, case, p, True)
        pipes = [path_of(p, k, a) for p, x in enumerate(case["procs"]) for k, a in enumerate(x["arts"]) if a["pipe"]]
        pipes += [j["file"] for x in case["procs"] for j in x["jobs"] if j["pipe"]]
        rec_runs, toks = [], {}
        for p, x in enumerate(case["procs"]):
            outs, rc = refs[p]
            js = []
            for k, j in enumerate(x["jobs"]):
                if outs is None or not outs[k] or (j["pipe"] and len(outs[k]) <= PIPE):
                    return {"runs": [], "pipes": [], "before": [], "ev": [{"e": "unusable", "p": 1, "x": str(rc), "tok": "", "fs": []}]}
                t = f"{p}:{j['q']}/{j['f']}"
                js.append({"file": j["file"], "tok": t})
                toks.setdefault(j["file"], {})[t] = outs[k]
            rec_runs.append({"inputs": [path_of(p, k, a) for k, a in enumerate(x["arts"]) if a["pipe"]], "jobs": js, "rc": str(rc)})
        before = listing(b, pipes)

        def token(f, data):
            if f in before and data == before[f]:
                return "old"
            for t, x in toks.get(f, {}).items():
                if data == x:
                    return t
            if any(x.startswith(data) for x in toks.get(f, {}).values()):
                return "part"
            return "?" + str(len(data))
        universe = sorted(set(before) | set(toks) - set(pipes))
        start = [[f, "old" if f in before else "absent"] for f in universe] + [[f, "pipe"] for f in pipes]

        def snapshot():
            now = listing(b, pipes)
            return [[f, token(f, now[f]) if f in now else "absent"] for f in sorted(set(universe) | set(now))] + [[f, "pipe"] for f in pipes]
        ev = []

        def see(p, e, fs=None):
            x = {"e": e["e"], "p": p + 1, "x": e["x"], "tok": "", "fs": fs or []}
            if "data" in e:
                x["tok"] = next((t for t, y in toks[e["x"]].items() if y == e["data"]), "?" + str(len(e["data"])))
            ev.append(x)
        runs = [Run(d, b, case, p) for p in range(len(case["procs"]))]
        for act in case["acts"]:
            if act[0] == "all":
                for x in runs:
                    x.start()
                for x in runs:
                    e = x.next_wait()
                    see(x.p, e, snapshot() if x is runs[-1] else None)
                continue
            x = runs[act[1]]
            if act[0] == "kill":
                if x.proc.poll() is None:
                    x.kill()
                    see(x.p, {"e": "killed", "x": ""}, snapshot())
                continue
            if x.proc is None:
                x.start()
            elif x.waits is None:
                continue
            else:
                see(x.p, x.release())
            if act[0] == "crash":
                time.sleep(act[2])
                # the inputs are all given by then, or it waits for one
                if x.proc.poll() is None:
                    x.kill()
                    see(x.p, {"e": "crashed", "x": ""}, snapshot())
                    continue
            see(x.p, x.next_wait(), snapshot())
        # those that still run come to their ends
        for x in runs:
            n = 0
            while x.proc is not None and x.proc.returncode is None and x.waits and n < 50:
                see(x.p, x.release())
                see(x.p, x.next_wait(), snapshot())
                n += 1
        return {"runs": rec_runs, "pipes": pipes, "before": start, "ev": ev}
    finally:
        for x in runs:
            x.close()
        core.drop_dir(d)


def describe(c):
    return json.dumps({"runs": [{"inputs": [(a["kind"], "pipe" if a["pipe"] else "file") for a in x["arts"]],
                                 "jobs": [f"{j['q']}/{j['f']} to {'pipe ' if j['pipe'] else ''}{j['file']}" for j in x["jobs"]]} for x in c["procs"]],
                       "schedule": c["acts"], "base": c["base"]})[:900]
