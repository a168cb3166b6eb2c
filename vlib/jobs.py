"""Command lines of jobs: what they leave in files, on standard output and as exit code."""
import json, os, random
from . import core, obs, projects, reports
from .md import toml_str

COMBOS = [("Trace", "Json"), ("Trace", "Markdown"), ("Trace", "GnuError"), ("Parse", "Json"), ("Parse", "Markdown"), ("Parse", "Tags")]
UNSUPPORTED = [("Trace", "Tags"), ("Parse", "GnuError")]
# destinations relative to the base directory; ABS is replaced by an absolute path below the scratch directory
GOOD_FILES = ["out1", "out2", "out1.json", "d/out3", "d/e/f/g/out4", "./d/out5", "d/../out6", "ABS/x/out7", "sp ace/Ä.md", "d/-", "./-", "--", "-q", "+/-o", "keep/old1", "keep/old2"]
BAD_FILES = ["blocked/x", "isdir", "afile/x", "readonly", "/dev/full", "/dev/full"]
NAMES = ["t", "a", "b", "trace", "Parse", "job 1", "Ä", "x.y", "T", "all", "-dash"[1:], "10"]


def single_finding(r):
    """Projects that have exactly one kind of finding."""
    L = {"f": "f", "k": "L", "l": "1", "c": "", "s": ""}
    q = lambda i, cov=(), dep=(), title=("t",): {"id": i, "title": list(title), "loc": L,
         "covers": [{"id": c, "title": list(t), "loc": L} for c, t in cov],
         "depends": [{"id": c, "title": list(t), "loc": L} for c, t in dep], "tags": [], "attrs": []}
    a = lambda i, reqs, **k: dict({"id": i, "ignore": "unset", "refTitle": False, "reqs": reqs, "errs": []}, **k)
    rel = [{"upper": "u", "lower": ["l"]}]
    ok = [q("L1", [("U1", ())])]
    two = lambda u, l, **k: {"arts": [a("u", u, **k.get("ku", {})), a("l", l, **k.get("kl", {}))], "rels": k.get("rels", rel)}
    return [
        two([q("U1")], ok),                                                     # none
        {"arts": [], "rels": []},
        {"arts": [a("u", [q("U1")])], "rels": []},
        two([q("U1"), q("U2")], ok),                                            # uncovered
        two([q("U1")], ok + [q("L2")]),                                         # derived
        two([q("U1")], ok + [q("L2")], kl={"ignore": "true"}),                  # none
        two([q("U1")], [q("L1", [("U1", ("T",))])]),                            # wrong title
        two([q("U1", (), [("L1", ("T",))])], [q("L1")]),                        # wrong title downwards
        two([q("U1", (), [("L1", ("t",))])], [q("L1")]),                        # none
        two([q("U1")], ok, ku={"refTitle": True}),                              # reference without title
        two([q("U1", (), (), ())], [q("L1", [("U1", ())], (), ())], kl={"refTitle": True}),  # input error: without title
        two([q("U1")], [q("L1", [("U1", ()), ("NO", ())])]),                    # unknown
        two([q("U1", (), [("NO", ())])], ok),                                   # unknown downwards
        two([], [], rels=rel),                                                  # unused relation
        two([q("U1")], ok, rels=rel + [{"upper": "l", "lower": []}]),           # uncovered along an empty relation
        two([q("U1")], ok + [q("U1")]),                                         # the same id in two artefacts
        two([q("U1"), q("U1")], ok),                                            # the same id in one artefact
        {"arts": [a("u", [], raw="["), a("l", [])], "rels": []},                # format error
        {"arts": [a("u", [], kind="missing")], "rels": []},                     # io error
        {"arts": [a("u", [], kind="two")], "rels": []},                         # configuration of an artefact
        two([q("U1", (), [("L1", ())])], [q("L1")], ku={"ignore": "false"}),    # derived at the top
    ]


def with_clean(p, first):
    """The project with complete artefacts before or behind its own."""
    L = {"f": "g", "k": "L", "l": "1", "c": "", "s": ""}
    q = lambda i, cov=(): {"id": i, "title": ["t"], "loc": L, "covers": [{"id": c, "title": [], "loc": L} for c in cov], "depends": [],
                           "tags": [], "attrs": []}
    n = "aa" if first else "zz"
    arts = [{"id": n + k, "ignore": "unset", "refTitle": False, "reqs": rs, "errs": []}
            for k, rs in (("1", [q("AA1" if first else "ZZ1")]), ("2", [q("AA2" if first else "ZZ2", ["AA1" if first else "ZZ1"])]))]
    rel = [{"upper": n + "1", "lower": [n + "2"]}]
    return {"arts": arts + p["arts"] if first else p["arts"] + arts, "rels": rel + p["rels"] if first else p["rels"] + rel}


def rnd_jobs(r, clean):
    """clean: only jobs that can be written."""
    jobs = []
    for n in r.sample(NAMES, r.randint(1, 6)):
        q, f = r.choice(COMBOS)
        file = "-" if r.random() < 0.2 else r.choice(GOOD_FILES)
        if not clean and r.random() < 0.12:
            file = r.choice(BAD_FILES)
        if not clean and r.random() < 0.06:
            q, f = r.choice(UNSUPPORTED)
        jobs.append({"name": n, "query": q, "fmt": f, "file": file, "src": r.choice(["unset", "unset", "true", "false", "false"])})
    return jobs


def rnd_case(r, pid, proj, clean):
    jobs = rnd_jobs(r, clean)
    names = [j["name"] for j in jobs]
    req = [r.choice(names) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 4]))]
    defaults = [r.choice(names) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if not clean and r.random() < 0.1:
        (req if req else defaults).insert(r.randint(0, len(req or defaults)), r.choice(["nope", "T ", "Trace", "", "jobs"]))
    return {"pid": pid, "proj": proj, "jobs": jobs, "defaults": defaults, "req": req, "base": r.choice([".", ".", "base", "b/a [1]"])}


def generate(tier, seed):
    r = random.Random(f"jobs{seed}{tier}")
    projs = single_finding(r)
    for _ in range(20 if tier == "quick" else 200):
        p = projects.random_project(r, dups=r.choice([0, 0.1]), lines=True)
        if r.random() < 0.4:
            p["arts"].append(reports.special_artefact(r, 0))
        projs.append(p)
    cases = []
    # the finding at either end of a larger project
    for p in projs[:len(projs) - (20 if tier == "quick" else 200)]:
        for first in (False, True):
            larger = with_clean(p, first)
            for q in ("Trace", "Parse"):
                cases.append({"pid": -1, "proj": larger, "jobs": [{"name": "j", "query": q, "fmt": "Json", "file": "out1", "src": "unset"}],
                              "defaults": [], "req": ["j"], "base": "."})
    # each destination with each output
    for f in ["-"] + GOOD_FILES:
        for i, (q, fmt) in enumerate(COMBOS):
            cases.append({"pid": 0, "proj": projs[i % 5], "jobs": [{"name": "j", "query": q, "fmt": fmt, "file": f, "src": "unset"}],
                          "defaults": ["j"], "req": [], "base": r.choice([".", "base"])})
    for i, p in enumerate(projs):
        # each kind of job alone, whether it counts or not
        for q, f in COMBOS:
            for src in ("unset", "true", "false"):
                if src != "true" or f == "Json":
                    cases.append({"pid": i, "proj": p, "jobs": [{"name": "j", "query": q, "fmt": f, "file": "out1", "src": src}],
                                  "defaults": [], "req": ["j"], "base": "."})
        for k in range(25 if tier == "quick" else 60):
            cases.append(rnd_case(r, i, p, clean=k % 2 == 0))
    return cases, {"projects": len(projs)}


def kind_of(data):
    """The token of an output, from what it looks like."""
    try:
        s = data.decode("utf-8")
    except UnicodeDecodeError:
        return "?"
    if s.startswith("!_TAG_"):
        return "Parse/Tags"
    if s.startswith("# Parsing Errors\n") and "\nDerived Requirement\n" in s:
        return "Trace/GnuError"
    if s.startswith("{"):
        try:
            j = json.loads(s)
        except ValueError:
            return "?"
        return "Trace/Json" if "trace" in j else "Parse/Json" if "requirements" in j else "?"
    return "Trace/Markdown" if "\n# Requirements\n" in s else "Parse/Markdown"


def reference(proj, base):
    """The outputs of all kinds of jobs, one by one on standard output. The base directory is part of paths in them."""
    d = core.new_dir("r")
    try:
        b = os.path.join(d, base)
        jobs = {f"{q}/{f}": (q, f, "-") for q, f in COMBOS}
        setup(d, base, proj, [{"name": n, "query": q, "fmt": f, "file": "-", "src": "unset"} for n, (q, f, _) in jobs.items()], [])
        res = {}
        for n in jobs:
            rc, so, se = core.run_cli(d, ["-b", base, n])
            res[n] = so if rc in (0, 1) else b"<failed>"
        return res
    finally:
        core.drop_dir(d)


def setup(d, base, proj, jobs, defaults):
    b = os.path.normpath(os.path.join(d, base))
    projects.write_project(b, proj, {})
    cfg = projects.config(proj, {})
    top = ""
    if defaults:
        top = "default_jobs = [" + ", ".join(map(toml_str, defaults)) + "]\n"
    for j in jobs:
        cfg += f"[jobs.{toml_str(j['name'])}]\nquery = \"{j['query']}\"\nformat = \"{j['fmt']}\"\nfile = {toml_str(j['file'])}\n"
        if j["src"] != "unset":
            cfg += f"set_return_code = {j['src']}\n"
    core.write_file(os.path.join(d, "requirements.toml"), top + cfg)


OLD = {"keep/old1": b"old content " * 5000, "keep/old2": b"x"}


def run_case(c, refs):
    d = core.new_dir("j")
    try:
        base = os.path.normpath(os.path.join(d, c["base"]))
        absdir = os.path.join(d, "abs")
        jobs = [dict(j, file=j["file"].replace("ABS", absdir)) for j in c["jobs"]]
        setup(d, c["base"], c["proj"], jobs, c["defaults"])
        for f, data in OLD.items():
            core.write_file(os.path.join(base, f), data)
        core.write_file(os.path.join(base, "afile"), b"a file")
        core.write_file(os.path.join(base, "readonly"), b"read only")
        os.chmod(os.path.join(base, "readonly"), 0o444)
        os.chown(os.path.join(base, "readonly"), 0, 0)
        for x in ("blocked", "isdir"):
            os.mkdir(os.path.join(base, x))
            os.chmod(os.path.join(base, x), 0o555)
        before = listing(d)
        rc, so, se = core.run_cli(d, ["-b", c["base"], "--"] + c["req"])
        after = listing(d)
        canon = lambda f: f if f == "-" else named(os.path.relpath(os.path.normpath(os.path.join(base, f)), d))
        tok = lambda f, data: tokenize(data, refs, before.get(f))
        universe = set(before) | set(after) | {canon(j["file"]) for j in jobs if j["file"] != "-"}
        full = [canon("/dev/full")]
        bad = sorted({canon(f) for f in BAD_FILES} - set(full))
        pairs = lambda fs: [[f, tok(f, fs[f]) if f in fs else "absent"] for f in sorted(universe) if f not in bad + full]
        out = split_out(so, refs)
        tr = projects.read_trace(refs["Trace/Json"])
        if any(kind_of(data) != n for n, data in refs.items()):
            tr = projects.BAD_TRACE
        return {"cfg": {"jobs": [dict(j, file=canon(j["file"])) for j in jobs], "defaults": c["defaults"]}, "req": c["req"],
                "bad": bad, "full": full, "silent": [n for n, x in refs.items() if not x], "before": pairs(before), "tr": tr,
                "obs": {"rc": str(rc), "fs": pairs(after), "out": out, "err": bool(se.strip())}}
    finally:
        core.drop_dir(d)


def named(f):
    """A file that has the name of standard output."""
    return "./-" if f == "-" else f


def listing(d):
    res = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                res[named(os.path.relpath(p, d))] = h.read()
    return res


def tokenize(data, refs, old):
    for n, x in refs.items():
        if x == data:
            return n
    if data == old:
        return "old"
    return "?" + str(len(data))


def split_out(data, refs):
    out = []
    order = sorted(refs.items(), key=lambda x: -len(x[1]))
    while data:
        for n, x in order:
            if x and data.startswith(x):
                out.append(n)
                data = data[len(x):]
                break
        else:
            return out + ["?" + str(len(data))]
    return out


_refs = {}


def execute(cases):
    keys = {}
    for c in cases:
        k = json.dumps([c["proj"], c["base"]], sort_keys=True)
        keys.setdefault(k, c)
    todo = [(k, c) for k, c in keys.items() if k not in _refs]
    for (k, _), r in zip(todo, core.parallel(lambda x: reference(x[1]["proj"], x[1]["base"]), todo)):
        _refs[k] = r
    return core.parallel(lambda c: run_case(c, _refs[json.dumps([c["proj"], c["base"]], sort_keys=True)]), cases)


def describe(c):
    return "jobs %s, default %s, command line %s, base %s; %s" % (
        "; ".join(f"{j['name']}: {j['query']}/{j['fmt']} to {j['file']} (counts: {j['src']})" for j in c["jobs"]), c["defaults"],
        c["req"], c["base"], projects.describe(c)[:200])
