"""Histories of runs over the same inputs."""
import copy, hashlib, json, os, random
from . import core, md, mono, projects, rust, obs
from .sources import PARSERS

JOBS = {"tj": ("Trace", "Json"), "tm": ("Trace", "Markdown"), "tg": ("Trace", "GnuError"), "pj": ("Parse", "Json"), "pm": ("Parse", "Markdown"),
        "pt": ("Parse", "Tags")}
NAMES = list(JOBS)


def make_case(r):
    """Files, artefacts and relations, and the runs to do with them."""
    proj = projects.random_project(r, dups=r.choice([0, 0.1, 0.3]), texts=r.random() < 0.5)
    files, arts = {}, []
    for k, a in enumerate(proj["arts"]):
        files[f"a{k}.json"] = json.dumps([projects.req_json(q) for q in a["reqs"]], ensure_ascii=False).encode().hex()
        arts.append({"id": a["id"], "parser": "json", "paths": [f"a{k}.json"], "ignore": a["ignore"], "refTitle": a["refTitle"]})
    rels = proj["rels"]
    for k in range(r.choice([0, 1, 2, 3])):
        parser = r.choice(["md", "md", "mono", "rust", "rust"])
        i = f"z{k}"
        if parser == "md":
            n, b = [f"z{k}.md"], ["".join(md.random_doc(r)["lines"])]
        elif parser == "mono":
            n, b = [f"z{k}.md"], ["".join(mono.random_doc(r))]
        else:
            n = [f"z{k}/{x}.rs" for x in r.sample(["a", "b", "B", "c/d", "c/e", "z", "10", "9"], r.choice([1, 2, 4, 6]))]
            b = ["".join(c["t"] for c in rust.random_doc(r)) for _ in n]
        for x, y in zip(n, b):
            files[x] = y.encode().hex()
        arts.append({"id": i, "parser": parser, "paths": n if parser != "rust" else r.choice([n, [f"z{k}/**/*.rs"], [f"z{k}/**/*.rs"]]),
                     "ignore": r.choice(["unset", "true", "false"]), "refTitle": r.random() < 0.3})
        if r.random() < 0.8:
            o = r.choice(arts)["id"]
            rels.append({"upper": o, "lower": [i]} if r.random() < 0.6 else {"upper": i, "lower": [o]})
    if r.random() < 0.15 and arts:
        arts[0]["paths"] = r.choice([["gone.json"], []])
    ext = {n: r.choice(["", "", ".json", ".md", ".log", ".txt", ".tags", ".gnu", ".tmp", "~", ".1"]) for n in NAMES}
    na, nr = len(arts), len(rels)
    ident = list(range(na)), list(range(nr))
    run = lambda a=None, q=None, jobs=NAMES, where=0, **kw: dict({"arts": a or ident[0], "rels": q or ident[1], "jobs": list(jobs), "where": where, "defs": NAMES,
                                                                 "log": "off", "files": 1}, **kw)
    runs = [run(), run()]
    for w in (1, 2):
        x = list(NAMES)
        r.shuffle(x)
        dd = list(NAMES)
        r.shuffle(dd)
        runs.append(run(a=r.sample(ident[0], na), jobs=x, where=w, defs=dd, files=-1, log=r.choice(["off", "trace", "debug", "info"])))
    runs.append(run(jobs=[r.choice(NAMES)], where=0))
    runs.append(run(a=list(reversed(ident[0])), jobs=[r.choice(NAMES), r.choice(NAMES), r.choice(NAMES)], where=1))
    one = r.choice(NAMES)
    runs.append(run(jobs=[one], where=3, defs=[one]))
    if nr > 1:
        q = r.sample(ident[1], nr)
        runs.append(run(q=q, where=4))
        runs.append(run(a=r.sample(ident[0], na), q=q, jobs=reversed(NAMES), where=5))
        runs.append(run(q=list(reversed(ident[1])), where=4))
    return {"files": files, "arts": arts, "rels": rels, "runs": runs, "ext": ext}


def generate(tier, seed):
    r = random.Random(f"history{seed}{tier}")
    cases = [make_case(r) for _ in range(220 if tier == "quick" else 2500)]
    return cases, {"random": len(cases), "runs": sum(len(c["runs"]) for c in cases)}


def config(case, run):
    cfg = "relations = [" + ", ".join("{upper = " + md.toml_str(x["upper"]) + ", lower = [" + ", ".join(map(md.toml_str, x["lower"])) + "]}"
                                      for x in (case["rels"][i] for i in run["rels"])) + "]\n"
    if not case["arts"]:
        cfg += "artefacts = []\n"
    for i in run["arts"]:
        a = case["arts"][i]
        cfg += "[[artefacts]]\nid = " + md.toml_str(a["id"]) + f'\nparser = "{PARSERS[a["parser"]]}"\npaths = [' + ", ".join(map(md.toml_str, a["paths"])) + "]\n"
        if a["ignore"] != "unset":
            cfg += f'ignore_derived_requirements = {a["ignore"]}\n'
        cfg += f'reference_with_title = {str(a["refTitle"]).lower()}\n'
    for n in run["defs"]:
        cfg += f'[jobs.{n}]\nquery = "{JOBS[n][0]}"\nformat = "{JOBS[n][1]}"\nfile = "out/{n}{case["ext"][n]}"\n'
    return cfg


def digest(d, names):
    """Names and contents of everything but the output directory."""
    h = hashlib.sha256()
    for root, dirs, fs in os.walk(d):
        dirs.sort()
        if root == d and "out" in dirs:
            dirs.remove("out")
        for x in sorted(fs):
            p = os.path.join(root, x)
            if p == os.path.join(d, "requirements.toml"):
                continue
            with open(p, "rb") as f:
                h.update(os.path.relpath(p, d).encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()


def findings(data):
    """The findings of a trace as texts, one for each."""
    t = obs.trace(json.loads(data.decode("utf-8")))
    res = []
    dump = lambda *x: res.append(json.dumps(x, sort_keys=True))
    for a in t["arts"]:
        dump("artefact", a["id"], a["files"], a["ignore"], a["refTitle"], a["reqs"])
        for e in a["errs"]:
            dump("input", a["id"], e)
    for x in t["rels"]:
        dump("relation", x["upper"], x["lower"])
        for c in x["covered"]:
            dump("covered", x["upper"], x["lower"], c)
        for c in x["uncovered"]:
            dump("uncovered", x["upper"], x["lower"], c)
    for x in t["derived"]:
        for i in x["ids"]:
            dump("derived", x["art"], i)
    for e in t["errs"]:
        dump("tracing", e)
    return sorted(set(res))


def one(case):
    dirs = {}
    try:
        runs, inputs = [], None
        for run in case["runs"]:
            w = run["where"]
            if w not in dirs:
                d = dirs[w] = core.new_dir("h")
                names = sorted(case["files"])[::run["files"]]
                for n in names:
                    core.write_file(f"{d}/{n}", bytes.fromhex(case["files"][n]))
            d = dirs[w]
            cfg = config(case, run)
            core.write_file(f"{d}/requirements.toml", cfg)
            before = digest(d, case["files"])
            inputs = inputs or before
            rc, so, se = core.run_cli(d, run["jobs"], log_level=run["log"])
            after = digest(d, case["files"])
            with open(f"{d}/requirements.toml", encoding="utf-8") as f:
                if f.read() != cfg:
                    after = "the configuration was changed"
            jobs, finds = [], []
            for j in run["jobs"]:
                try:
                    with open(f"{d}/out/{j}{case['ext'][j]}", "rb") as f:
                        b = f.read()
                    jobs.append({"job": j, "out": hashlib.sha256(b).hexdigest()})
                    if j == "tj":
                        finds = [findings(b)]
                except (OSError, ValueError, KeyError, TypeError, IndexError, obs.Malformed):
                    jobs.append({"job": j, "out": "none"})
            runs.append({"rels": json.dumps([case["rels"][i] for i in run["rels"]]), "jobs": jobs, "rc": rc if rc is not None else -999, "finds": finds,
                         "before": before, "after": after})
        return {"inputs": inputs, "runs": runs}
    finally:
        for d in dirs.values():
            core.drop_dir(d)


def execute(cases):
    return core.parallel(one, cases)


def describe(c):
    return json.dumps({"artefacts": [(a["id"], a["parser"], a["paths"]) for a in c["arts"]], "relations": c["rels"],
                       "runs": [(r["arts"], r["rels"], r["jobs"]) for r in c["runs"]]}, ensure_ascii=False)[:700]
