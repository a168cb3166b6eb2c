"""Configurations, good and bad."""
import json, os, random
from . import core
from .jobs import listing
from .md import toml_str


def enumerate_configs():
    out = os.path.join(core.scratch(), "configs.ndjson")
    core.tlc_model("Gen_Config", f'SPECIFICATION GSpec\nCONSTANTS\n  OutFile = "{out}"\nCHECK_DEADLOCK FALSE\n', "generation")
    with open(out, encoding="utf-8") as f:
        cs = [json.loads(x) for x in f if x.strip()]
    os.unlink(out)
    cs.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return cs


ART_IDS = ["a", "b", "c", "A", "Ä", "REQ", "art 1", "", "a.b", "日本", "x\"y", "a ", "aa"]


def random_config(r):
    arts = r.sample(ART_IDS, r.randint(0, 6))
    ids = list(arts)
    rels = []
    for _ in range(r.choice([0, 1, 2, 4])):
        if ids:
            rels.append({"upper": r.choice(ids), "lower": r.sample(ids, r.randint(0, len(ids)))})
    d = r.random()
    if d < 0.15 and arts:
        arts.insert(r.randint(0, len(arts)), r.choice(arts))
    elif d < 0.35 and rels:
        other = [x for x in ART_IDS + ["nope", "B", " a"] if x not in ids]
        x = r.choice(rels)
        if r.random() < 0.5:
            x["upper"] = r.choice(other)
        else:
            x["lower"].insert(r.randint(0, len(x["lower"])), r.choice(other))
    jobs = r.sample(["t", "u", "Job 3", "Ä"], r.randint(1, 4))
    names = lambda: [r.choice(jobs) if r.random() < 0.95 else "nope" for _ in range(r.choice([0, 1, 1, 2]))]
    return {"file": "ok", "toml": "ok", "missing": "none", "value": "none", "version": r.choice(["none", "0", "0", "0", "3"]),
            "arts": arts, "rels": rels, "jobs": jobs, "defaults": names(), "req": names()}


def generate(tier, seed):
    r = random.Random(f"config{seed}{tier}")
    cs = enumerate_configs()
    n = len(cs)
    if tier == "quick":
        special = [c for c in cs if c["file"] != "ok" or c["toml"] != "ok" or c["missing"] != "none" or c["value"] != "none"]
        rest = [c for c in cs if c not in special]
        cs = special + r.sample(rest, min(len(rest), 500))
    cases = [{"cfg": c, "style": r.randint(0, 10**6)} for c in cs]
    cases += [{"cfg": random_config(r), "style": r.randint(0, 10**6)} for _ in range(400 if tier == "quick" else 5000)]
    return cases, {"enumerated": f"{len(cs)} of {n}"}


def render(c, style):
    """The configuration as TOML; details that must not matter differ with the style."""
    r = random.Random(style)
    top, rest = [], []
    if c["version"] != "none":
        top.append(f"version = {c['version']}")
    if c["toml"] == "twice":
        top.append("version = 0\nversion = 0" if c["version"] == "none" else "version = 0")
    if c["toml"] == "type":
        top.append("default_jobs = 7" if not c["defaults"] else "")
    extra = lambda: r.choice(["", "", "", "unknown_field = 1\n", "# comment\n", "x-y = [1, 2]\n"])
    top.append(extra())
    if c["defaults"] and c["toml"] == "type":
        top.append("default_jobs = 7")
    elif c["defaults"] or r.random() < 0.1:
        top.append("default_jobs = [" + ", ".join(map(toml_str, c["defaults"])) + "]")
    victim = lambda n: r.randrange(n) if n else -1
    va, vr, vj = victim(len(c["arts"])), victim(len(c["rels"])), victim(len(c["jobs"]))
    inline = r.random() < 0.5
    rels = []
    for k, x in enumerate(c["rels"]):
        fields = []
        if not (c["missing"] == "rel.upper" and k == vr):
            fields.append("upper = " + toml_str(x["upper"]))
        if not (c["missing"] == "rel.lower" and k == vr):
            fields.append("lower = [" + ", ".join(map(toml_str, x["lower"])) + "]")
        r.shuffle(fields)
        rels.append(fields)
    if c["missing"] != "relations":
        if inline or not rels:
            top.append("relations = [" + ", ".join("{" + ", ".join(f) + "}" for f in rels) + "]")
        else:
            rest += ["[[relations]]\n" + "\n".join(f) + "\n" + extra() for f in rels]
    arts = []
    for k, i in enumerate(c["arts"]):
        fields = {"id": "id = " + toml_str(i), "paths": f'paths = ["a{k}.json"]', "parser": 'parser = "Json"'}
        if k == va:
            fields.pop(c["missing"][4:] if c["missing"].startswith("art.") else "", None)
            if c["value"] == "parser": fields["parser"] = 'parser = "json"'
            if c["value"] == "ignore": fields["ignore"] = 'ignore_derived_requirements = "true"'
            if c["value"] == "paths": fields["paths"] = 'paths = "a0.json"'
        if c["value"] != "ignore" and r.random() < 0.3:
            fields["ignore"] = "ignore_derived_requirements = " + r.choice(["true", "false"])
        f = list(fields.values())
        r.shuffle(f)
        arts.append("[[artefacts]]\n" + "\n".join(f) + "\n" + extra())
    if c["missing"] != "artefacts":
        if arts:
            rest += arts
        else:
            top.append("artefacts = []")
    for k, n in enumerate(c["jobs"]):
        fields = {"query": "query = " + toml_str(r.choice(["Trace", "Parse"])), "format": 'format = "Json"',
                  "file": f'file = "out/j{k}.json"'}
        if k == vj:
            fields.pop(c["missing"][4:] if c["missing"].startswith("job.") else "", None)
            if c["value"] == "query": fields["query"] = 'query = "Everything"'
            if c["value"] == "format": fields["format"] = 'format = "Xml"'
            if c["value"] == "src": fields["src"] = "set_return_code = 1"
        f = list(fields.values())
        r.shuffle(f)
        rest.append(f"[jobs.{toml_str(n)}]\n" + "\n".join(f) + "\n" + extra())
    if r.random() < 0.5:
        r.shuffle(rest)
    text = "\n".join(top) + "\n" + "\n".join(rest)
    if c["toml"] == "syntax":
        text = r.choice([text + "\n[[artefacts]\n", text + "\nx = \n", text.replace("=", "", 1) if "=" in text else "x", "{" + text,
                         text + "\n\"unterminated\n", text + "\ny = 'a\n"])
    if r.random() < 0.2:
        text = text.replace("\n", "\r\n")
    data = text.encode()
    if c["toml"] == "utf8":
        data = data + b"\n# \xff\xfe\n"
    return data


def execute(cases):
    def one(case):
        c = case["cfg"]
        d = core.new_dir("c")
        try:
            name = random.Random(case["style"]).choice(["requirements.toml", "conf dir/x.cfg"])
            path = f"{d}/{name}"
            if c["file"] == "dir":
                core.write_file(path + "/x", "")
            elif c["file"] != "missing":
                core.write_file(path, render(c, case["style"]))
                if c["file"] == "denied":
                    os.chmod(path, 0o000)
                    os.chown(path, 0, 0)
            for k in range(len(c["arts"])):
                core.write_file(f"{d}/a{k}.json", "[]")
            if case["style"] % 3:
                for k in range(len(c["jobs"])):
                    core.write_file(f"{d}/out/j{k}.json", "old")
            before = listing(d)
            # messages go to standard error, whatever the log level
            rc, so, se = core.run_cli(d, (["-c", name] if name != "requirements.toml" else []) + ["--"] + c["req"])
            after = listing(d)
            changed = sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f))
            want = {f"out/j{c['jobs'].index(n)}.json" for n in (c["req"] or c["defaults"]) if n in c["jobs"]}
            written = all(after.get(f, b"old").startswith(b"{") for f in want)
            return {"cfg": c, "obs": {"rc": str(rc), "message": bool(se.strip()) and b"panicked" not in se,
                                      "changed": changed, "written": written}}
        finally:
            core.drop_dir(d)
    return core.parallel(one, cases)


def describe(case):
    if case["cfg"]["file"] != "ok":
        return "config file " + case["cfg"]["file"]
    return render(case["cfg"], case["style"]).decode("utf-8", "replace") + " command line: " + " ".join(case["cfg"]["req"])
