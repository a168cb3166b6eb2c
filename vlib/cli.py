"""Command lines in a small world of configurations and base directories."""
import json, os, random, re
from . import core, md

JOB_NAMES = ["j", "k", "J", "-", "--", "-q", "", "k k", "ö", "help", "--config=alt.toml", "-c", "in.md", "jj", "j,k", ",", "j;k", "jobs.j", " j", "j=k", "*"]
FORMATS = {"Trace/Json": ("Trace", "Json"), "Parse/Markdown": ("Parse", "Markdown")}
BASES = {"T": "", "S": "sub", "U": "dirt", "V": "b c"}
CONFIGS = {"A": "requirements.toml", "B": "alt.toml", "C": "sub/requirements.toml", "D": "-x.toml", "E": "b c/c=d.toml", "F": "q"}
LOGS = ["off", "trace", "info", "debug", "warn", "", "reqtrace=trace", "reqtrace=off", "nonsense", "a=b=c", "OFF", "0"]


def world(r):
    cfgs = {}
    for tag in CONFIGS:
        jobs = {}
        for n in r.sample(JOB_NAMES, r.choice([2, 4, 6])):
            k = r.random()
            f = "-" if k < 0.25 else f"out/{tag}{len(jobs)}.txt" if k < 0.7 else f"{tag}0.md" if k < 0.85 else r.choice(["ABS/x", "sub/y"])
            jobs[n] = [f, "Trace/Json" if f == "-" else r.choice(list(FORMATS))]
        cfgs[tag] = {"jobs": jobs, "defaults": [r.choice(list(jobs)) for _ in range(r.choice([0, 1, 2, 2]))]}
        if r.random() < 0.1:
            cfgs[tag]["defaults"].append("gone")
    return {"cfgs": cfgs, "cwd": r.choice(["", "", "", "sub"])}


def spell_path(r, p, cwd):
    """The path (relative to the root of the world) as seen from the working directory."""
    if cwd:
        p = "../" + p if p else ".."
    p = p or "."
    return r.choice([p, p, p, "./" + p, "ABS/" + (cwd + "/" if cwd else "") + p, "nix/../" + p if False else p, p.replace("/", "//")])


def option(r, long, short, v):
    return r.choice([[f"--{long}", v], [f"--{long}={v}"], [f"-{short}", v], [f"-{short}{v}"], [f"-{short}={v}"], [f"-q{short}", v], [f"-q{short}{v}"]]
                    if not v.startswith("-") else [[f"--{long}={v}"], [f"-{short}{v}"], [f"-{short}={v}"], [f"-{short}", v]])


BAD = ["--nope", "-z", "-qz", "--quiet=1", "--conf", "---", "-5", "-qq", "--q", "-c", "--base", "-l", "--config=", "-b=", "-h", "--help", "-V", "--version",
       "-hq", "-Vx", "--Config", "-C", "-q=1", "--no-quiet", "--base-dir", "--log_level=off", "-q-", "--help=1"]


def make_args(r, w):
    cwd = w["cwd"]
    opts, tag = [], "C" if cwd else "A"
    if r.random() < 0.6:
        tag = r.choice(list(CONFIGS))
        p = spell_path(r, CONFIGS[tag], cwd)
        if r.random() < 0.08:
            p = r.choice(["gone.toml", "bad.toml", "sub", "", "-", "requirements", p + " ", " " + p, p.upper(), p[:-1], p + ",", "*.toml"])
        opts.append(option(r, "config", "c", p))
    if r.random() < 0.6:
        opts.append(option(r, "base", "b", spell_path(r, r.choice(list(BASES.values()) + ["new/dir"]), cwd)))
    if r.random() < 0.35:
        opts.append(option(r, "log-level", "l", r.choice(LOGS)))
    if r.random() < 0.25:
        opts.append([r.choice(["-q", "--quiet"])])
    if r.random() < 0.05 and opts:
        opts.append(r.choice(opts))
    jobs = [r.choice(list(w["cfgs"][tag]["jobs"])) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if r.random() < 0.15:
        # a name that is almost one
        j = r.choice(list(w["cfgs"][tag]["jobs"]))
        j = r.choice([j + " ", " " + j, j.upper(), j.swapcase(), j[:1], j + j, "./" + j, j + ",", "jobs." + j, j + "\t", j + "\n", f'"{j}"', "*", j + "?"])
        jobs.insert(r.randrange(len(jobs) + 1), j)
    if r.random() < 0.08:
        jobs.insert(r.randrange(len(jobs) + 1), r.choice(["gone", "J ", "requirements.toml"] + JOB_NAMES))
    groups = opts + [[j] for j in jobs if not (len(j) > 1 and j[0] == "-")]
    order = list(range(len(groups)))
    r.shuffle(order)
    # jobs keep their order
    groups = [groups[k] for k in order]
    args = [x for g in groups for x in g]
    odd = [j for j in jobs if len(j) > 1 and j[0] == "-"]
    if odd or r.random() < 0.15:
        k = r.randrange(len(groups) + 1)
        args = [x for g in groups[:k] for x in g]
        rest = [x for g in groups[k:] for x in g]
        if r.random() < 0.7:
            args, rest = args + [x for g in groups[k:] if g in opts for x in g], [x for g in groups[k:] if g not in opts for x in g]
        args += ["--"] + rest + odd
    if r.random() < 0.2:
        args.insert(r.randrange(len(args) + 1), r.choice(BAD))
    return args


TOKENS = ["j", "k", "-", "", "--", "-q", "--quiet", "-c", "-calt.toml", "-c=alt.toml", "--config", "--config=alt.toml", "-b", "--base=sub", "-qb", "-qbsub", "-h",
          "--version", "-z", "-l", "--log-level=", "--quiet=1", "--nope", "-qz", "alt.toml", "sub"]


def generate(tier, seed):
    r = random.Random(f"cli{seed}{tier}")
    cases = []
    full = {"cfgs": {t: {"jobs": {"j": [f"out/{t}.txt", "Trace/Json"], "k": [f"{t}.md", "Parse/Markdown"], "-": ["-", "Trace/Json"], "": ["ABS/x", "Parse/Markdown"]},
                         "defaults": ["k", "-"]} for t in CONFIGS}, "cwd": ""}
    lists = [[]] + [[a] for a in TOKENS] + [[a, b] for a in TOKENS for b in TOKENS]
    three = [[a, b, c] for a in TOKENS for b in TOKENS for c in TOKENS]
    lists += r.sample(three, 400 if tier == "quick" else 6000)
    for a in lists:
        cases.append({"world": full, "args": a, "env": r.choice(["", "off", "trace"])})
    n = len(cases)
    for _ in range(1100 if tier == "quick" else 12000):
        w = world(r)
        cases.append({"world": w, "args": make_args(r, w), "env": r.choice(["", "off", "trace", "info", "bogus=x=y"])})
    return cases, {"enumerated": n, "random": len(cases) - n}


def names(p):
    return [x for x in p.split("/") if x]


def token(data):
    """[configuration, query and format, base] as the text of an output tells."""
    t = data.decode("utf-8", "replace")
    a, b = re.findall(r"in_([A-Z])\.md", t), re.findall(r"\bR_([A-Z])\b", t)
    try:
        how = "Trace/Json" if "trace" in json.loads(t) else "?"
    except ValueError:
        how = "Parse/Markdown" if t.lstrip().startswith("#") else "?" + t[:40]
    return [a[0] if a and len(set(a)) == 1 else "?", how, b[0] if b and len(set(b)) == 1 else "none"]


def stdout_tokens(b):
    t, res, dec = b.decode("utf-8", "replace"), [], json.JSONDecoder()
    t = t.strip()
    while t:
        try:
            _, k = dec.raw_decode(t)
        except ValueError:
            return res + [["?", t[:60], "?"]]
        res.append(token(t[:k].encode()))
        t = t[k:].strip()
    return res


def one(case):
    d = core.new_dir("c")
    w = case["world"]
    fill = lambda p: p.replace("ABS", d)
    try:
        made = set()
        def put(p, t):
            core.write_file(f"{d}/{p}", t)
            made.add(f"{d}/{p}")
        for tag, b in BASES.items():
            for c in CONFIGS:
                put((b + "/" if b else "") + f"in_{c}.md", f"# R_{tag}: t\n" + (f"# R_{tag}: again\n" if tag == "U" else ""))
        put("bad.toml", "relations = [\n")
        for tag, p in CONFIGS.items():
            c = w["cfgs"][tag]
            t = f'relations = []\ndefault_jobs = [{", ".join(map(md.toml_str, c["defaults"]))}]\n[[artefacts]]\nid = "art"\nparser = "Markdown"\npaths = ["in_{tag}.md"]\n'
            for n, (f, how) in c["jobs"].items():
                q, fmt = FORMATS[how]
                t += f'[jobs.{md.toml_str(n)}]\nquery = "{q}"\nformat = "{fmt}"\nfile = {md.toml_str(fill(f))}\n'
            put(p, t)
        args = [fill(a) for a in case["args"]]
        cwd = f"{d}/{w['cwd']}".rstrip("/")
        rc, so, se = core.run_cli(cwd, args, extra_env={"REQTRACE_LOG": case["env"]})
        files = []
        for root, dirs, fs in os.walk(d):
            for x in fs:
                p = os.path.join(root, x)
                if p not in made:
                    with open(p, "rb") as f:
                        files.append({"p": names(p), "tok": token(f.read())})
        wd = {"cwd": names(cwd),
              "configs": [{"p": names(f"{d}/{p}"), "ok": True, "tag": t, "defaults": w["cfgs"][t]["defaults"],
                           "jobs": [{"name": n, "file": fill(f), "out": how} for n, (f, how) in w["cfgs"][t]["jobs"].items()]} for t, p in CONFIGS.items()]
                         + [{"p": names(f"{d}/bad.toml"), "ok": False, "tag": "", "defaults": [], "jobs": []}],
              "files": [names(p) for p in sorted(made)],
              "bases": [{"p": names(f"{d}/{b}"), "tag": t, "clean": t != "U"} for t, b in BASES.items()]}
        return {"args": args, "world": wd, "obs": {"rc": rc if rc is not None else -999, "files": files, "out": stdout_tokens(so)}}
    finally:
        core.drop_dir(d)


def execute(cases):
    return core.parallel(one, cases)


def describe(c):
    return json.dumps(c["args"], ensure_ascii=False) + " in " + (c["world"]["cwd"] or ".")
