"""Projects of JSON artefacts: generation, and running the program on them end to end."""
import copy, json, os, random, re, unicodedata
from . import core, obs, size
from .md import toml_str
from .words import IDS, TITLES

# ------------------------------------------------------------ generation

ART_IDS = ["a", "b", "c", "d", "A", "B", "REQ", "DSG", "CODE", "code", "art 1", "art 10", "art 2", "x.y", "x,y", "a => [b]",
           "Ä", "日本", "_", "0", "10", "9", "", "a\"q\"", "b/c", "#h"]
FILES = ["./f.md", "./g.md", "/abs/f.rs", "dir/sub dir/f.txt", "f", "Ä/ö.md", "x:7", "../up.md", "f.md"]


def enumerate_projects(size):
    out = os.path.join(core.scratch(), f"projects-{size}.ndjson")
    core.tlc_model("Gen_Trace", f"""SPECIFICATION GSpec
CONSTANTS
  Size = "{size}"
  OutFile = "{out}"
CHECK_DEADLOCK FALSE
""", f"generation of projects ({size})")
    with open(out, encoding="utf-8") as f:
        ps = [json.loads(x) for x in f if x.strip()]
    os.unlink(out)
    ps.sort(key=lambda p: json.dumps(p, sort_keys=True))
    return ps


def rnd_loc(r, files):
    k = r.choice("LLLLLCCCNS")
    f = r.choice(files)
    l = str(r.choice([0, 1, 2, 3, 7, 9, 10, 11, 19, 99, 100, 101, 1000, 65536, 2147483648, 4294967296, 9007199254740991]))
    c = str(r.choice([0, 1, 2, 8, 10, 80, 300]))
    if k == "L": return {"f": f, "k": "L", "l": l, "c": "", "s": ""}
    if k == "C": return {"f": f, "k": "C", "l": l, "c": c, "s": ""}
    if k == "S": return {"f": f, "k": "S", "l": "", "c": "", "s": r.choice(["sheet 1", "x", "p. 7", "12", "3:4"])}
    return {"f": f, "k": "N", "l": "", "c": "", "s": ""}


def variant(r, title, others):
    """A title like the given optional one, or not quite."""
    if title:
        t = title[0]
        v = r.choice([t] * 8 + [t.upper(), t.lower(), t + " ", " " + t, t[:-1], t + t[-1:], t.replace(" ", "  "), t.strip(".:"),
                      unicodedata.normalize("NFD", t), unicodedata.normalize("NFC", t), t.swapcase()])
        if r.random() < 0.1:
            v = r.choice(others)
        return [v]
    return [r.choice(["", "x", "T", "None", "null", "<no title>"])]


def rnd_ref(r, target, titles, files, unknown):
    """A reference to the requirement (or to nothing that exists)."""
    if target is None or r.random() < unknown:
        i = r.choice(IDS + ["NOPE", "NOPE_2", "No pe"])
        t = [] if r.random() < 0.6 else [r.choice(titles)]
    else:
        i = target["id"]
        t = [] if r.random() < 0.45 else variant(r, target["title"], titles)
        if r.random() < 0.05:
            i = r.choice([i.lower(), i.upper(), i + "0", i[:-1] or i, i.swapcase(), i + " "])
    return {"id": i, "title": t, "loc": rnd_loc(r, files)}


def random_project(r, dups=0.05, lines=False, big=0, texts=False):
    """dups: how likely an id is used again. lines: only ids, titles and locations without surprises."""
    n = r.choice([1, 2, 2, 3, 3, 3, 4, 5]) if not big else r.choice([3, 5, 14])
    ids = r.sample(ART_IDS if not lines else ART_IDS[:6] + ["art 1", "Ä", "code"], min(n, 6 if lines else 99))
    files = r.sample(FILES, r.randint(1, 4))
    if lines:
        files = [f for f in files if f != "x:7"] or ["f"]
    titles = r.sample(TITLES, 6) + [""]
    arts, everything, used = [], [], set()
    for a in ids:
        count = r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if not big else r.randint(big // 2, big)
        reqs = []
        for k in range(count):
            if everything and r.random() < dups:
                i = r.choice(everything)["id"]
            else:
                i = None
                while i is None or (i in used):
                    i = r.choice(IDS) if r.random() < 0.5 else f"R_{r.randint(1, 40 + 20 * big)}"
                    if r.random() < 0.02: i = r.choice(["", "a b", "with space", "::x::y", "<T as U>::f", "1"])
            used.add(i)
            q = {"id": i, "title": [] if r.random() < 0.25 else [r.choice(titles)], "loc": rnd_loc(r, files), "covers": [],
                 "depends": [], "tags": [], "attrs": []}
            if texts or r.random() < 0.2:
                q["attrs"] = rnd_attrs(r)
                q["tags"] = r.sample(["t1", "t2", "Ä", ""], r.choice([0, 0, 1, 2]))
            reqs.append(q)
            everything.append(q)
        arts.append({"id": a, "ignore": r.choice(["unset", "unset", "unset", "true", "false"]),
                     "refTitle": r.random() < 0.35, "reqs": reqs, "errs": []})
    rels = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        u = r.choice(ids)
        low = r.sample(ids, min(len(ids), r.choice([0, 1, 1, 1, 1, 2, 2, 3])))
        if rels and r.random() < 0.12:
            u, low = rels[-1]["upper"], rels[-1]["lower"]
        if r.random() < 0.8 and len(ids) > 1:
            low = [x for x in low if x != u]
        rels.append({"upper": u, "lower": low})
    by_art = {a["id"]: a["reqs"] for a in arts}
    unknown = r.choice([0.0, 0.0, 0.1, 0.3])
    for a in arts:
        ups = [q for rel in rels if a["id"] in rel["lower"] for q in by_art[rel["upper"]]]
        lows = [q for rel in rels if a["id"] == rel["upper"] for x in rel["lower"] for q in by_art[x]]
        for q in a["reqs"]:
            for field, near in (("covers", ups), ("depends", lows)):
                for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3] if not big else [0, 1, 2, 5])):
                    pool = near if near and r.random() < 0.8 else everything
                    q[field].append(rnd_ref(r, r.choice(pool) if pool else None, titles, files, unknown))
                if q[field] and r.random() < 0.1:
                    q[field].append(dict(r.choice(q[field]), loc=rnd_loc(r, files)))
    if r.random() < 0.2:
        perfect(r, arts, rels)
    elif dups:
        # the very same requirement again, or one that differs in one thing only
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            a = r.choice(arts)
            if not a["reqs"]:
                continue
            q = copy.deepcopy(r.choice(a["reqs"]))
            if r.random() < 0.5:
                f = r.choice(["title", "loc", "covers", "depends", "attrs"])
                q[f] = r.choice([[], [r.choice(titles)]]) if f == "title" else rnd_loc(r, files) if f == "loc" else []
            b = a if r.random() < 0.7 else r.choice(arts)
            b["reqs"].insert(r.randrange(len(b["reqs"]) + 1), q)
    r.shuffle(arts)
    return {"arts": arts, "rels": rels}


def rnd_attrs(r):
    names = r.sample(["Description", "Comment", "Note", "Rationale", "Äb", "Descriptions", "description", "Title", "Covers2"], r.choice([0, 1, 1, 2, 3]))
    return [[n, r.choice(["text", "two\nlines", "para\n\npara", "  indented", "", "ends \n", "🍔 <b>&", "# no heading",
                          "* AA", "Covers: AA", "x" * 300])] for n in names]


def perfect(r, arts, rels):
    """Make all references fit, so that projects without findings occur."""
    by_id = {}
    for a in arts:
        for q in a["reqs"]:
            by_id.setdefault(q["id"], (a, q))
    for a in arts:
        a["reqs"] = [q for q in a["reqs"] if by_id[q["id"]][1] is q]
        if a["refTitle"]:
            for q in a["reqs"]:
                q["title"] = q["title"] or ["Title"]
        for q in a["reqs"]:
            q["covers"], q["depends"] = [], []
    rels[:] = [x for x in rels if x["lower"]]
    reqs = {a["id"]: a["reqs"] for a in arts}
    # every requirement of the upper artefact is covered by some lower one
    for k in range(len(rels) - 1, -1, -1):
        rel = rels[k]
        low = [q for x in rel["lower"] for q in reqs[x]]
        if not low or not reqs[rel["upper"]]:
            del rels[k]
            continue
        for u in reqs[rel["upper"]]:
            l = r.choice(low)
            if r.random() < 0.5:
                l["covers"].append({"id": u["id"], "title": u["title"], "loc": rnd_loc(r, ["f"])})
            else:
                u["depends"].append({"id": l["id"], "title": l["title"], "loc": rnd_loc(r, ["f"])})
    ups = {}
    for rel in rels:
        for x in rel["lower"]:
            ups.setdefault(x, []).extend(reqs[rel["upper"]])
    for a in arts:
        a["ignore"] = r.choice(["unset", "true"])
        if r.random() < 0.7 and ups.get(a["id"]):
            for q in a["reqs"]:
                u = r.choice(ups[a["id"]])
                q["covers"].append({"id": u["id"], "title": u["title"], "loc": rnd_loc(r, ["f"])})


def stress_project(r, n):
    """Many requirements, and many references to and from one of them."""
    L = lambda k: {"f": "f", "k": "L", "l": str(k), "c": "", "s": ""}
    q = lambda i, k: {"id": i, "title": [], "loc": L(k), "covers": [], "depends": [], "tags": [], "attrs": []}
    up = [q(f"U_{i}", i) for i in range(n)]
    lo = [q(f"L_{i}", 1000 + i) for i in range(n)]
    for i in range(n):
        lo[i]["covers"] = [{"id": "U_0", "title": [], "loc": L(2000 + i)}, {"id": f"U_{i}", "title": [], "loc": L(3000 + i)}]
        up[1 % n]["depends"].append({"id": f"L_{i}", "title": [], "loc": L(4000 + i)})
        if i % 3 == 0:
            up[i]["depends"].append({"id": f"X_{i}", "title": [], "loc": L(5000 + i)})
    lo[n // 2]["covers"] = []
    art = lambda i, rs: {"id": i, "ignore": "unset", "refTitle": False, "reqs": rs, "errs": []}
    r.shuffle(lo)
    return {"arts": [art("lo", lo), art("up", up)], "rels": [{"upper": "up", "lower": ["lo"]}]}


def many_findings(n):
    """Projects with n findings of one kind each."""
    L = lambda k: {"f": "f", "k": "L", "l": str(k), "c": "", "s": ""}
    q = lambda i, k, cov=(): {"id": i, "title": [], "loc": L(k), "covers": [{"id": c, "title": [], "loc": L(k)} for c in cov],
                              "depends": [], "tags": [], "attrs": []}
    art = lambda i, rs, **k: dict({"id": i, "ignore": "unset", "refTitle": False, "reqs": rs, "errs": []}, **k)
    rel = [{"upper": "up", "lower": ["lo"]}]
    us, ls = [q(f"U_{k}", k) for k in range(n)], [q(f"L_{k}", k) for k in range(n)]
    full = [q(f"L_{k}", k, [f"U_{k}"]) for k in range(n)]
    return [{"arts": [art("up", us), art("lo", [q("LL", 1)])], "rels": rel},                               # uncovered
            {"arts": [art("up", [q("UU", 1)]), art("lo", ls + [q("LL", 1, ["UU"])])], "rels": rel},            # derived
            {"arts": [art("up", us), art("lo", full + [q("LL", 1, [f"X_{k}" for k in range(n)])])], "rels": rel},  # unknown
            {"arts": [art("up", us), art("lo", full + [q("LL", k) for k in range(n)])], "rels": rel},          # duplicates
            {"arts": [art("up", us), art("lo", full, refTitle=True)], "rels": rel}]                           # without title


def many_artefacts(r, n):
    """Many artefacts and many relations."""
    L = lambda k: {"f": "f", "k": "L", "l": str(k), "c": "", "s": ""}
    q = lambda i, k, cov: {"id": i, "title": [], "loc": L(k), "covers": [{"id": c, "title": [], "loc": L(k)} for c in cov],
                           "depends": [], "tags": [], "attrs": []}
    # each covers the one before it, up to a few that do not; one covers all
    skip = set(r.sample(range(1, n), 4))
    arts = [{"id": f"a{k}", "ignore": "unset", "refTitle": False, "errs": [],
             "reqs": [q(f"R_{k}", k, [f"R_{k - 1}"] if k and k not in skip else []), q(f"S_{k}", n + k, [])]} for k in range(n)]
    arts.append({"id": "all", "ignore": "unset", "refTitle": False, "errs": [], "reqs": [q("T", 1, [f"S_{k}" for k in range(0, n, 2)])]})
    rels = [{"upper": f"a{k - 1}", "lower": [f"a{k}", "all"]} for k in range(1, n)]
    rels.append({"upper": "all", "lower": [a["id"] for a in arts[:-1]]})
    r.shuffle(arts)
    return {"arts": arts, "rels": rels}


def long_case(r, p):
    return {"proj": size.plant_project(r, p), "grow": size.how(r)}


def generate(tier, seed, sizes=("links", "titles", "dups"), sample=350, rnd=1000, dups=None):
    r = random.Random(f"projects{seed}{tier}")
    cases, info = [], {}
    for s, ps in zip(sizes, core.parallel(enumerate_projects, sizes)):
        k = min(sample if tier == "quick" else sample * 12, len(ps))
        info["enumerated_" + s] = f"{k} of {len(ps)}"
        cases += [{"proj": p} for p in (ps if k == len(ps) else r.sample(ps, k))]
    k = rnd if tier == "quick" else rnd * 12
    for i in range(k):
        d = r.choice([0, 0, 0.05, 0.3]) if dups is None else dups
        cases.append({"proj": random_project(r, dups=d)})
    for i in range(4 if tier == "quick" else 60):
        cases.append({"proj": random_project(r, dups=0.02, big=r.choice([4, 6, 9]))})
    cases += [{"proj": p} for n in (120, 300) for p in many_findings(n)]
    cases += [{"proj": p} for p in many_findings(1100)[:2 if tier == "quick" else 5]]
    cases += [{"proj": many_artefacts(r, n)} for n in (40, 130)]
    cases += [{"proj": stress_project(r, n)} for n in ((9, 40) if tier == "quick" else (9, 40, 150))]
    for _ in range(60 if tier == "quick" else 800):
        cases.append(long_case(r, random_project(r, dups=r.choice([0, 0.05, 0.3]) if dups is None else dups, texts=True)))
    info["random"] = k
    return cases, info


# ------------------------------------------------------------ execution

def loc_json(x):
    p = {"N": None, "L": lambda: {"Line": int(x["l"])}, "C": lambda: {"LineAndColumn": [int(x["l"]), int(x["c"])]},
         "S": lambda: {"String": x["s"]}}[x["k"]]
    return {"file": x["f"], "location_in_file": p() if p else None}


def req_json(q):
    ref = lambda x: {"id": x["id"], "title": x["title"][0] if x["title"] else None, "location": loc_json(x["loc"])}
    return {"id": q["id"], "title": q["title"][0] if q["title"] else None, "location": loc_json(q["loc"]),
            "covers": [ref(x) for x in q["covers"]], "depends": [ref(x) for x in q["depends"]],
            "tags": q["tags"], "attributes": dict(q["attrs"])}


def config(proj, jobs, paths=None):
    lines = []
    for k, a in enumerate(proj["arts"]):
        lines += ["[[artefacts]]", "id = " + toml_str(a["id"]),
                  "paths = [" + ", ".join(map(toml_str, (paths[k] if paths else [f"a{k}.json"] * (2 if a.get("kind") == "two" else 1)))) + "]",
                  f'parser = "{a.get("parser", "Json")}"']
        if a["ignore"] != "unset":
            lines.append("ignore_derived_requirements = " + a["ignore"])
        if a["refTitle"] or k % 2:
            lines.append("reference_with_title = " + str(a["refTitle"]).lower())
    rels = ["{upper = " + toml_str(x["upper"]) + ", lower = [" + ", ".join(map(toml_str, x["lower"])) + "]}"
            for x in proj["rels"]]
    head = "relations = [" + ", ".join(rels) + "]\n" + ("" if proj["arts"] else "artefacts = []\n")
    for name, (query, fmt, file) in jobs.items():
        lines += [f"[jobs.{toml_str(name)}]", f'query = "{query}"', f'format = "{fmt}"', "file = " + toml_str(file)]
    return head + "\n".join(lines) + "\n"


JOBS = {"tj": ("Trace", "Json", "out/t.json"), "tm": ("Trace", "Markdown", "out/t.md"),
        "tg": ("Trace", "GnuError", "out/t.txt"), "pj": ("Parse", "Json", "out/p.json"),
        "pm": ("Parse", "Markdown", "out/p.md"), "pt": ("Parse", "Tags", "out/p.tags")}


def write_project(d, proj, jobs):
    for k, a in enumerate(proj["arts"]):
        if a.get("kind") == "missing":
            continue
        if "raw" in a:
            core.write_file(f"{d}/a{k}.json", a["raw"])
            continue
        core.write_file(f"{d}/a{k}.json", json.dumps([req_json(q) for q in a["reqs"]], ensure_ascii=bool(k % 2)))
    core.write_file(f"{d}/requirements.toml", config(proj, jobs))


def run_project(proj, names, grow=None):
    """-> {job: output bytes or None}, exit code; runs the named jobs in one run."""
    d = core.new_dir("p")
    proj = size.grow(proj, grow)
    try:
        jobs = {n: JOBS[n] for n in names}
        write_project(d, proj, jobs)
        rc, so, se = core.run_cli(d, list(names))
        out = {}
        for n in names:
            try:
                with open(f"{d}/{JOBS[n][2]}", "rb") as f:
                    out[n] = size.shrink(f.read(), grow)
            except OSError:
                out[n] = None
        return out, rc
    finally:
        core.drop_dir(d)


BAD_TRACE = {"ok": False, "arts": [], "rels": [], "derived": [], "errs": []}


def read_trace(data):
    try:
        t = obs.trace(json.loads(data.decode("utf-8")))
        t["ok"] = True
        return t
    except (AttributeError, ValueError, KeyError, TypeError, IndexError, obs.Malformed):
        return BAD_TRACE


# ---- duplicate entries of the reports

def link_text(s):
    m = re.match(r"^\[(.*)\]\(\.\./.*?\)(:.*)?$", s)
    return m.group(1) + (m.group(2) or "") if m else "?" + s


def md_dups(text):
    res, where = [], "?"
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if l == "# Input Errors": where = "in "
        elif l == "# Tracing Errors": where = "tracing"
        elif l in ("# Uncovered Requirements", "# Derived Requirements", "# Requirements"): break
        elif l.startswith("## ") and where.startswith("in "): where = "in " + l[3:]
        elif l.startswith("*   Duplicate Requirement: "):
            a, b = (lines + ["", ""])[i + 1:i + 3]
            res.append({"where": where, "id": l[len("*   Duplicate Requirement: "):],
                        "first": link_text(a.replace("    first seen in ", "", 1)),
                        "again": link_text(b.replace("    then again in ", "", 1))})
    return res


def gnu_dups(text):
    res, where = [], "?"
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if l == "# Parsing Errors": where = "in"
        elif l == "# Tracing Errors": where = "tracing"
        elif l == "# Uncovered Requirement": break
        elif ": Duplicate Requirement: " in l:
            a, b = l.split(": Duplicate Requirement: ", 1)
            res.append({"where": where, "id": b, "again": a,
                        "first": (lines + [""])[i + 1].replace(": note: previously seen here", "", 1)})
    return res


def execute(cases):
    def one(c):
        out, rc = run_project(c["proj"], ["tj", "tm", "tg"], c.get("grow"))
        t = read_trace(out["tj"]) if rc in (0, 1) else BAD_TRACE
        text = {k: (out[k] or b"").decode("utf-8", "replace") for k in ("tm", "tg")}
        return {"proj": c["proj"], "obs": t, "md": md_dups(text["tm"]), "gnu": gnu_dups(text["tg"])}
    return core.parallel(one, cases)


def describe(c):
    p = c["proj"]
    return "; ".join(["artefact %r: %s" % (a["id"], ", ".join(
        q["id"] + ("<-" + "+".join(x["id"] for x in q["covers"]) if q["covers"] else "")
        + ("->" + "+".join(x["id"] for x in q["depends"]) if q["depends"] else "") for q in a["reqs"])) for a in p["arts"]]
        + ["relations " + ", ".join("%s=>%s" % (x["upper"], x["lower"]) for x in p["rels"])])
