"""Projects whose artefacts come from files of every kind."""
import copy, json, random, re
from . import core, md, obs, projects, rust
from .sources import PARSERS
from .words import TITLES, TEXTS, ATTRS

POOL = ["AA", "BB_1", "BB_10", "Cc", "REQ_1", "REQ_2", "Dd_x", "Ärger_1", "UU", "Vv", "f", "gg", "new", "日本語", "XX", "bb_1"]
POOL = [i for i in POOL if len(i) > 1]
RUSTY = ["m::f", "S::new", "f", "gg", "main", "(S as Tr)::f"]
ART_IDS = ["REQ", "DSG", "CODE", "MAN", "a", "b", "Ä", "code", "X 1"]


def title_of(r, w, i):
    """A title for a reference to the id: mostly the one it should have."""
    k = r.random()
    t = w["titles"].get(i)
    if k < 0.5 or (t is None and k < 0.85):
        return None
    if k < 0.9 and t is not None:
        return t
    return r.choice(w["words"])


def some_ref(r, w, kind, pool=POOL, only=lambda x: x):
    near = only(w["near"][kind])
    i = r.choice(near) if near and r.random() < 0.9 else r.choice(only(pool))
    return i, title_of(r, w, i)


def md_file(r, w, big):
    ls = []
    some = [i for i in w["defs"] if r.random() < 0.9] + ([r.choice(w["defs"])] if r.random() < 0.1 else [])
    r.shuffle(some)
    for i in some if not big else [r.choice(w["defs"]) for _ in range(r.randint(8, 20))]:
        t = w["titles"].get(i) or r.choice(w["words"])
        ls += ["#" * r.choice([1, 2, 3]) + " " + i + ": " + t]
        if r.random() < 0.5:
            ls += [""]
        if r.random() < 0.6:
            ls += [r.choice(TEXTS) for _ in range(r.choice([1, 2]))] + [""]
        for _ in range(r.choice(w["near"]["n"])):
            if r.random() < 0.2:
                ls += [r.choice(ATTRS) + ": " + r.choice(TEXTS), ""]
                continue
            n = r.choice([x for x in ("Covers", "Depends") if w["near"][x]] or ["Covers"])
            refs = [some_ref(r, w, n, only=plain) for _ in range(r.choice([1, 1, 2, 3]))]
            if not w["near"][n] and r.random() < 0.8:
                continue
            if r.random() < 0.4:
                ls += [n + ": " + ", ".join(i for i, _ in refs), ""]
            else:
                ls += [n + ":"] + ["* " + i + (": " + t if t is not None else "") for i, t in refs] + [""]
        if r.random() < 0.15:
            ls += ["# Other", r.choice(TEXTS), ""]
    for _ in range(r.choice([0, 0, 1, 2]) if w["noise"] else r.choice([0] * 9 + [1])):
        ls.insert(r.randrange(len(ls) + 1), md.any_line(r, w["defs"]))
    return md.finish(r, ls)["lines"]


def mono_file(r, w):
    ls = ["# " + (w["titles"].get(w["me"]) or r.choice(w["words"]))] if r.random() < 0.9 else []
    for _ in range(r.choice([0, 1, 2, 4]) if w["near"]["Depends"] else r.choice([0, 0, 0, 1])):
        if r.random() < 0.7:
            i, t = some_ref(r, w, "Depends", only=plain)
            ls.append(r.choice(["", "* ", "uses "]) + "=> " + i + (": " + t if t is not None else ""))
        else:
            ls.append(r.choice(TEXTS))
    return md.finish(r, ls)["lines"]


def rust_file(r, w):
    cs = rust.random_doc(r)
    while len(cs) > 150:
        cs = rust.random_doc(r)
    cs = copy.deepcopy(cs)
    at = None
    for k, c in enumerate(cs):
        if c["k"] == "mark":
            at, known = k, None
        if c["k"] == "arg" and at is not None:
            if c["tok"] == "ident" and known is None and r.random() < 0.8:
                known = r.choice([i for i in w["ids"] if i.isidentifier()] or ["AA"])
                c["t"] = known
            elif c["tok"] == "str" and known in w["titles"] and r.random() < 0.8:
                c["t"] = rust.lit(r, w["titles"][known])
    return cs


def json_reqs(r, w):
    res = []
    for i in [i for i in w["defs"] if r.random() < 0.9] + ([r.choice(w["defs"])] if r.random() < 0.15 else []):
        ref = lambda kind: (lambda x: {"id": x[0], "title": [] if x[1] is None else [x[1]], "loc": projects.rnd_loc(r, ["f.md", "g"])})(some_ref(r, w, kind, POOL + RUSTY))
        t = w["titles"].get(i)
        res.append({"id": i, "title": [] if t is None else [t], "loc": projects.rnd_loc(r, ["f.md", "g"]), "covers": [ref("Covers") for _ in range(r.choice([0, 1, 2]) if w["near"]["Covers"] else 0)],
                    "depends": [ref("Depends") for _ in range(r.choice([0, 0, 1, 2]) if w["near"]["Depends"] else 0)], "tags": [], "attrs": []})
    return res


def make_case(r, big=False):
    words = r.sample([t for t in rust.TTL if t.strip() == t and t and "\n" not in t], 4)
    pool = r.sample(POOL, r.choice([6, 8, 10]))
    if r.random() < 0.5:
        pool += r.sample(RUSTY, 2)
    titles = {i: r.choice(words) for i in pool if r.random() < 0.75}
    arts, rels = [], []
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    ids = r.sample(ART_IDS, n)
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        u = r.choice(ids)
        low = [x for x in r.sample(ids, min(n, r.choice([1, 1, 1, 2, 2, 3]))) if x != u or r.random() < 0.2]
        rels.append({"upper": u, "lower": low})
    # mostly, artefacts define different ids and refer to those of their neighbours
    part = {a: [i for j, i in enumerate(pool) if j % n == k] or [pool[0]] for k, a in enumerate(ids)}
    kinds = {a: r.choice(["md", "md", "mono", "rust", "rust", "json"]) for a in ids}
    for a in ids:
        if kinds[a] == "rust":
            part[a] = r.sample(["f", "gg", "new", "m::f", "m::gg", "main", "S", "x1"], 3)
        elif kinds[a] == "mono":
            part[a] = part[a][:1]
    strict = r.random() < 0.7
    shared = r.choice([0, 0, 0.1, 0.4])    # how likely an artefact defines any id
    for k, a in enumerate(ids):
        defs = pool if r.random() < shared else part[a]
        near = {"Covers": [i for x in rels if a in x["lower"] for i in part[x["upper"]]],
                "Depends": [i for x in rels if a == x["upper"] for y in x["lower"] for i in part[y]]}
        if not strict:
            near = {"Covers": pool, "Depends": pool}
        near["n"] = [0, 1, 1, 2] if strict else [0, 1, 1, 2, 3]
        kind = kinds[a]
        if big and k == 0:
            kind = "md"
        files = []
        for x in range(1 if kind != "rust" else r.choice([1, 1, 2, 3])):
            f = {"file": "", "name": "", "gone": r.random() < 0.03, "lines": [], "fail": -1, "chunks": [], "reqs": []}
            if kind == "md":
                f["name"] = f"d{k}.md"
                f["lines"] = md_file(r, {"defs": plain(defs) or ["ZZ"], "near": near, "titles": titles, "words": words, "noise": not strict}, big and k == 0)
            elif kind == "mono":
                me = r.choice(defs)
                f["name"] = me + r.choice([".md", ".txt", ""])
                f["lines"] = mono_file(r, {"near": near, "titles": titles, "words": words, "me": me})
            elif kind == "rust":
                f["name"] = f"r{k}/{x}.rs"
                f["chunks"] = rust_file(r, {"ids": near["Covers"] or pool, "titles": titles})
            else:
                f["name"] = f"j{k}.json"
                f["reqs"] = json_reqs(r, {"defs": defs, "near": near, "titles": titles, "words": words})
            if kind in ("md", "mono") and r.random() < 0.04:
                f["fail"] = r.choice([0] + [i + 1 for i, l in enumerate(f["lines"]) if l.endswith("\n")])
            if kind == "json" and r.random() < 0.04:
                f["fail"] = 0
            f["file"] = f["name"] if kind == "rust" and not f["gone"] else "./" + f["name"]
            if kind == "mono":
                f["file"] = f"./m{k}/" + f["name"]
            files.append(f)
        if r.random() < 0.02:
            files = [] if r.random() < 0.5 or kind == "rust" else files + copy.deepcopy(files)
        arts.append({"id": a, "kind": kind, "ignore": r.choice(["unset", "unset", "unset", "true", "false"]), "refTitle": r.random() < 0.3, "files": files})
    return {"proj": {"arts": arts, "rels": rels}}


def plain(ids):
    return [i for i in ids if not re.search(r"[^\w]", i)]


def generate(tier, seed):
    r = random.Random(f"system{seed}{tier}")
    cases = [make_case(r, big=k % 60 == 0) for k in range(1100 if tier == "quick" else 15000)]
    return cases, {"random": len(cases), "files": sum(len(a["files"]) for c in cases for a in c["proj"]["arts"])}


def data_of(kind, f):
    if kind == "rust":
        return "".join(c["t"] for c in f["chunks"]).encode()
    if kind == "json":
        t = json.dumps([projects.req_json(q) for q in f["reqs"]], ensure_ascii=False)
        return (t if f["fail"] < 0 else t[:-1]).encode()
    if f["fail"] >= 0:
        return "".join(f["lines"][:f["fail"]]).encode() + b"\xff\xfe\n" + "".join(f["lines"][f["fail"]:]).encode()
    return "".join(f["lines"]).encode()


def one(case):
    d = core.new_dir("y")
    p = case["proj"]
    try:
        cfg = "relations = [" + ", ".join("{upper = " + md.toml_str(x["upper"]) + ", lower = [" + ", ".join(map(md.toml_str, x["lower"])) + "]}" for x in p["rels"]) + "]\n"
        for k, a in enumerate(p["arts"]):
            ps = [f["file"].removeprefix("./") for f in a["files"]]
            for f, x in zip(a["files"], ps):
                if not f["gone"]:
                    core.write_file(f"{d}/{x}", data_of(a["kind"], f))
            cfg += "[[artefacts]]\nid = " + md.toml_str(a["id"]) + f'\nparser = "{PARSERS[a["kind"]]}"\npaths = [' + ", ".join(map(md.toml_str, ps)) + "]\n"
            if a["ignore"] != "unset":
                cfg += f'ignore_derived_requirements = {a["ignore"]}\n'
            cfg += f'reference_with_title = {str(a["refTitle"]).lower()}\n'
        cfg += '[jobs.tj]\nquery = "Trace"\nformat = "Json"\nfile = "out/t.json"\n'
        core.write_file(f"{d}/requirements.toml", cfg)
        rc, so, se = core.run_cli(d, ["tj"])
        try:
            with open(f"{d}/out/t.json", "rb") as f:
                o = projects.read_trace(f.read()) if rc in (0, 1) else projects.BAD_TRACE
        except OSError:
            o = projects.BAD_TRACE
        return {"proj": p, "obs": o, "rc": rc if rc is not None else -999}
    finally:
        core.drop_dir(d)


def execute(cases):
    return core.parallel(one, cases)


def describe(c):
    p = c["proj"]
    return json.dumps([(a["id"], a["kind"], [f["name"] for f in a["files"]]) for a in p["arts"]], ensure_ascii=False) + \
        " relations " + ", ".join("%s=>%s" % (x["upper"], x["lower"]) for x in p["rels"])
