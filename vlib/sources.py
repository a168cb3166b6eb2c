"""Directory trees, paths and faulty files."""
import json, os, random, stat
from . import core, md, mono, obs, rust

JOBS = [("tj", "Trace", "Json"), ("tm", "Trace", "Markdown"), ("tg", "Trace", "GnuError"), ("pj", "Parse", "Json"), ("pm", "Parse", "Markdown"),
        ("pt", "Parse", "Tags")]
PARSERS = {"md": "Markdown", "mono": "MonoRequirement", "rust": "Rust", "json": "Json"}


def ent(p, kind="file", health="ok", data="", how="plain"):
    return {"p": list(p), "kind": kind, "health": health, "data": data, "how": how}


# ---------------------------------------------------------------- running

def put(d, e):
    path = os.path.join(d, *e["p"])
    parent = os.path.dirname(path)
    missing = []
    while not os.path.isdir(parent):
        missing.append(parent)
        parent = os.path.dirname(parent)
    for x in reversed(missing):
        os.mkdir(x)
        core.own(x)
    if e["kind"] != "file":
        os.makedirs(path, exist_ok=True)
        core.own(path)
    elif e["how"] == "dangling":
        os.symlink("nowhere/at/all", path)
        core.own(path)
    elif e["how"] == "selfloop":
        os.symlink(os.path.basename(path), path)
        core.own(path)
    else:
        data = e["data"]
        if isinstance(data, str):
            data = bytes.fromhex(data)
        core.write_file(path, data)
        if e["how"] == "noread":
            os.chmod(path, 0)


def run_tree(case):
    """Lay out the tree and run the program. Paths of the case that begin with / are below the scratch directory."""
    d = core.new_dir("tree")
    try:
        cwd = os.path.join(d, *case["cwd"])
        os.makedirs(cwd, exist_ok=True)
        for e in case["tree"]:
            put(d, e)
        for root, dirs, _ in os.walk(d):
            for x in dirs:
                p = os.path.join(root, x)
                if not os.path.islink(p):
                    core.own(p)
        core.own(cwd)
        for e in case["tree"]:
            if e["kind"] == "locked":
                os.chmod(os.path.join(d, *e["p"]), 0)
        real = lambda s: d + s if s.startswith("/") else s
        cfg = "relations = []\n"
        if not case["arts"]:
            cfg += "artefacts = []\n"
        for a in case["arts"]:
            cfg += f'[[artefacts]]\nid = {md.toml_str(a["id"])}\nparser = "{PARSERS[a["parser"]]}"\n'
            cfg += "paths = [" + ", ".join(md.toml_str(real(p)) for p in a["paths"]) + "]\n"
        out = d + "/-out"
        os.mkdir(out)
        core.own(out)
        for n, q, f in JOBS:
            cfg += f'[jobs.{n}]\nquery = "{q}"\nformat = "{f}"\nfile = {md.toml_str(out + "/" + n)}\n'
        core.write_file(d + "/-out/r.toml", cfg)
        args = ["-c", d + "/-out/r.toml"]
        if case["barg"] is not None:
            args += ["-b", real(case["barg"])]
        rc, so, se = core.run_cli(cwd, args + [j[0] for j in JOBS])
        try:
            o = observe(d, out, rc, [a["id"] for a in case["arts"]])
        except (OSError, ValueError, KeyError, TypeError, IndexError, AttributeError, obs.Malformed):
            o = None
        if o is None:
            o = {"ok": False, "rc": rc if rc is not None else -999,
                 "arts": [{"id": a["id"], "files": [], "reqs": [], "errs": [], "config": 0} for a in case["arts"]]}
        return o
    finally:
        core.drop_dir(d)


def observe(d, out, rc, ids):
    if rc not in (0, 1):
        return None
    text = {}
    for n, _, _ in JOBS:
        with open(f"{out}/{n}", encoding="utf-8") as f:
            text[n] = f.read()
    virt = lambda s: "/" if s == d else s[len(d):] if s.startswith(d + "/") else s
    json.loads(text["pj"])
    t = json.loads(text["tj"])["trace"]["artefacts"]
    if sorted(t) != sorted(ids) or not text["tm"]:
        return None
    arts = []
    for i in ids:
        a = obs.artefact(t[i])
        val = lambda x: json.dumps(x, sort_keys=True).replace(d + "/", "/")
        reqs = [{"f": virt(r["loc"]["f"]), "v": val(r), "id": r["id"]} for r in a["reqs"] + a["dups"]]
        errs = [{"f": virt(e["x"] if e["k"] == "Io" else e["loc"]["f"]), "v": val(e)}
                for e in a["errs"] if e["k"] not in ("DupReq", "Config")]
        arts.append({"id": i, "files": [virt(x) for x in a["files"]], "reqs": reqs, "errs": errs,
                     "config": sum(e["k"] == "Config" for e in a["errs"])})
    return {"ok": True, "rc": rc, "arts": arts}


# ---------------------------------------------------------------- C22: paths

DIRS = ["src", "s", "d", "sub", "s p", "[b]", "b*", "ü", ".hid", "a-b", "src2", "test", " d", "d "]
FILES = ["a.rs", "b.rs", "ab.rs", "A.rs", "x1.rs", "x2.rs", ".h.rs", "[a].rs", "ä.rs", "a.txt", "a.rs.bak", "mod.rs", "rs", "q?.rs", "aab.rs", "-x.rs", "a.rs ", " a.rs", "a b.rs", "%41.rs", "$HOME", "~", "a.RS"]


def r_empty(parser, n):
    return [b"", b"fn g() {}\n", b"// nothing\n"][n % 3] if parser == "rust" else [b"", b"text\n", b"# Heading\n\ntext\n"][n % 3]


def content(parser, n, name):
    """-> (bytes, ids of the requirements in it)"""
    if n % 5 == 4 and parser != "mono":
        return r_empty(parser, n), []
    if parser == "rust":
        return b"fn f_%d() { requirement_covered!(R_%d); }\n" % (n, n), ["f_%d" % n]
    if parser == "md":
        return b"# R_%d: T\n" % n, ["R_%d" % n]
    stem = name.rsplit(".", 1)[0] if "." in name[1:] else name
    return b"T %d\n" % n, [stem]


def wild_name(r, s):
    k = r.random()
    if k < 0.2 or s.startswith("."): return "*"
    if k < 0.4 and "." in s[1:]:
        return "*." + s.rsplit(".", 1)[1]
    if k < 0.6:
        i = r.randrange(len(s))
        c = s[i]
        return esc(s[:i]) + r.choice(["?", "*", "[" + c + "]", "[!0]", "[a-z]", "[" + c + "q]", "[!" + c + "]"]
                                     if c not in "[]!-?*" and c.isalpha() and c.isascii() else ["?", "*"]) + esc(s[i + 1:])
    if k < 0.8: return esc(s[:1]) + "*"
    return "*" + esc(s[-3:])


def esc(s):
    return "".join("[" + c + "]" if c in "[]*?" else c for c in s)


def wild_path(r, rel):
    ns = [esc(x) if r.random() < 0.6 else wild_name(r, x) for x in rel]
    if r.random() < 0.3:
        i = r.randrange(len(ns))
        if r.random() < 0.5:
            ns = ns[:i] + ["**"] + ns[i:]
        else:
            ns = ns[:i] + ["**"] + [ns[-1]]
    if ns[-1] == "**":
        ns.append("*.rs")
    out = []
    for x in ns:
        if not (x == "**" and out and out[-1] == "**"):
            out.append(x)
    return "/".join(out)


def path_case(r):
    root = [r.choice(DIRS)]
    cwd = root if r.random() < 0.5 else root + [r.choice(DIRS)]
    k = r.random()
    if k < 0.3:
        base, barg = list(cwd), None
    elif k < 0.55:
        extra = [r.choice(DIRS) for _ in range(r.choice([1, 1, 2]))]
        base = cwd + extra
        barg = r.choice(["", "./"]) + "/".join(extra) + r.choice(["", "", "/"])
    elif k < 0.7:
        base, barg = list(root), "/" + "/".join(root)
    elif k < 0.85 and len(cwd) > 1:
        base, barg = list(root), ".."
    else:
        base = ["other", r.choice(DIRS)]
        barg = "/" + "/".join(base)
    dirs = [base, base, base + ["s"], base + ["s", r.choice(DIRS)], base + [r.choice(DIRS)], ["outside"], root, base[:-1] or ["outside"]]
    tree, seen = [], set()
    n = r.choice([2, 4, 6, 9])
    for i in range(n):
        p = r.choice(dirs) + [r.choice(FILES)]
        if tuple(p) in seen or any(tuple(p[:j]) in seen for j in range(len(p))):
            continue
        seen.add(tuple(p))
        tree.append(ent(p))
    ds = sorted({tuple(e["p"][:j]) for e in tree for j in range(1, len(e["p"]))} | {tuple(base[:j]) for j in range(1, len(base) + 1)} |
                {tuple(cwd[:j]) for j in range(1, len(cwd) + 1)})
    if any(d in seen for d in ds):
        return None
    rel = lambda p: p[len(base):] if p[:len(base)] == base else None
    arts = []
    kinds = {}
    for a in range(r.choice([1, 1, 2, 3])):
        parser = r.choice(["rust", "rust", "rust", "md", "mono"])
        paths = []
        for _ in range(1 if parser != "rust" else r.choice([1, 1, 1, 2, 3])):
            e = r.choice(tree) if tree else ent(["x"])
            q = rel(e["p"])
            x = r.random()
            if q and x < 0.75:
                p = "/".join(q) if parser != "rust" else r.choice(["/".join(map(esc, q)), wild_path(r, q), wild_path(r, q), wild_path(r, q)])
                if r.random() < 0.1:
                    p = "./" + p
                elif r.random() < 0.15 and parser != "rust":
                    p = r.choice([p.replace("/", "//"), p.replace("/", "/./"), (q[0] + "/../" if len(q) > 1 else "./") + p, "././" + p])
            elif x < 0.9:
                p = "/" + "/".join(e["p"] if parser != "rust" else map(esc, e["p"]))
                if parser == "rust" and r.random() < 0.5:
                    p = "/" + "/".join(map(esc, e["p"][:-1])) + "/" + wild_name(r, e["p"][-1])
            elif x < 0.95:
                p = r.choice(["no.rs", "s/no.rs", "n*.zz", "nodir/*.rs", "**/none.rs", "A.RS", "/nowhere/a.rs"])
            else:
                p = "../" + (base[-1] + "/" + "/".join(q) if q else r.choice(FILES))
                if parser == "rust":
                    p = "/".join(esc(y) for y in p.split("/"))
                if not any(c in p for c in "[]*?") and len(base) > 1:
                    pass
                else:
                    p = "a.rs"
            paths.append(p)
        arts.append({"id": f"A{a}", "parser": parser, "many": parser == "rust", "paths": paths})
    # a file has one kind of content: that of the artefact which reads it, if it is only one
    kind = arts[0]["parser"] if len({a["parser"] for a in arts}) == 1 else None
    if kind is None:
        arts = [a for a in arts if a["parser"] == arts[0]["parser"]]
        kind = arts[0]["parser"]
    for i, e in enumerate(tree):
        b, ids = content(kind, i, e["p"][-1])
        e["data"] = b.hex()
        e["reqs"], e["errs"] = ids, []
    tree += [dict(ent(d, "dir"), reqs=[], errs=[]) for d in map(list, ds)]
    return {"kind": "paths", "cwd": cwd, "base": base, "barg": barg, "tree": tree, "arts": arts}


def enumerated_paths(n):
    out = os.path.join(core.scratch(), f"paths{n}.ndjson")
    core.tlc_model("Gen_Sources", f'SPECIFICATION GSpec\nCONSTANTS\n  MaxPaths = {n}\n  OutFile = "{out}"\nCHECK_DEADLOCK FALSE\n', "generation")
    with open(out, encoding="utf-8") as f:
        cs = [json.loads(x) for x in f if x.strip()]
    os.unlink(out)
    cs.sort(key=lambda c: json.dumps(c, sort_keys=True))
    res = []
    for c in cs:
        kind = "rust" if c["many"] else "md"
        tree = []
        for i, f in enumerate(sorted(c["files"], key=lambda x: x["p"])):
            b, ids = content(kind, i, f["p"][-1])
            tree.append(dict(ent(f["p"], data=b.hex()), reqs=ids, errs=[]))
        tree += [dict(ent(f["p"], "dir"), reqs=[], errs=[]) for f in sorted(c["dirs"], key=lambda x: x["p"])] + [dict(ent(["b"], "dir"), reqs=[], errs=[])]
        res.append({"kind": "paths", "cwd": [], "base": ["b"], "barg": "b", "tree": tree,
                    "arts": [{"id": "A", "parser": kind, "many": c["many"], "paths": c["paths"]}]})
    return res


def generate_paths(tier, seed):
    r = random.Random(f"paths{seed}{tier}")
    cases = enumerated_paths(1)
    two = enumerated_paths(2)
    cases += r.sample(two, 250) if tier == "quick" else two
    n = len(cases)
    want = n + (900 if tier == "quick" else 8000)
    while len(cases) < want:
        c = path_case(r)
        if c:
            cases.append(c)
    return cases, {"enumerated": n, "random": len(cases) - n}


# ---------------------------------------------------------------- C20: faults

def json_doc(r, where, n):
    loc = lambda: {"file": where, "location_in_file": r.choice([None, {"Line": 3}, {"LineAndColumn": [4, 5]}, {"String": "x"}])}
    return json.dumps([{"id": "J%d_%d" % (n, k), "title": r.choice([None, "T"]), "location": loc(), "covers": [], "tags": [],
                        "depends": [{"id": "R_1", "title": None, "location": loc()}], "attributes": {"A": "b"}}
                       for k in range(r.choice([0, 1, 3]))], indent=r.choice([None, 1])).encode()


def good_file(r, parser, rel, base, n):
    if parser == "md":
        return "".join(md.random_doc(r)["lines"]).encode()
    if parser == "mono":
        return "".join(mono.random_doc(r)).encode()
    if parser == "rust":
        return "".join(c["t"] for c in rust.random_doc(r)).encode()
    return json_doc(r, "./" + "/".join(rel) if base is None else base + "/" + "/".join(rel), n)


def rnd_bytes(r, n):
    k = r.random()
    if k < 0.4:
        return bytes(r.randrange(256) for _ in range(n))
    if k < 0.7:
        return "".join(r.choice("# AB:\n\r\t*-,=>[]{}\"'\\/0é日\u0301🍔\0_fnmodimpl ") for _ in range(n)).encode()
    toks = [b"# AA: T\n", b"Covers:", b"* AA\n", b"\n", b"\r\n", b"\r", b" ", b"=> AA", b"\0", b"\xff", b"\xc3", b"\xe6\x97", b"requirement_covered!(", b"fn f() {",
            b"}", b"{", b"[", b"\"", b"\\", b"impl", b"Covers: AA\n", b"\xef\xbb\xbf", b"A" * 50, b"#", b":", b"- ", b"r#\"", b"/*", b"'", b"\x0b", b"\xc2\x85",
            b"\xe2\x80\xa8", b"[{\"id\":", b"null", b"1e999", b"requirement_covered!();", b"const C: () = ", b"mod m", b"trait T", b"Note: ", b"\x1a"]
    return b"".join(r.choice(toks) for _ in range(max(1, n // 4)))


def decodes(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def health(parser, b):
    """Whether content that replaces a good file has to be reported."""
    if not decodes(b):
        return "bad"
    return "any"


MUST = {"json": [b"", b"{", b"[1]", b"nope", b"[{\"id\": 1}]", b"[[[[[[", b"{}x", b"[]]", b"\"", b"[{\"id\":\"A\"}]"],
        "rust": [b"fn", b"}", b"fn f( {", b"\"", b"fn f() { ", b"/*", b"let x", b"impl", b"'\n", b"1"]}


def spoil(r, e, parser):
    """Apply a fault to the entry; None if it is gone."""
    f = r.choice(["missing", "dir", "noread", "utf8", "bytes", "bytes", "trunc", "empty", "dangling", "must", "bom", "selfloop", "deep", "long", "nul"])
    data = bytes.fromhex(e["data"])
    new = dict(e)
    def with_(b):
        new.update(data=b.hex(), health=health(parser, b))
        return new
    if f == "missing":
        return None
    if f == "dir":
        new.update(kind="dir", data="", health="bad")
    elif f == "noread":
        new.update(how="noread", health="bad")
    elif f in ("dangling", "selfloop"):
        new.update(how=f, health="bad")
    elif f == "utf8":
        k = r.randrange(len(data) + 1)
        return with_(data[:k] + r.choice([b"\xff", b"\xc3(", b"\xe6\x97", b"\xed\xa0\x80", b"\xf8", b"\x80"]) + data[k:])
    elif f == "bytes":
        return with_(rnd_bytes(r, r.choice([1, 2, 5, 20, 200, 3000])))
    elif f == "trunc":
        return with_(data[:r.randrange(len(data) + 1)])
    elif f == "empty":
        return with_(b"")
    elif f == "must":
        if parser in MUST:
            with_(r.choice(MUST[parser]))
            new["health"] = "bad"
        else:
            return with_(data + b"\xff")
    elif f == "bom":
        return with_(b"\xef\xbb\xbf" + data)
    elif f == "deep":
        return with_(r.choice([b"[" * 200, b"{\"a\":" * 200, b"fn f() {" + b"(" * 60 + b")" * 60 + b"}", b"#" * 500 + b" AA: T", b"mod m {" * 40 + b"}" * 40]))
    elif f == "long":
        return with_(b"x" * 70000 + b"\n# AA: T\n")
    elif f == "nul":
        k = r.randrange(len(data) + 1)
        return with_(data[:k] + b"\0" + data[k:])
    return new


def fault_case(r):
    base, barg = r.choice([([], None), ([], None), (["proj"], "proj"), (["p", "q"], "p/q")])
    tree, arts = [], []
    n = 0
    for a in range(r.choice([2, 2, 3, 4])):
        parser = r.choice(["md", "mono", "rust", "rust", "json"])
        files = []
        for _ in range(r.choice([1, 2, 3, 4]) if parser == "rust" else 1):
            n += 1
            rel = [f"d{a}"] + (["in"] if parser == "rust" and r.random() < 0.3 else []) + [f"f{n}." + {"md": "md", "mono": "md", "rust": "rs", "json": "json"}[parser]]
            b = good_file(r, parser, rel, barg, n)
            tree.append(dict(ent(base + rel, data=b.hex()), parser=parser))
            files.append("/".join(rel))
        if parser == "rust":
            paths = r.choice([files, [f"d{a}/**/*.rs"], [f"d{a}/*.rs", f"d{a}/in/*.rs"] if any("/in/" in f for f in files) and any("/in/" not in f for f in files) else files])
        else:
            paths = files
        arts.append({"id": f"A{a}", "parser": parser, "many": parser == "rust", "paths": paths})
    extra = r.random()
    if extra < 0.25:
        k = r.choice(["md", "mono", "json"])
        arts.append({"id": "X", "parser": k, "many": False, "paths": r.choice([[], ["a.md", "b.md"], ["nope"], [""]])})
    elif extra < 0.45:
        arts.append({"id": "X", "parser": "rust", "many": True, "paths": r.choice([[], ["***"], ["[a"], ["nope/*.rs"], ["", "nope.rs"]])})
    elif extra < 0.5:
        for a in arts:
            if a["many"]:
                a["paths"] = a["paths"] + r.choice([["***"], ["x[y"], ["nope/*.zz"]])
    ds = sorted({tuple(e["p"][:j]) for e in tree for j in range(1, len(e["p"]))} | {tuple(base[:j]) for j in range(1, len(base) + 1)})
    healthy = {"kind": "faults", "cwd": [], "base": base, "barg": barg, "arts": arts,
               "tree": tree + [ent(d, "dir") for d in map(list, ds)]}
    spoilt = []
    some = r.sample(range(len(tree)), r.choice([1, 1, 2, min(3, len(tree))]) if len(tree) > 1 else 1)
    for i, e in enumerate(tree):
        e = dict(e)
        if i in some:
            e = spoil(r, e, e["parser"])
            if e is None:
                continue
        spoilt.append(e)
    dirs = [ent(d, "dir") for d in map(list, ds)]
    if r.random() < 0.15:
        ins = [d for d in dirs if d["p"][-1] == "in"]
        if ins:
            r.choice(ins)["kind"] = "locked"
    healthy["spoilt"] = spoilt + dirs
    return healthy


EXT = {"md": "md", "mono": "md", "rust": "rs", "json": "json"}


def bytes_case(r, n):
    """Many artefacts, each with a file of arbitrary bytes, and some healthy ones between them."""
    tree, arts, spoilt = [], [], []
    for i in range(n):
        parser = r.choice(list(EXT))
        rel = [f"f{i}." + EXT[parser]]
        e = dict(ent(rel, data=good_file(r, parser, rel, None, i).hex()), parser=parser)
        tree.append(e)
        arts.append({"id": f"A{i:03}", "parser": parser, "many": parser == "rust", "paths": rel})
        if r.random() < 0.85:
            b = rnd_bytes(r, r.choice([1, 2, 3, 5, 9, 20, 60, 200, 1500]))
            if r.random() < 0.5:
                b = bytes(b.decode("utf-8", "ignore").encode())
            e = dict(e, data=b.hex(), health=health(parser, b))
        spoilt.append(e)
    return {"kind": "faults", "cwd": [], "base": [], "barg": None, "arts": arts, "tree": tree, "spoilt": spoilt}


LINES = {"md": ["# AA: T\n", "Covers: BB\n", "* CC\n", "\n", "text\n", "Note: x\n", "* item\n"],
         "mono": ["\n", "---\n", "Title\n", "=> BB\n", "text => CC: t\n", "  \n"]}


def positions_case(r, parser, n):
    """The same kind of line mixed in every way, with undecodable bytes at every place."""
    tree, arts, spoilt = [], [], []
    while len(arts) < n:
        ls = [r.choice(LINES[parser]) for _ in range(r.choice([1, 2, 3, 4, 5, 6]))]
        for k in range(len(ls) + 1):
            i = len(arts)
            rel = [f"f{i}." + EXT[parser]]
            e = dict(ent(rel, data="".join(ls).encode().hex()), parser=parser)
            tree.append(e)
            arts.append({"id": f"A{i:03}", "parser": parser, "many": False, "paths": rel})
            b = "".join(ls[:k]).encode() + r.choice([b"\xff", b"\xff\n", b"ab\x80 => ZZ\n"]) + "".join(ls[k:]).encode()
            spoilt.append(dict(e, data=b.hex(), health="bad") if r.random() < 0.95 else e)
    return {"kind": "faults", "cwd": [], "base": [], "barg": None, "arts": arts, "tree": tree, "spoilt": spoilt}


def generate_faults(tier, seed):
    r = random.Random(f"faults{seed}{tier}")
    cases = [fault_case(r) for _ in range(1000 if tier == "quick" else 12000)]
    cases += [bytes_case(r, 40) for _ in range(60 if tier == "quick" else 2500)]
    cases += [positions_case(r, p, 60) for p in ("md", "mono") for _ in range(12 if tier == "quick" else 300)]
    return cases, {"random": len(cases)}


# ---------------------------------------------------------------- records

def strip(e):
    return {k: e[k] for k in ("p", "kind", "health", "reqs", "errs")}


def arts_of(case):
    return [{k: a[k] for k in ("id", "many", "paths")} for a in case["arts"]]


def one(case):
    if case["kind"] == "paths":
        o = run_tree(case)
        for a in o["arts"]:
            for x in a["reqs"]:
                x["v"] = x["id"]
        return {"tree": [strip(e) for e in case["tree"]], "base": case["base"], "cwd": case["cwd"], "arts": arts_of(case), "obs": o}
    # what every file contributes when nothing is wrong
    clean = run_tree(case)
    got = {}
    for a in clean["arts"]:
        for k in ("reqs", "errs"):
            for x in a[k]:
                p = tuple(y for y in (x["f"][1:] if x["f"].startswith("/") else x["f"]).split("/") if y not in ("", "."))
                got.setdefault(p, {"reqs": [], "errs": []})[k].append(x["v"])
    o = run_tree(dict(case, tree=case["spoilt"]))
    tree = []
    for e in case["spoilt"]:
        g = got.get(tuple(e["p"]), {"reqs": [], "errs": []})
        tree.append(dict(strip(dict(e, reqs=[], errs=[])), **(g if e["kind"] == "file" and e["health"] == "ok" else {})))
    if not clean["ok"]:
        o = dict(o, ok=False, rc=clean["rc"])
    return {"tree": tree, "base": case["base"], "cwd": case["cwd"], "arts": arts_of(case), "obs": o}


def execute(cases):
    return core.parallel(one, cases)


def describe(c):
    t = {"/".join(e["p"]): (e["kind"], e["health"], e["how"], e.get("data", "")[:120]) for e in c.get("spoilt", c["tree"]) if e["kind"] != "dir"}
    return json.dumps({"base": c["barg"], "cwd": c["cwd"], "files": t, "artefacts": arts_of(c)}, ensure_ascii=False)[:900]
