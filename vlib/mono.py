"""Mono requirement files."""
import json, os, random
from . import core, obs, md, size
from .words import IDS, TITLES, TEXTS

NAMES = ["README.md", "AA.md", "a.b.md", "no_ext", ".hidden", ".h.txt", "dot.", "Ä ö.md", "日本.txt", "REQ_1.MD", "x..y", "sp ace.md",
         "README", "long" * 40 + ".md", "a;b.md", "[x].md", "*.md", "-x.md"]


def enumerate_docs(n):
    out = os.path.join(core.scratch(), f"mono{n}.ndjson")
    core.tlc_model("Gen_Mono", f'SPECIFICATION GSpec\nCONSTANTS\n  MaxLines = {n}\n  OutFile = "{out}"\nCHECK_DEADLOCK FALSE\n', "generation")
    with open(out, encoding="utf-8") as f:
        docs = [json.loads(x)["lines"] for x in f if x.strip()]
    os.unlink(out)
    docs.sort(key=lambda d: (len(d), d))
    return docs


def arrow(r):
    i = r.choice(IDS)
    t = r.choice(["", "", ": " + r.choice(TITLES), ":" + r.choice(TITLES), ":   " + r.choice(TITLES) + "  ", " ", ":", ": ", " : x", ".",
                  " and more", ": a => " + r.choice(IDS), ":x"])
    return r.choice(["", "text ", "* ", "  ", "a -> b ", "x=>y ", "see => ", "é", "1. [x](y) ", "Covers: "]) + "=>" + r.choice(["", " ", "  ", "\t", "\u00a0"]) + i + t


def random_doc(r):
    ls = [r.choice(["", "   ", "---", "# ", "***", "!", "🍔"]) for _ in range(r.choice([0, 0, 0, 1, 2]))]
    if r.random() < 0.95:
        ls.append(r.choice(["# ", "", "= ", "**", "  ", "/// "]) + r.choice(TITLES) + r.choice(["", "", " ", ".", " #", "**", " => AA", "!!"]))
    for _ in range(r.choice([0, 1, 2, 4, 8, 30])):
        ls.append(arrow(r) if r.random() < 0.5 else r.choice(TEXTS + ["", "=> A", "=>", "=> 1", "= > AA", "-> AA", "=> AA, BB", "AA", "=> AA: "]))
    return md.finish(r, ls)["lines"]


def generate(tier, seed):
    r = random.Random(f"mono{seed}{tier}")
    docs = enumerate_docs(2 if tier == "quick" else 3)
    n = len(docs)
    docs += [random_doc(r) for _ in range(1500 if tier == "quick" else 20000)]
    docs += [["T\n"] + ["=> R_%d: t %d\n" % (i, i) for i in range(k)] for k in (150, 1100)]
    cases = [{"lines": d, "name": r.choice(NAMES) if r.random() < 0.4 else "REQ_1.md", "fail": -1} for d in docs]
    for _ in range(100 if tier == "quick" else 1500):
        ls, ascii_only = size.plant(r, random_doc(r))
        cases.append({"lines": ls, "name": r.choice(NAMES), "fail": -1, "grow": size.how(r)})
    return cases, {"enumerated": n, "random": len(cases) - n}


def data_of(c):
    if c["fail"] >= 0:
        return "".join(c["lines"][:c["fail"]]).encode() + b"ab\xff\xfe => ZZ\n" + "".join(c["lines"][c["fail"]:]).encode()
    return size.grow("".join(c["lines"]), c.get("grow")).encode()


def run_batch(cases):
    d = core.new_dir("mono")
    try:
        cfg = "relations = []\n"
        for i, c in enumerate(cases):
            core.write_file(f"{d}/d{i}/{c['name']}", data_of(c))
            cfg += f'[[artefacts]]\nid = "a{i}"\npaths = [{md.toml_str("d%d/%s" % (i, c["name"]))}]\nparser = "MonoRequirement"\n'
        cfg += '[jobs.t]\nquery = "Parse"\nformat = "Json"\nfile = "out.json"\n'
        core.write_file(f"{d}/requirements.toml", cfg)
        rc, so, se = core.run_cli(d, ["t"])
        if rc not in (0, 1):
            return None
        try:
            with open(f"{d}/out.json", encoding="utf-8") as f:
                return md.by_file(json.load(f), [f"./d{i}/{c['name']}" for i, c in enumerate(cases)])
        except (OSError, ValueError, KeyError, TypeError, IndexError, obs.Malformed):
            return None
    finally:
        core.drop_dir(d)


def record(c, name, o):
    return {"file": name, "name": c["name"], "lines": c["lines"], "fail": c["fail"], "obs": o}


def execute(cases):
    return md.execute(cases, run_batch=run_batch, record=record)


def describe(c):
    return c["name"] + ": " + "".join(c["lines"])[:400]
