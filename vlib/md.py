"""Markdown artefacts: generation of documents, running the program on them."""
import json, os, random
from . import core, obs, size
from .words import *


def toml_str(s):
    out = '"'
    for ch in s:
        if ch == '"' or ch == "\\":
            out += "\\" + ch
        elif ord(ch) < 0x20 or ord(ch) == 0x7f:
            out += "\\u%04x" % ord(ch)
        else:
            out += ch
    return out + '"'


# ------------------------------------------------------------ generation

def enumerate_docs(max_lines, alphabet):
    """All documents up to a length, written by TLC from the specification."""
    out = os.path.join(core.scratch(), f"docs{max_lines}{alphabet}.ndjson")
    r = core.tlc_model("Gen_Md", f"""SPECIFICATION GSpec
CONSTANTS
  MaxLines = {max_lines}
  Alphabet <- {alphabet}
  OutFile = "{out}"
CHECK_DEADLOCK FALSE
""", "generation")
    with open(out, encoding="utf-8") as f:
        docs = [{"lines": json.loads(x)["lines"]} for x in f if x.strip()]
    os.unlink(out)
    docs.sort(key=lambda d: (len(d["lines"]), d["lines"]))
    return docs, r


def rnd_id(r, pool=IDS):
    return r.choice(pool)


def heading(r, small):
    h = "#" * r.choice([1, 2, 2, 3, 4, 6, 7])
    sp = r.choice([" ", " ", " ", "", "  ", "\t", "\u00a0"])
    i = r.choice(small) if r.random() < 0.7 else rnd_id(r)
    t = r.choice(TITLES)
    return h + sp + i + ":" + r.choice([" ", " ", "", "   ", "\t"]) + t + r.choice(["", "", "", " ", "\t", "  "])


def odd_heading(r):
    return r.choice(["# Heading", "## " + r.choice(BAD_IDS) + ": T", "#", "#AA", "## AA : T", "# AA:", "# AA: ", "##  ",
                     "### AA Title", "#! AA: x", "# *AA*: T", "## AA BB: T", "#: T", "## Covers: AA?".replace("Covers", "A"),
                     "# 1AA: T", "## ÄÄ", "# Some words here: more", "# https://a.b"])


def bullet(r, small):
    i = r.choice(small) if r.random() < 0.6 else rnd_id(r)
    t = r.choice(["", "", ": " + r.choice(TITLES), ":" + r.choice(TITLES), ": " + r.choice(TITLES) + "  ", " "])
    return r.choice(["* ", "*   ", "- ", "+ ", "  * ", "\t- ", "*\t", " + ", "\t+\t", "    *   ", "*\u00a0"]) + i + t


def odd_bullet(r):
    return r.choice(["*AA", "1. AA", "• AA", "* [AA](x)", "* AA BB", "** AA", "* AA :T", "* A", "* _AA", "* AA: ", "AA", "* AA-B",
                     "*", "-", "* " + r.choice(BAD_IDS), "text", "AA: T", "* AA,BB", "=> AA"])


def ref_attr(r, small):
    n = r.choice(["Covers", "Depends"])
    ids = [r.choice(small) if r.random() < 0.7 else rnd_id(r) for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3, 9]))]
    sep = r.choice([", ", ", ", ",", " , ", ",\t", ",,", ";", " "])
    lst = r.choice(["", "", "", "", "", "", ",", " ,", ", ", ",,", "\t"] if ids else [""]) + sep.join(ids) + r.choice(["", "", "", "", ",", "  ", " ,", ",,", ", "])
    return n + ":" + r.choice(["", " ", "  ", "\t"] if not ids else [" ", "", "  "]) + lst


def text_attr(r):
    n = r.choice(ATTRS)
    return n + ":" + r.choice(["", " ", " ", " "]) + r.choice(["", "value", "value  ", "a: b", "x, y", "Covers: AA", "é"] + TEXTS[:5])


def section(r, small):
    ls = [heading(r, small)]
    blank = lambda: [r.choice(["", "", "", " ", "\t", "  \t "]) for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3, 4, 6]))]
    if r.random() < 0.4:
        ls += blank()
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        ls += [r.choice(TEXTS) for _ in range(r.choice([1, 1, 2, 4]))]
        if r.random() < 0.85:
            ls += blank()
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5])):
        if r.random() < 0.6:
            ls.append(ref_attr(r, small))
            ls += [bullet(r, small) for _ in range(r.choice([0, 1, 2, 3, 3, 8]))]
            if r.random() < 0.9:
                ls += blank()
            if r.random() < 0.06:
                ls.append(r.choice(TEXTS))
        else:
            ls.append(text_attr(r))
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                ls.append(r.choice(TEXTS))
                if r.random() < 0.3:
                    ls += blank()
            if r.random() < 0.6:
                ls += blank()
    return ls


def any_line(r, small):
    k = r.random()
    if k < 0.12: return heading(r, small)
    if k < 0.2: return odd_heading(r)
    if k < 0.35: return ""
    if k < 0.5: return r.choice(TEXTS)
    if k < 0.65: return ref_attr(r, small)
    if k < 0.75: return text_attr(r)
    if k < 0.93: return bullet(r, small)
    return odd_bullet(r)


def random_doc(r):
    small = r.sample(IDS, 4)
    kind = r.random()
    ls = []
    if kind < 0.25:
        ls = [any_line(r, small) for _ in range(r.randint(1, 14))]
    else:
        if r.random() < 0.4:
            ls += [r.choice(TEXTS), ""]
        n = r.choice([1, 2, 3, 4, 6]) if kind < 0.97 else r.randint(20, 60)
        for _ in range(n):
            ls += section(r, small)
            if r.random() < 0.15:
                ls += [odd_heading(r)] + [r.choice(TEXTS + [""]) for _ in range(r.randint(0, 3))]
        if r.random() < 0.35:
            for _ in range(r.randint(1, 3)):
                p = r.randrange(len(ls) + 1)
                op = r.random()
                if op < 0.4: ls.insert(p, any_line(r, small))
                elif op < 0.6 and ls: ls.pop(min(p, len(ls) - 1))
                elif op < 0.8 and ls: ls.insert(p, ls[min(p, len(ls) - 1)])
                else: ls.insert(p, odd_bullet(r))
    if kind > 0.99:
        ls.insert(r.randrange(len(ls) + 1), "long " + "äx" * 6000)
    return finish(r, ls)


def finish(r, ls):
    e = r.random()
    if e < 0.65: lines = [l + "\n" for l in ls]
    elif e < 0.85: lines = [l + "\r\n" for l in ls]
    else: lines = [l + r.choice(["\n", "\r\n"]) for l in ls]
    if lines and r.random() < 0.35:
        lines[-1] = lines[-1].rstrip("\r\n") if r.random() < 0.8 else lines[-1].rstrip("\n")
        if lines[-1] == "":
            lines.pop()
    return {"lines": lines}


def many_refs_doc(r, n):
    """One requirement with long lists, several of them."""
    ls = ["# RR_%d: T" % n, "", "Covers: " + ", ".join("C_%d" % i for i in range(n))]
    ls += ["* D_%d: Title %d" % (i, i) for i in range(n)]
    ls += ["", "Depends:"] + ["- E_%d" % i for i in range(n)] + ["", "Note: x"] + ["line %d" % i for i in range(n)]
    ls += ["", "# SS_%d: T" % n, "Depends: E_0"]
    return {"lines": [l + "\n" for l in ls]}


def many_reqs_doc(n):
    ls = []
    for i in range(n):
        ls += ["## R_%d: Title %d" % (i, i), "", "text %d" % i, "", "Covers: U_%d" % i, ""]
    return {"lines": [l + "\n" for l in ls]}


def corpus():
    d = os.path.join(core.VERIF, "corpus", "md")
    docs = []
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), encoding="utf-8", newline="") as h:
            docs.append(h.read().splitlines(keepends=True))
    return docs


def damaged(r, ls):
    """A real document with a few changes."""
    ls = list(ls)
    for _ in range(r.choice([1, 1, 2, 4, 8])):
        k = r.randrange(len(ls))
        what = r.random()
        if what < 0.2:
            del ls[k]
        elif what < 0.35:
            ls.insert(k, r.choice(ls))
        elif what < 0.5:
            ls.insert(k, "\n")
        elif what < 0.6:
            j = r.randrange(len(ls))
            ls[j], ls[k] = ls[k], ls[j]
        elif what < 0.75:
            ls.insert(k, any_line(r, IDS[:4]) + "\n")
        elif ls[k].strip():
            j = r.randrange(len(ls[k]))
            ls[k] = ls[k][:j] + r.choice(["", " ", "#", ":", "*", "-", "A", "_", ",", "\t"]) + ls[k][j + r.choice([0, 1]):]
            if not ls[k].endswith("\n"):
                ls[k] += "\n"
        if not ls:
            ls = ["\n"]
    return {"lines": ls}


def generate(tier, seed):
    r = random.Random(f"md{seed}{tier}")
    docs, _ = enumerate_docs(2 if tier == "quick" else 3, "AlphaWide")
    docs2, _ = enumerate_docs(3 if tier == "quick" else 4, "AlphaCore")
    seen = {tuple(d["lines"]) for d in docs}
    docs += [d for d in docs2 if tuple(d["lines"]) not in seen]
    enumerated = len(docs)
    # the same documents in other guises: without final line feed, with Windows line endings
    for d in list(docs):
        k = r.random()
        if k < 0.15:
            ls = [x.replace("\r\n", "\n").replace("\n", "\r\n") for x in d["lines"]]
            docs.append({"lines": ls})
        elif k < 0.3 and d["lines"][-1].rstrip("\r\n"):
            docs.append({"lines": d["lines"][:-1] + [d["lines"][-1].rstrip("\r\n")]})
    for _ in range(1500 if tier == "quick" else 25000):
        docs.append(random_doc(r))
    docs += [many_refs_doc(r, n) for n in (10, 17, 33, 70, 130, 300)] + [many_reqs_doc(n) for n in (5, 40, 300)]
    docs.append({"lines": []})
    real = corpus()
    docs += [{"lines": ls} for ls in real if ls]
    small = [ls for ls in real if 0 < len(ls) < 120]
    docs += [damaged(r, r.choice(small)) for _ in range(40 if tier == "quick" else 1500)] + [damaged(r, ls) for ls in real if len(ls) >= 120]
    for _ in range(150 if tier == "quick" else 2000):
        docs.append(long_doc(r, random_doc(r)))
    docs += [dict(d, lead=k) for d in docs[-4:] for k in (300, 70000)]
    return docs, {"enumerated": enumerated, "random": len(docs) - enumerated}


def long_doc(r, d):
    ls, ascii_only = size.plant(r, d["lines"])
    return {"lines": ls, "grow": size.how(r, ascii_only)}


# ------------------------------------------------------------ execution

def execute(cases, batch=400, run_batch=None, record=None):
    """Let the program read each document as an artefact of its own."""
    run_batch = run_batch or globals()["run_batch"]
    record = record or globals()["record"]
    numbered = list(enumerate(cases))
    out = [None] * len(cases)

    def run(group):
        res = run_batch([c for _, c in group])
        if res is None:
            if len(group) == 1:
                n, c = group[0]
                out[n] = record(c, "./d0.md", {"ok": False, "reqs": [], "errs": []})
                return
            h = len(group) // 2
            run(group[:h])
            run(group[h:])
            return
        for (n, c), (name, o) in zip(group, res):
            o = size.shrink(o, c.get("grow"))
            if c.get("lead") or c.get("pad"):
                o = size.lower_lines(o, c.get("lead", 0), c.get("pad", 0))
            out[n] = record(c, name, o)

    core.parallel(run, [numbered[i:i + batch] for i in range(0, len(numbered), batch)])
    return out


def record(c, name, o):
    return {"file": name, "lines": c["lines"], "fail": c.get("fail", -1), "obs": o}


def run_batch(cases):
    d = core.new_dir("md")
    try:
        cfg = "relations = []\n"
        for i, c in enumerate(cases):
            data = size.grow("\n" * c.get("lead", 0) + "".join(c["lines"]), c.get("grow")).encode()
            if c.get("fail", -1) >= 0:
                data = "".join(c["lines"][:c["fail"]]).encode() + b"\xff\xfe\n" + "".join(c["lines"][c["fail"]:]).encode()
            core.write_file(f"{d}/d{i}.md", data)
            cfg += f'[[artefacts]]\nid = "a{i}"\npaths = ["d{i}.md"]\nparser = "Markdown"\n'
        cfg += '[jobs.t]\nquery = "Parse"\nformat = "Json"\nfile = "out.json"\n'
        core.write_file(f"{d}/requirements.toml", cfg)
        rc, so, se = core.run_cli(d, ["t"])
        if rc not in (0, 1):
            return None
        try:
            with open(f"{d}/out.json", encoding="utf-8") as f:
                return by_file(json.load(f), [f"./d{i}.md" for i in range(len(cases))])
        except (OSError, ValueError, KeyError, TypeError, IndexError, obs.Malformed):
            return None
    finally:
        core.drop_dir(d)


def by_file(j, names):
    """The output of a parse job, split by the files it talks about."""
    res = {n: {"ok": True, "reqs": [], "errs": []} for n in names}
    for r in j["requirements"]:
        r = obs.req(r)
        res[r["loc"]["f"]]["reqs"].append(r)
    for e in j["errors"]:
        if isinstance(e, dict) and "DuplicateRequirement" in e:
            r = obs.req(e["DuplicateRequirement"][1])
            res[r["loc"]["f"]]["reqs"].append(r)
        else:
            e = obs.err(e)
            res[e["x"] if e["k"] == "Io" else e["loc"]["f"]]["errs"].append(e)
    return [(n, res[n]) for n in names]


def describe(case):
    return "".join(case["lines"])[:400]
