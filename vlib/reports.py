"""Taking the written reports apart into entries. Nothing is judged here."""
import json, random, re
from . import core, obs, projects, md as mdgen

STR = r'"((?:[^"\\]|\\.)*)"'


def undebug(s):
    """The text of a Rust debug string."""
    def one(m):
        x = m.group(1)
        if x.startswith("u{"):
            return chr(int(x[2:-1], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x, x)
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|.)", one, s)


MD_SECTIONS = {"# Input Errors": "input", "# Tracing Errors": "tracing", "# Uncovered Requirements": "uncovered",
               "# Derived Requirements": "derived"}


def md_entries(text):
    res, sec, sub = [], "?", ""
    for l in text.split("\n"):
        if l == "# Requirements":
            break
        if l in MD_SECTIONS:
            sec, sub = MD_SECTIONS[l], ""
        elif l.startswith("## "):
            sub = l[3:]
        elif l == "## " or l == "##":
            sub = ""
        elif l.startswith("*") or not l.startswith(" ") and l:
            res.append({"sec": sec, "sub": sub, "text": l})
        elif l:
            if res:
                res[-1]["text"] += "\n" + l
            else:
                res.append({"sec": sec, "sub": sub, "text": l})
    return res


GNU_SECTIONS = {"# Parsing Errors": "input", "# Tracing Errors": "tracing", "# Uncovered Requirement": "uncovered",
                "Derived Requirement": "derived"}


def gnu_entries(text):
    res, sec, sub = [], "?", ""
    for l in text.split("\n"):
        if l in GNU_SECTIONS:
            sec, sub = GNU_SECTIONS[l], ""
            continue
        if l.startswith("## "):
            sub = l[3:]
            continue
        if not l:
            continue
        m = re.match(rf"^(.* (?:covered|depended) with wrong title\. Expected ){STR}, actual {STR}$", l)
        if m:
            l = f'{m.group(1)}"{undebug(m.group(2))}", actual "{undebug(m.group(3))}"'
        else:
            m = re.match(rf"^(.*: should reference .* with title ){STR}$", l)
            if m:
                l = f'{m.group(1)}"{undebug(m.group(2))}"'
        if l.startswith("Error in config file: "):
            l = "CONFIG|" + "|".join(undebug(x) for x in re.findall(STR, l))
        if l.endswith(": note: previously seen here") or l.endswith(": note: Defined here"):
            if res:
                res[-1]["text"] += "\n" + l
                continue
        res.append({"sec": sec, "sub": sub if sec in ("uncovered", "derived") else "", "text": l})
    return res


def bad_block(art, text):
    return {"art": art, "head": "unreadable: " + text, "up": [], "derived": False, "down": []}


def md_blocks(text):
    """The blocks of the section '# Requirements'."""
    p = text.find("\n# Requirements\n")
    if p < 0:
        return []
    res, art, cur = [], "?", None
    blocks = []
    for l in text[p + len("\n# Requirements\n"):].split("\n"):
        if l.startswith("## "):
            art, cur = l[3:], None
        elif l.startswith("### "):
            cur = [art, [l]]
            blocks.append(cur)
        elif cur is not None:
            cur[1].append(l)
        elif l:
            res.append(bad_block(art, l))
    for art, ls in blocks:
        t = "\n".join(ls)
        if not t.endswith("\n"):
            t += "\n"
        u, d = t.rfind("\nUpwards Tracing:\n"), t.rfind("\nDownwards Tracing:\n")
        if u < 0 or d < u:
            res.append(bad_block(art, t))
            continue
        up = tracing_part(t[u + len("\nUpwards Tracing:\n"):d + 1])
        down = tracing_part(t[d + len("\nDownwards Tracing:\n"):])
        if up is None or down is None or any(x["uncovered"] for x in up[0]) or down[1]:
            res.append(bad_block(art, t))
            continue
        res.append({"art": art, "head": t[:u], "up": [{"rel": x["rel"], "links": x["links"]} for x in up[0]], "derived": up[1],
                    "down": down[0]})
    return res


def document(text):
    """The requirements document: its errors, and one text for each requirement."""
    p = text.find("\n### ")
    if p < 0:
        p = len(text)
    blocks = []
    for l in text[p + 1:].split("\n"):
        if l.startswith("### "):
            blocks.append([l])
        elif blocks:
            blocks[-1].append(l)
    # an empty line stands before each requirement, the last line has its line ending
    return {"errs": md_entries(text[:p]), "blocks": ["\n".join(b) for b in blocks]}


def tracing_part(t):
    rels, derived = [], False
    for l in t.split("\n"):
        if l.startswith("*   "):
            rels.append({"rel": l[4:], "links": [], "uncovered": False})
        elif l == "    *   Derived":
            derived = True
        elif l == "    *    UNCOVERED" and rels:
            rels[-1]["uncovered"] = True
        elif l.startswith("    *   ") and rels:
            rels[-1]["links"].append([l[8:], ""])
        elif l.startswith("        Reference: ") and rels and rels[-1]["links"] and rels[-1]["links"][-1][1] == "":
            rels[-1]["links"][-1][1] = l[len("        Reference: "):]
        elif l:
            return None
    return rels, derived


# ------------------------------------------------------------ cases

def special_artefact(r, k):
    """An artefact with input errors of the other kinds."""
    kind = r.choice(["badjson", "missing", "md", "two", "rust"])
    a = {"id": f"odd {k}", "ignore": "unset", "refTitle": r.random() < 0.3, "reqs": [], "errs": [], "kind": kind}
    if kind == "badjson":
        a["raw"] = r.choice(["", "[", "{}", "[1]", "nul", '[{"id": "x"}]'])
    elif kind == "md":
        a["parser"] = "Markdown"
        a["raw"] = "".join(mdgen.random_doc(r)["lines"]) + r.choice(["", "\n# AA: T\nCovers:\ntext\n\n# BB: T\nNote: a\nNote: b\n"])
    elif kind == "rust":
        a["parser"] = "Rust"
        a["raw"] = r.choice(["fn f() { requirement_covered!(AA); }", "fn f( {", "fn f() { requirement_covered!(1 2 3 4); }", ""])
    return a


def generate(tier, seed):
    r = random.Random(f"reports{seed}{tier}")
    cases = []
    n = 900 if tier == "quick" else 10000
    for i in range(n):
        p = projects.random_project(r, dups=r.choice([0, 0, 0, 0.1]), lines=True, texts=r.random() < 0.3)
        for k in range(r.choice([0, 0, 0, 1, 2])):
            p["arts"].append(special_artefact(r, k))
        cases.append({"proj": p})
    for i in range(3 if tier == "quick" else 30):
        cases.append({"proj": projects.random_project(r, dups=0.01, lines=True, big=r.choice([4, 7]))})
    cases += [{"proj": p} for p in projects.many_findings(120) + projects.many_findings(300)]
    cases += [{"proj": p} for p in projects.many_findings(1100)[:0 if tier == "quick" else 5]]
    cases.append({"proj": projects.many_artefacts(r, 40)})
    for _ in range(60 if tier == "quick" else 800):
        cases.append(projects.long_case(r, projects.random_project(r, dups=r.choice([0, 0.1]), lines=True, texts=True)))
    return cases, {"random": len(cases)}


def execute(cases):
    def one(c):
        out, rc = projects.run_project(c["proj"], ["tj", "tm", "tg", "pt", "pm"], c.get("grow"))
        try:
            tr = obs.full_trace(json.loads(out["tj"].decode("utf-8")))
            tr["ok"] = rc in (0, 1)
        except (AttributeError, ValueError, KeyError, TypeError, IndexError, obs.Malformed):
            tr = projects.BAD_TRACE
        s = {k: (v or b"").decode("utf-8", "replace") for k, v in out.items()}
        tagfile = s["pt"].split("\n")
        if tagfile and tagfile[-1] == "":
            tagfile.pop()
        return {"tr": tr, "doc": document(s["pm"]), "md": md_entries(s["tm"]), "gnu": gnu_entries(s["tg"]), "blocks": md_blocks(s["tm"]),
                "tagfile": tagfile, "tags": [x for x in tagfile if not x.startswith("!_TAG_")]}
    return core.parallel(one, cases)
