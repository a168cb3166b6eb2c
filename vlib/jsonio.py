"""Chains of JSON export and import."""
import json, random
from . import core, obs, projects, reports, md as mdgen

ODD = ["\"", "\\", "/", "\b", "\f", "\n", "\r", "\t", "\0", "\x01", "\x1f", "\x7f", "\x80", "\u00a0", "\u2028", "\u2029", "\ufeff",
       "\ue000", "\uffff", "🍔", "\U0010ffff", "e\u0301", "é", "日本", "{", "}", "[", "]", ":", ",", "null", "</script>", "&", "\\u0041",
       "\\n", " ", "  ", "'", "`", "a", "Z", "0", "ß", "İ", "ı", "ﬁ", "👩‍👩‍👧", "%", "$", "\u202e", "א"]


def odd_text(r, n=6):
    return "".join(r.choice(ODD) for _ in range(r.randint(0, n)))


def odd_loc(r):
    k = r.choice("LLCNS")
    f = r.choice(["f", "a b", "Ä.md", "/x/y", "..", "x\ty", "", "日本/語.md", "q\"uote", "b\\s"])
    n = str(r.choice([0, 1, 7, 4294967295, 9007199254740993, 18446744073709551615]))
    return {"f": f, "k": k, "l": n if k in "LC" else "", "c": str(r.choice([0, 1, 99, 18446744073709551615])) if k == "C" else "",
            "s": odd_text(r) if k == "S" else ""}


def odd_project(r):
    arts = []
    used = set()
    for a in range(r.choice([1, 1, 2, 3])):
        reqs = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            i = r.choice(projects.IDS) if r.random() < 0.7 else f"R_{r.randint(1, 99)}"
            if i in used and r.random() < 0.8:
                continue
            used.add(i)
            ref = lambda: {"id": odd_text(r, 3), "title": [odd_text(r)] if r.random() < 0.6 else [], "loc": odd_loc(r)}
            names = r.sample(["Description", "Note", "Ab", "Zz", "", " ", "a\"b", "Ä", "日本", "description", "x\ny"], r.randint(0, 5))
            reqs.append({"id": i, "title": [odd_text(r)] if r.random() < 0.7 else [], "loc": odd_loc(r),
                         "covers": [ref() for _ in range(r.choice([0, 1, 2, 3]))],
                         "depends": [ref() for _ in range(r.choice([0, 0, 1, 2]))],
                         "tags": [odd_text(r) for _ in range(r.choice([0, 0, 1, 3]))],
                         "attrs": [[n, odd_text(r, 20)] for n in names]})
        arts.append({"id": "abc"[a], "ignore": "unset", "refTitle": r.random() < 0.3, "reqs": reqs, "errs": []})
    return {"arts": arts, "rels": []}


def generate(tier, seed):
    r = random.Random(f"json{seed}{tier}")
    n = 500 if tier == "quick" else 6000
    cases = [{"proj": odd_project(r), "known": True} for _ in range(n)]
    cases += [{"proj": projects.random_project(r, dups=r.choice([0, 0, 0.2])), "known": True} for _ in range(n // 4)]
    for _ in range(n // 4):
        p = projects.random_project(r, dups=0)
        p["arts"] += [reports.special_artefact(r, k) for k in range(r.choice([1, 2]))]
        cases.append({"proj": p, "known": False})
    cases.append({"proj": projects.stress_project(r, 60), "known": True})
    for _ in range(n // 10):
        p = projects.random_project(r, dups=0, texts=True)
        cases.append(dict(projects.long_case(r, p), known=True))
    return cases, {"random": len(cases)}


BAD = {"ok": False, "reqs": [], "errs": []}


def read_export(data, rc):
    try:
        j = json.loads(data.decode("utf-8"))
        return {"ok": rc in (0, 1), "reqs": [obs.req(q) for q in j["requirements"]], "errs": [obs.err(e) for e in j["errors"]]}, j
    except (AttributeError, ValueError, KeyError, TypeError, IndexError, obs.Malformed):
        return dict(BAD), {"requirements": []}


def execute(cases):
    def one(c):
        out, rc = projects.run_project(c["proj"], ["pj", "tj"], c.get("grow"))
        e, j = read_export(out["pj"], rc)
        exports = [e]
        t = projects.read_trace(out["tj"])
        for k in range(2):
            # the exported list itself becomes the artefact, byte for byte as it was written
            raw = array_text(out["pj"], j)
            p = {"arts": [{"id": "again", "ignore": "unset", "refTitle": False, "reqs": [], "errs": [], "raw": raw}], "rels": []}
            out, rc = projects.run_project(p, ["pj"], c.get("grow"))
            e, j = read_export(out["pj"], rc)
            exports.append(e)
        arts = [{k: a[k] for k in ("id", "ignore", "refTitle", "reqs", "errs")} for a in c["proj"]["arts"]] if c["known"] else []
        return {"arts": arts, "known": c["known"], "exports": exports, "errs": [e for a in t["arts"] for e in a["errs"]]}
    return core.parallel(one, cases)


def array_text(data, j):
    """The text of the array 'requirements' in the export."""
    try:
        s = data.decode("utf-8")
        p = s.index('"requirements"')
        p = s.index("[", p)
        _, e = json.JSONDecoder().raw_decode(s, p)
        return s[p:e]
    except (AttributeError, ValueError):
        return json.dumps(j["requirements"])
