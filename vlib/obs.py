"""Projection of the program's JSON output to the records of spec/Model.tla.

Only renames and retypes: no finding is computed, dropped or reordered here."""


class Malformed(Exception):
    """The output does not have the documented structure."""


def loc(j):
    p = j["location_in_file"]
    r = {"f": j["file"], "k": "N", "l": "", "c": "", "s": ""}
    if p is None:
        return r
    if not isinstance(p, dict) or len(p) != 1:
        raise Malformed(f"location {p!r}")
    (k, v), = p.items()
    if k == "Line":
        r.update(k="L", l=str(v))
    elif k == "LineAndColumn":
        r.update(k="C", l=str(v[0]), c=str(v[1]))
    elif k == "String":
        r.update(k="S", s=v)
    else:
        raise Malformed(f"location {p!r}")
    return r


NOLOC = {"f": "", "k": "N", "l": "", "c": "", "s": ""}


def opt(x):
    return [] if x is None else [x]


def ref(j):
    return {"id": j["id"], "title": opt(j["title"]), "loc": loc(j["location"])}


def req(j):
    return {"id": j["id"], "title": opt(j["title"]), "loc": loc(j["location"]),
            "covers": [ref(x) for x in j["covers"]], "depends": [ref(x) for x in j["depends"]],
            "tags": list(j["tags"]), "attrs": [[k, v] for k, v in j["attributes"].items()]}


def E(k, loc=NOLOC, loc2=NOLOC, x="", y="", z=""):
    return {"k": k, "loc": loc, "loc2": loc2, "x": x, "y": y, "z": z}


def err(j):
    if j == "EmptyGraph":
        return E("EmptyGraph")
    (k, v), = j.items()
    if k == "Format":
        return E("Format", loc(v[0]))
    if k == "DuplicateRequirement":
        return E("DupReq", loc(v[0]["location"]), loc(v[1]["location"]), v[0]["id"])
    if k == "DuplicateAttribute":
        return E("DupAttr", loc(v[0]), NOLOC, v[1], v[2])
    if k == "Io":
        return E("Io", x=v[0])
    if k == "Config":
        return E("Config")
    if k in ("CoveredWithWrongTitle", "DependWithWrongTitle"):
        return E("CoveredWrong" if k[0] == "C" else "DependWrong", loc(v["location"]), NOLOC,
                 v["upper"]["id"], v["lower"]["id"], v["wrong_title"])
    if k == "ReferencedWithoutTitle":
        return E("RefNoTitle", loc(v["location"]), NOLOC, v["referenced"]["id"])
    if k == "RequirementWithoutTitle":
        return E("ReqNoTitle", loc(v["location"]), NOLOC, v["id"])
    if k in ("DependOnUnknownRequirement", "CoversUnknownRequirement"):
        return E("DependUnknown" if k[0] == "D" else "CoversUnknown", loc(v[2]), NOLOC, v[0]["id"], v[1])
    if k == "UnusedRelation":
        return E("Unused", x=v["upper"], y=", ".join(v["lower"]))
    return E(k)


def artefact(j):
    """One artefact of a trace. reqs: all requirements that were found, in the order of the map,
    followed by those that are only mentioned as duplicates of them."""
    reqs = []
    for k, v in j["requirements"].items():
        if v["id"] != k:
            raise Malformed(f"requirement {v['id']!r} stored as {k!r}")
        reqs.append(req(v))
    dups = [req(e["DuplicateRequirement"][1]) for e in j["errors"]
            if isinstance(e, dict) and "DuplicateRequirement" in e]
    return {"id": j["id"], "files": list(j["files"]), "ignore": j["ignore_derived_requirements"],
            "refTitle": j["reference_with_title"], "reqs": reqs, "dups": dups,
            "errs": [err(e) for e in j["errors"]]}


def trace(j):
    t = j["trace"]
    arts = []
    for k, v in t["artefacts"].items():
        if v["id"] != k:
            raise Malformed("artefact id")
        arts.append(artefact(v))
    rels = [{"upper": r["upper"], "lower": list(r["lower"]),
             "covered": [{"upper": c["upper"], "lower": c["lower"], "loc": loc(c["location"]),
                          "dir": c["direction"]} for c in r["covered"]],
             "uncovered": list(r["uncovered"])} for r in t["traced_relations"]]
    derived = [{"art": k, "ids": list(v)} for k, v in t["derived"].items()]
    return {"arts": arts, "rels": rels, "derived": derived, "errs": [err(e) for e in t["errors"]]}


# ---- findings with everything a report shows of them

NOHEAD = {"id": "", "title": [], "loc": NOLOC}


def head(j):
    return {"id": j["id"], "title": opt(j["title"]), "loc": loc(j["location"])}


def F(k, loc=NOLOC, r1=NOHEAD, r2=NOHEAD, y="", z="", msg="", lower=()):
    return {"k": k, "loc": loc, "r1": r1, "r2": r2, "y": y, "z": z, "msg": msg, "lower": list(lower)}


def finding(j):
    (k, v), = j.items()
    if k == "Format":
        return F("Format", loc(v[0]), msg=v[1])
    if k == "DuplicateRequirement":
        return F("DupReq", r1=head(v[0]), r2=head(v[1]))
    if k == "DuplicateAttribute":
        return F("DupAttr", loc(v[0]), y=v[1], z=v[2])
    if k == "Io":
        return F("Io", y=v[0], msg=v[1])
    if k == "Config":
        return F("Config", msg=v)
    if k in ("CoveredWithWrongTitle", "DependWithWrongTitle"):
        return F("CoveredWrong" if k[0] == "C" else "DependWrong", loc(v["location"]), head(v["upper"]), head(v["lower"]),
                 z=v["wrong_title"])
    if k == "ReferencedWithoutTitle":
        return F("RefNoTitle", loc(v["location"]), head(v["referenced"]))
    if k == "RequirementWithoutTitle":
        return F("ReqNoTitle", r1=head(v))
    if k in ("DependOnUnknownRequirement", "CoversUnknownRequirement"):
        return F("DependUnknown" if k[0] == "D" else "CoversUnknown", loc(v[2]), head(v[0]), y=v[1])
    if k == "UnusedRelation":
        return F("Unused", y=v["upper"], lower=v["lower"])
    raise Malformed(f"finding {k}")


def full_trace(j):
    t = trace(j)
    for a in t["arts"]:
        a["errs"] = [finding(e) for e in j["trace"]["artefacts"][a["id"]]["errors"]]
        a.pop("dups")
    t["errs"] = [finding(e) for e in j["trace"]["errors"]]
    return t
