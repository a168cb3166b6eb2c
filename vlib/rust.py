"""Rust sources with coverage marks."""
import json, os, random
from . import core, obs, md, size
from .words import IDS, TITLES

FNS = ["f", "gg", "new", "main", "tést", "r#match", "f", "parse_macro", "x1", "_u"]
MODS = ["m", "inner", "tests", "m", "日本", "r#mod"]
TYPES = [("S", ["S"]), ("Foo<T>", ["Foo", "<", "T", ">"]), ("crate::a::B", ["crate", "::", "a", "::", "B"]), ("&'a mut T", ["&", "'a", "mut", "T"]),
         ("[u8; 4]", ["[u8", ";", "4]"]), ("(A, B)", ["(A", ",", "B)"]), ("dyn  Tr", ["dyn", "Tr"]), ("S", ["S"]), ("Größe", ["Größe"]),
         ("Box<\n  u8>", ["Box", "<", "u8", ">"])]
TRAITS = [("Tr", ["Tr"]), ("From<u8>", ["From", "<", "u8", ">"]), ("std::fmt::Display", ["std", "::", "fmt", "::", "Display"]), ("Tr", ["Tr"])]
RIDS = [i for i in IDS if i.isidentifier() and i == i.encode().decode() and "·" not in i and "\u0301" not in i]
RIDS += ["_A1", "__x", "a", "Z", "self", "fn", "async", "true", "r#type", "_", "A_", "a1_", "crate"]


def ch(k, t, **kw):
    c = {"k": k, "t": t, "it": "", "ty": [], "tr": [], "neg": False, "tok": ""}
    c.update(kw)
    return c


def tx(t):
    return ch("text", t)


def enumerate_docs(n):
    out = os.path.join(core.scratch(), f"rust{n}.ndjson")
    core.tlc_model("Gen_Rust", f'SPECIFICATION GSpec\nCONSTANTS\n  MaxEvents = {n}\n  OutFile = "{out}"\nCHECK_DEADLOCK FALSE\n', "generation")
    with open(out, encoding="utf-8") as f:
        docs = [json.loads(x)["chunks"] for x in f if x.strip()]
    os.unlink(out)
    docs.sort(key=lambda d: (len(d), json.dumps(d)))
    return docs


def lit(r, v):
    """A literal for the text v, in the forms that spec/RustSrc.tla reads."""
    hashes = "#" * r.choice([1, 2])
    if r.random() < 0.25 and '"' not in v:
        return f'r"{v}"'
    if r.random() < 0.3:
        return f'r{hashes}"{v}"{hashes}'
    s = v.replace("\\", "\\\\").replace('"', '\\"').replace("\t", r.choice(["\t", "\\t"]))
    if "é" in s and r.random() < 0.5:
        s = s.replace("é", r.choice(["\\u{e9}", "\\u{00_e9}"]), 1)
    if s.startswith("A") and r.random() < 0.5:
        s = r.choice(["\\x41", "\\u{41}"]) + s[1:]
    s = s.replace("'", r.choice(["'", "\\'"]))
    return '"' + s + '"'


TTL = [t for t in TITLES if all(ord(c) < 0x10000 for c in t) and len(t) < 100] + ["two\nlines", "", " sp ", "a\\nb"]


def sp(r):
    return [tx(r.choice([" ", "\n      ", "  ", " /* c */ ", " // é\n "]))] if r.random() < 0.25 else []


def mark(r, braces=False):
    k = r.random()
    ident = lambda: ch("arg", r.choice(RIDS), tok="ident")
    string = lambda v: ch("arg", lit(r, v), tok="str")
    other = lambda t: ch("arg", t, tok="other")
    num = lambda: other(r.choice(["17", "'c'", 'b"by"', "1.5", "(AA)", "{ AA }", "[ AA, BB ]", "0xff"]))
    if k < 0.4:
        a = [ident()]
    elif k < 0.5:
        a = [string(r.choice(["REQ-1", "a b", "x.y", "AA", "Ünote", "q\"t", "::"]))]
    elif k < 0.85:
        a = [ident(), other(","), string(r.choice(TTL))]
    elif k < 0.87:
        a = []
    elif k < 0.9:
        a = [num()]
    elif k < 0.92:
        a = [ident(), other(","), r.choice([ident(), num()])]
    elif k < 0.95:
        a = [r.choice([string("AA"), num()]), other(","), string("t")]
    elif k < 0.97:
        a = [ident(), other(",")]
    else:
        a = r.choice([[ident(), other(","), string("t"), other(",")], [ident(), tx(" "), ident()],
                      [ident(), other(","), string("t"), other(","), ident()], [ident(), other(":"), other(":"), ident()]])
    op, cl = r.choice(["()", "()", "()", "[]", "{}"] if braces else ["()", "()", "()", "[]"])
    out = [ch("mark", "requirement_covered"), tx(r.choice(["!", "!", "! ", " !"]) + op)]
    for x in a:
        out += sp(r) + [x]
    return out + sp(r) + [ch("end", cl)]


NOISE = ["// requirement_covered!(ZZ)\n", "/* requirement_covered!(ZZ); */ ", "let s = \"requirement_covered!(ZZ)\";", "println!(\"x {}\", 1);",
         "other!(ZZ);", "requirement_covered_!(ZZ);", "requirement_covered(ZZ);", "let c = 'é';", "let r = r#\"requirement_covered!(ZZ);\"#;",
         "x.requirement_covered(ZZ);", "let requirement_covered = 1;", "", "use a::b;", "struct L;", "let _ = 1 + 2;", "/* { */", "// }\n",
         "let v = vec![1, 2];", "return;", "let q = \"{\";", "'a: loop { break 'a; }", "#[allow(dead_code)] let a = 1;", "enum E { A, B }"]


def statement(r, depth):
    k = r.random()
    if k < 0.22:
        return [tx(r.choice(NOISE) + r.choice([" ", "\n", "\n    "]))]
    if k < 0.55:
        return mark(r) + [tx(";" + r.choice([" ", "\n", "\n    "]))]
    e = lambda: mark(r, True)
    w = r.choice(["let", "if", "match", "closure", "call", "tuple", "async", "loop", "cond", "for", "ref", "method", "index", "struct",
                  "ret", "const", "else", "arg", "unsafe", "try", "bin", "array", "block", "range", "cast", "lettype", "attr", "whilelet"])
    m = {"let": lambda: [tx("let x = ")] + e() + [tx(";")],
         "if": lambda: [tx("if true { ")] + mark(r) + [tx("; }")],
         "else": lambda: [tx("if true { ")] + mark(r) + [tx(" } else if false { ")] + mark(r) + [tx("; } else { ")] + mark(r) + [tx(" }")],
         "match": lambda: [tx("match x { 1 => ")] + e() + [tx(", 2 if ")] + e() + [tx(" => { ")] + mark(r) + [tx("; } _ => ()\n }")],
         "closure": lambda: [tx("let c = |a: u8| ")] + e() + [tx("; let d = move || { ")] + mark(r) + [tx("; 1 };")],
         "call": lambda: [tx("foo(1, ")] + e() + [tx(", ")] + e() + [tx(");")],
         "tuple": lambda: [tx("let t = (")] + e() + [tx(", 1);")],
         "async": lambda: [tx("let a = async { ")] + mark(r) + [tx("; };")],
         "loop": lambda: [tx("loop { ")] + mark(r) + [tx("; break; }")],
         "cond": lambda: [tx("while x && ")] + e() + [tx(" { ")] + mark(r) + [tx("; }")],
         "whilelet": lambda: [tx("while let Some(x) = foo(")] + e() + [tx(") { ")] + mark(r) + [tx("; }")],
         "for": lambda: [tx("for i in 0..3 { ")] + mark(r) + [tx("; }")],
         "ref": lambda: [tx("let y = &")] + e() + [tx(";")],
         "method": lambda: [tx("x.foo(")] + e() + [tx(").bar();")],
         "index": lambda: [tx("x[")] + e() + [tx("] = 1;")],
         "struct": lambda: [tx("let s = S { a: ")] + e() + [tx(", ..d };")],
         "ret": lambda: [tx("return ")] + e() + [tx(";")],
         "const": lambda: [tx("const K: () = { ")] + mark(r) + [tx("; };")],
         "arg": lambda: [tx("x = ")] + e() + [tx(";")],
         "unsafe": lambda: [tx("unsafe { ")] + mark(r) + [tx("; }")],
         "try": lambda: [tx("let z = ")] + e() + [tx("?;")],
         "bin": lambda: [tx("let z = 1 + ")] + e() + [tx(" * 2;")],
         "array": lambda: [tx("let z = [")] + e() + [tx("; 3];")],
         "block": lambda: [tx("{ { ")] + mark(r) + [tx("; } ")] + mark(r) + [tx("; }")],
         "range": lambda: [tx("let z = 0..")] + e() + [tx(";")],
         "cast": lambda: [tx("let z = ")] + e() + [tx(" as u8;")],
         "lettype": lambda: [tx("let z: [u8; { ")] + mark(r) + [tx("; 3 }] = y;")],
         "attr": lambda: [tx("#[rustfmt::skip]\n")] + mark(r) + [tx(";")]}[w]()
    return m + [tx(r.choice([" ", "\n", "\n    "]))]


ATTRS = ["", "", "", "", "pub ", "pub(crate) ", "#[test]\n", "/// requirement_covered!(ZZ)\n", "#[cfg(test)]\n    ", "/// doc é\n    pub "]


def items(r, depth, where, budget):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        if where == "fn" or r.random() < 0.12:
            if where == "fn":
                out += statement(r, depth)
                if r.random() < 0.75:
                    continue
            elif where == "top" or where == "mod":
                out += [tx(r.choice(["const C: u8 = ", "static C: u8 = ", "enum E { A = "]))]
                is_enum = out[-1]["t"].startswith("enum")
                out += [tx("{ ")] + mark(r) + [tx("; 1 }" + (" }" if is_enum else ";") + "\n")]
                continue
            elif where == "impl" or where == "trait":
                out += [tx("const C: u8 = { ")] + mark(r) + [tx("; 1 };\n")]
                continue
        kinds = ["fn"] if where in ("impl", "trait") else ["fn", "fn", "mod", "impl", "impl", "trait"]
        k = r.choice(kinds)
        attr = r.choice(ATTRS)
        if k == "fn":
            n = r.choice(FNS)
            if where == "trait" and r.random() < 0.2:
                out += [tx("fn decl(&self) -> u8;\n")]
                continue
            if where == "trait" or where == "impl":
                attr = "" if "pub" in attr else attr
            out += [tx(attr + r.choice(["", "", "async ", "const ", "unsafe "]) + "fn "), ch("item", n, it="fn", ty=[n]),
                    tx(r.choice(["() {", "<T: X>(a: T) -> u8 {", "(&self) {\n", "()\n{\n    "] if where in ("impl", "trait") else
                                ["() {", "<T: X>(a: T) -> u8\nwhere T: Y {", "(x: u8) {\n", "()\n{\n    "]))]
        elif k == "mod":
            n = r.choice(MODS)
            out += [tx(attr + "mod "), ch("item", n, it="mod", ty=[n]), tx(r.choice([" {\n    ", "\n{\n", "{"]))]
        elif k == "trait":
            n = r.choice(["Q", "Qq"])
            out += [tx(attr + "trait "), ch("item", n, it="trait", ty=[n]), tx(r.choice([" {\n    ", ": Sized {", "<T> {"]))]
        else:
            t, ty = r.choice(TYPES)
            tr, neg = [], False
            pre = attr.replace("pub(crate) ", "").replace("pub ", "") + r.choice(["impl ", "impl<T> ", "impl<'a, T: X> "])
            if r.random() < 0.5:
                tt, tr = r.choice(TRAITS)
                neg = r.random() < 0.15
                pre += ("!" if neg else "") + tt + " for "
            out += [tx(pre), ch("item", t, it="impl", ty=ty, tr=tr, neg=neg), tx(r.choice([" {\n    ", "\nwhere T: X {", " {"]))]
        out += items(r, depth + 1, k, budget)
        for _ in range(r.choice([0, 0, 1, 2]) if k == "fn" else 0):
            out += statement(r, depth)
        out += [ch("close", "}"), tx(r.choice(["\n", " ", "\n\n"]))]
    return out


BAD = [("17 ", "here"), ("@ ", "here"), ("} ", ""), ("fn f( {} ", ""), ("fn (", ""), ("\"open ", ""), ("let x = 1; ", ""), ("fn f() { let = 1; } ", ""),
       ("impl { ", ""), ("mod ;", ""), ("fn f() { requirement_covered!(A; } ", ""), ("fn f() { x!( } ", ""), ("€ ", ""), ("fn f() {{ } ", ""), ("'", ""),
       ("1_000_fn_ ", "here"), ("fn f() -> { } ", ""), ("/* ", "")]


def random_doc(r):
    pre = []
    k = r.random()
    if k < 0.05:
        pre = [tx("#!/usr/bin/env run\n")]
    elif k < 0.15:
        pre = [tx("#![allow(x)]\n//! requirement_covered!(ZZ)\n")]
    elif k < 0.25:
        pre = [tx("macro_rules! requirement_covered { ($x:ident) => {}; }\n")]
    cs = pre + items(r, 0, "top", [r.choice([1, 2, 4, 8, 14])])
    if r.random() < 0.08:
        # a broken file; always at the outermost level
        t, where = r.choice(BAD)
        if r.random() < 0.5:
            cs = cs + [tx("\n"), ch("bad", t, tok=where)]
        else:
            cs = [tx("\n"), ch("bad", t, tok=where)] + cs
    if r.random() < 0.15:
        for c in cs:
            if c["k"] != "arg":
                c["t"] = c["t"].replace("\n", "\r\n")
    return cs


def many(r, n):
    cs = []
    for i in range(n):
        cs += [tx("fn "), ch("item", "f%d" % i, it="fn", ty=["f%d" % i]), tx("() {\n")]
        cs += mark(r) + [tx(";\n")] + mark(r) + [tx(";\n"), ch("close", "}"), tx("\n")]
    return cs


def deep(r, n):
    cs = []
    for i in range(n):
        cs += [tx("mod "), ch("item", "m%d" % i, it="mod", ty=["m%d" % i]), tx(" {\n" + " " * i)]
        if i % 3 == 0:
            cs += [tx("const C: () = { "), *mark(r), tx("; };\n")]
    return cs + [ch("close", "}")] * n


def generate(tier, seed):
    r = random.Random(f"rust{seed}{tier}")
    docs = enumerate_docs(3 if tier == "quick" else 4)
    if tier == "quick":
        small = [d for d in docs if len(d) < 18]
        docs = small + r.sample([d for d in docs if len(d) >= 18], 900)
    n = len(docs)
    docs += [random_doc(r) for _ in range(1000 if tier == "quick" else 8000)]
    docs += [many(r, 5), many(r, 40), many(r, 300), deep(r, 6), deep(r, 20), []]
    cases = [{"chunks": d} for d in docs]
    for _ in range(100 if tier == "quick" else 1500):
        cases.append(long_doc(r, random_doc(r)))
    return cases, {"enumerated": n, "random": len(cases) - n}


def long_doc(r, cs):
    """A source with a very long word in it, or far down in its file, or far to the right."""
    c = {"chunks": cs}
    if cs and not cs[0]["t"].startswith("#!") and r.random() < 0.3:
        c.update(r.choice([{"lead": 300}, {"lead": 70000}, {"pad": 300}, {"pad": 70000}]))
        return c
    # a long word changes the columns of what follows on its line: nothing there may be reported
    free = [i for i, x in enumerate(cs) if (x["k"] == "arg" and x["tok"] == "str" and x["t"].startswith('"') and "\\" not in x["t"]
                                            or x["k"] == "item" and x["it"] in ("fn", "mod") and "#" not in x["t"])
            and columns_end(cs[i:])]
    if free and not any(x["k"] == "bad" for x in cs):
        i = r.choice(free)
        x = dict(cs[i])
        if x["k"] == "arg":
            x["t"] = '"' + r.choice(["", "a ", "- "]) + size.WORD + r.choice(["", " b", "."]) + '"'
        else:
            x["t"] = size.WORD
            x["ty"] = [size.WORD]
        c["chunks"] = cs[:i] + [x] + cs[i + 1:]
        c["grow"] = size.how(r)
    return c


def columns_end(cs):
    if "\n" in cs[0]["t"]:
        return False
    for x in cs[1:]:
        if "\n" in x["t"]:
            return True
        if x["k"] in ("mark", "item", "bad"):
            return False
    return True


def run_batch(cases):
    d = core.new_dir("rust")
    try:
        cfg = "relations = []\n"
        for i, c in enumerate(cases):
            text = "".join(x["t"] for x in c["chunks"])
            core.write_file(f"{d}/s{i}.rs", size.grow("\n" * c.get("lead", 0) + " " * c.get("pad", 0) + text, c.get("grow")))
            cfg += f'[[artefacts]]\nid = "a{i}"\npaths = ["s{i}.rs"]\nparser = "Rust"\n'
        cfg += '[jobs.t]\nquery = "Parse"\nformat = "Json"\nfile = "out.json"\n'
        core.write_file(f"{d}/requirements.toml", cfg)
        rc, so, se = core.run_cli(d, ["t"])
        if rc not in (0, 1):
            return None
        try:
            with open(f"{d}/out.json", encoding="utf-8") as f:
                return md.by_file(json.load(f), [f"s{i}.rs" for i in range(len(cases))])
        except (OSError, ValueError, KeyError, TypeError, IndexError, obs.Malformed):
            return None
    finally:
        core.drop_dir(d)


def record(c, name, o):
    return {"file": name, "chunks": c["chunks"], "obs": o}


def execute(cases):
    return md.execute(cases, run_batch=run_batch, record=record, batch=200)


def describe(c):
    return "".join(x["t"] for x in c["chunks"])[:400]
