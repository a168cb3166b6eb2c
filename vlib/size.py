"""Very long words.

What the program does with a word does not depend on how long the word is. So the specification
looks at documents with the short word WORD in them, and the program reads the same documents with
a very long one in its place; what it says is told with the short word again. A program that cuts,
counts or rounds at some length says something that the specification does not know."""
import random, re

WORD = "zqz"
LENGTHS = [61, 120, 251, 300, 1020, 4090, 8185, 8190, 8195, 33000, 65530, 70000, 200000]


def how(r, ascii_only=False):
    return {"c": "y" if ascii_only else r.choice(["y", "y", "é"]), "n": r.choice(LENGTHS)}


def big(g):
    return WORD + g["c"] * g["n"]


def grow(x, g):
    if not g:
        return x
    if isinstance(x, str):
        return x.replace(WORD, big(g))
    if isinstance(x, list):
        return [grow(y, g) for y in x]
    if isinstance(x, dict):
        return {k: grow(v, g) for k, v in x.items()}
    return x


def shrink(x, g):
    if not g:
        return x
    if isinstance(x, bytes):
        return x.replace(big(g).encode(), WORD.encode())
    if isinstance(x, str):
        return x.replace(big(g), WORD)
    if isinstance(x, (list, tuple)):
        return [shrink(y, g) for y in x]
    if isinstance(x, dict):
        return {shrink(k, g): shrink(v, g) for k, v in x.items()}
    return x


def lower_lines(x, k, pad=0):
    """The same observation, k lines further up, and its first line pad columns to the left."""
    if isinstance(x, dict):
        if x.get("k") in ("L", "C") and "l" in x and x["l"]:
            x = dict(x, l=str(int(x["l"]) - k))
            if pad and x["k"] == "C" and x["l"] == "1":
                x["c"] = str(int(x["c"]) - pad)
            return x
        return {a: lower_lines(v, k, pad) for a, v in x.items()}
    if isinstance(x, list):
        return [lower_lines(v, k, pad) for v in x]
    return x


def plant(r, lines):
    """Put WORD at the place of some words. -> lines, and whether letters outside ASCII may follow."""
    places = [(i, m) for i, l in enumerate(lines) for m in re.finditer(r"\w\w+", l)]
    lines, ascii_only = list(lines), False
    for i, m in sorted(r.sample(places, min(len(places), r.choice([1, 1, 2, 3]))), key=lambda p: (p[0], -p[1].start())):
        l = lines[i]
        attr = m.start() == 0 and l[m.end():m.end() + 1] == ":" and m.group()[0].isupper()
        ascii_only |= attr
        lines[i] = l[:m.start()] + ("A" if attr else "") + WORD + l[m.end():]
    return lines, ascii_only


def plant_project(r, proj):
    """Rename some of the texts of a project, everywhere alike."""
    texts = set()

    def walk(x):
        if isinstance(x, str):
            texts.add(x)
        elif isinstance(x, list):
            for y in x: walk(y)
        elif isinstance(x, dict):
            for k, y in x.items():
                if k not in ("ignore", "k", "l", "c", "raw", "kind", "parser"): walk(y)
    walk(proj)
    texts = sorted(t for t in texts if re.search(r"\w", t) and t != "AA")
    titles = sorted({x["title"][0] for a in proj["arts"] for q in a["reqs"] for x in [q] + q["covers"] + q["depends"] if x["title"] and x["title"][0]})
    chosen = titles if r.random() < 0.4 else r.sample(texts, min(len(texts), r.choice([1, 2, 4])))
    new = {t: WORD + ("" if n == 0 else "_%d" % n) for n, t in enumerate(chosen)}

    def put(x):
        if isinstance(x, str):
            return new.get(x, x)
        if isinstance(x, list):
            return [put(y) for y in x]
        if isinstance(x, dict):
            return {k: v if k in ("ignore", "k", "l", "c", "raw", "kind", "parser") else put(v) for k, v in x.items()}
        return x
    return put(proj)
