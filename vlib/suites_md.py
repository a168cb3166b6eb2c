from . import core, md, mono, rust
from .suite import Suite, model


class Md(Suite):
    name = "md"
    tv_module = "TV_Md"

    def generate(self, tier, seed):
        return md.generate(tier, seed)

    def execute(self, cases):
        return md.execute(cases)

    def describe(self, case):
        return md.describe(case)

    def models(self, prop, tier):
        n, a = (4, "AlphaCore") if tier == "quick" else (5, "AlphaWide")
        invs = {"C14": "C14_Headings", "C15": "C15_References", "C16": "C16_Text",
                "C17": "C17_Problems"}
        sel = invs.get(prop) or " ".join(invs.values())
        return [model("MC_Md", f"""SPECIFICATION Spec
CONSTANTS
  MaxLines = {n}
  Alphabet <- {a}
INVARIANTS {sel} C20_Prefix
PROPERTIES GrowOnly
CHECK_DEADLOCK FALSE
""", f"all documents of up to {n} lines", timeout=3000)]


class Mono(Suite):
    name = "mono"
    tv_module = "TV_Mono"

    def generate(self, tier, seed):
        return mono.generate(tier, seed)

    def execute(self, cases):
        return mono.execute(cases)

    def describe(self, case):
        return mono.describe(case)

    def models(self, prop, tier):
        n = 3 if tier == "quick" else 4
        return [model("MC_Mono", f"""SPECIFICATION Spec
CONSTANTS
  MaxLines = {n}
INVARIANTS C18_Title C18_Refs C18_Always
PROPERTIES C18_Grow
CHECK_DEADLOCK FALSE
""", f"all files of up to {n} lines", timeout=3000)]


class Rust(Suite):
    name = "rust"
    tv_module = "TV_Rust"
    chunk = 3000

    def generate(self, tier, seed):
        return rust.generate(tier, seed)

    def execute(self, cases):
        return rust.execute(cases)

    def describe(self, case):
        return rust.describe(case)

    def models(self, prop, tier):
        n = 4 if tier == "quick" else 5
        return [model("MC_Rust", f"""SPECIFICATION Spec
CONSTANTS
  MaxEvents = {n}
INVARIANTS C19_Attributed C19_Malformed C19_Quiet
PROPERTIES C19_Grow
CHECK_DEADLOCK FALSE
""", f"all sources of up to {n} events", timeout=3000)]
