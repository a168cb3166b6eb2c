from . import core, history, sources
from .suite import Suite, model


class Paths(Suite):
    name = "paths"
    tv_module = "TV_Sources"
    chunk = 3000
    deadlock = "TRUE"

    def generate(self, tier, seed):
        return sources.generate_paths(tier, seed)

    def execute(self, cases):
        return sources.execute(cases)

    def describe(self, case):
        return sources.describe(case)

    def models(self, prop, tier):
        n = 1 if tier == "quick" else 2
        return [model("MC_Sources", f"""SPECIFICATION Spec
CONSTANTS
  MaxPaths = {n}
INVARIANTS C22_Files C22_Missing C20_Isolated C20_Reported C20_Config
PROPERTIES Ends
CHECK_DEADLOCK FALSE
""", f"all lists of up to {n} paths", timeout=3000)]


class Faults(Paths):
    name = "faults"

    def generate(self, tier, seed):
        return sources.generate_faults(tier, seed)


class History(Suite):
    name = "history"
    tv_module = "TV_History"
    deadlock = "TRUE"

    def generate(self, tier, seed):
        return history.generate(tier, seed)

    def execute(self, cases):
        return history.execute(cases)

    def describe(self, case):
        return history.describe(case)

    def models(self, prop, tier):
        sizes = ["dups"] if tier == "quick" else ["dups", "titles", "links"]
        return [model("MC_Order", f"""SPECIFICATION Spec
CONSTANTS
  Size = "{s}"
INVARIANTS C21_Artefacts C21_Relations
CHECK_DEADLOCK FALSE
""", f"all orders of all projects of the family '{s}'", timeout=3000) for s in sizes]
