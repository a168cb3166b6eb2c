from . import core, jsonio, projects, reports
from .suite import Suite, model


class Trace(Suite):
    name = "trace"
    tv_module = "TV_Trace"
    chunk = 5000

    def generate(self, tier, seed):
        return projects.generate(tier, seed)

    def execute(self, cases):
        return projects.execute(cases)

    def describe(self, case):
        return projects.describe(case)

    def models(self, prop, tier):
        invs = {"C01": "C01_Coverage Local", "C02": "C02_Uncovered Local", "C03": "C03_Derived", "C04": "C04_Dangling",
                "C05": "C05_Titles", "C06": "C06_Duplicates C06_Within"}
        sizes = {"C05": ["titles"], "C06": ["dups"]}.get(prop, ["links"]) if tier == "quick" else ["links", "titles", "dups"]
        return [model("MC_Trace", f"""SPECIFICATION Spec
CONSTANTS
  Size = "{s}"
INVARIANTS {invs[prop]} Bounded
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
""", f"all projects of the family '{s}'", timeout=3000) for s in sizes]


class Report(Suite):
    name = "report"
    tv_module = "TV_Report"
    chunk = 3000

    def generate(self, tier, seed):
        return reports.generate(tier, seed)

    def execute(self, cases):
        return reports.execute(cases)

    def describe(self, case):
        return projects.describe(case)

    def models(self, prop, tier):
        if prop == "C23":
            return [model("MC_Doc", f"""SPECIFICATION Spec
CONSTANTS
  Size = "{z}"
INVARIANTS C23_Complete C23_NothingElse C23_Sorted C23_Tells
PROPERTIES C23_Ends
CHECK_DEADLOCK FALSE
""", f"all projects of the family '{z}'", timeout=3000) for z in (["dups"] if tier == "quick" else ["links", "titles", "dups"])]
        if prop == "C24":
            return [model("MC_Links", f"""SPECIFICATION Spec
CONSTANTS
  MaxLen = {4 if tier == "quick" else 5}
INVARIANTS C24_One C24_Leads
CHECK_DEADLOCK FALSE
""", "titles of all characters that mean something", timeout=3000)]
        invs = {"C10": "C10_Complete C10_NothingElse C10_NoCollision", "C11": "C11_Symmetric C11_OneEach C11_Marks",
                "C13": "C13_Tags"}[prop]
        sizes = {"C10": ["titles"], "C11": ["links"], "C13": ["dups"]}[prop] if tier == "quick" else ["links", "titles", "dups"]
        return [model("MC_Report", f"""SPECIFICATION Spec
CONSTANTS
  Size = "{s}"
INVARIANTS {invs}
CHECK_DEADLOCK FALSE
""", f"all projects of the family '{s}'", timeout=3000) for s in sizes]


class JsonChain(Suite):
    name = "json"
    tv_module = "TV_Json"
    chunk = 3000

    def generate(self, tier, seed):
        return jsonio.generate(tier, seed)

    def execute(self, cases):
        return jsonio.execute(cases)

    def describe(self, case):
        return projects.describe(case)

    def models(self, prop, tier):
        return [model("MC_Json", f"""SPECIFICATION Spec
CONSTANTS
  Size = "dups"
  MaxExports = {3 if tier == "quick" else 5}
INVARIANTS C12_Export C12_Ids C12_Same C12_Keep
PROPERTIES C12_Complete
CHECK_DEADLOCK FALSE
""", "all projects of the family 'dups'", timeout=3000)]
