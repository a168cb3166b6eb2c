from . import cli, runs, system
from .suite import Suite, model


class System(Suite):
    """Whole runs: files and configuration in, trace and exit code out."""
    name = "system"
    tv_module = "TV_System"
    deadlock = "TRUE"
    chunk = 3000

    def generate(self, tier, seed):
        return system.generate(tier, seed)

    def execute(self, cases):
        return system.execute(cases)

    def describe(self, case):
        return system.describe(case)

    def models(self, prop, tier):
        return [model("MC_System", f"""SPECIFICATION Spec
CONSTANTS
  Wide = {"FALSE" if tier == "quick" else "TRUE"}
INVARIANTS C25_Conserved C25_First C25_References C25_Uppers C25_Verdict
PROPERTIES C25_Keep C25_Ends
CHECK_DEADLOCK FALSE
""", "all mixes of files of a family that covers every file type and every kind of finding", timeout=3000)]


class Cli(Suite):
    """Command lines."""
    name = "cli"
    tv_module = "TV_Cli"
    deadlock = "TRUE"
    chunk = 6000

    def generate(self, tier, seed):
        return cli.generate(tier, seed)

    def execute(self, cases):
        return cli.execute(cases)

    def describe(self, case):
        return cli.describe(case)

    def models(self, prop, tier):
        n = 3 if tier == "quick" else 4
        return [model("MC_Cli", f"""SPECIFICATION Spec
CONSTANTS
  MaxArgs = {n}
INVARIANTS C26_Notations C26_Anywhere C26_Separator C26_Nothing C26_Refuse C26_Once
CHECK_DEADLOCK FALSE
""", f"all command lines of up to {n} arguments", timeout=3000)]


class Runs(Suite):
    """Runs that overlap and runs that are killed."""
    name = "runs"
    tv_module = "TV_Runs"
    chunk = 6000

    def generate(self, tier, seed):
        return runs.generate(tier, seed)

    def execute(self, cases):
        return runs.execute(cases)

    def describe(self, case):
        return runs.describe(case)

    def models(self, prop, tier):
        n = 2 if tier == "quick" else 3
        return [model("MC_Runs", f"""SPECIFICATION Spec
CONSTANTS
  N = {n}
INVARIANTS C27_ReadFirst C27_Others C27_Finished C27_Alone
PROPERTIES C27_Ends C27_Dead
CHECK_DEADLOCK FALSE
""", f"all interleavings of {n} runs and of kills", timeout=3000)]
