from . import config, core, jobs
from .suite import Suite, model


class Jobs(Suite):
    name = "jobs"
    tv_module = "TV_Jobs"
    chunk = 4000

    def generate(self, tier, seed):
        return jobs.generate(tier, seed)

    def execute(self, cases):
        return jobs.execute(cases)

    def describe(self, case):
        return jobs.describe(case)

    def models(self, prop, tier):
        n = 4 if tier == "quick" else 5
        return [model("MC_Jobs", f"""SPECIFICATION Spec
CONSTANTS
  MaxJobs = {n}
INVARIANTS C07_Rc C08_Unknown C08_Files C08_Out
PROPERTIES C08_Keeps Ends
CHECK_DEADLOCK FALSE
""", f"all command lines of up to {n} jobs", timeout=3000)]


class Config(Suite):
    name = "config"
    tv_module = "TV_Config"

    def generate(self, tier, seed):
        return config.generate(tier, seed)

    def execute(self, cases):
        return config.execute(cases)

    def describe(self, case):
        return config.describe(case)

    def models(self, prop, tier):
        return [model("MC_Config", """SPECIFICATION Spec
INVARIANTS C09_Fatal C09_NoEffect
PROPERTIES C09_Ends
CHECK_DEADLOCK FALSE
""", "all configurations", timeout=3000)]
