"""A suite makes cases, lets the program run on them and has TLC validate what was observed."""
import json, os, re
from . import core


class Suite:
    name = ""
    tv_module = ""
    chunk = 6000
    deadlock = "FALSE"    # TRUE: the module relies on TLC to find behaviours that stop early
    strange_enough = 3

    def generate(self, tier, seed):
        """-> (cases, info)"""
        raise NotImplementedError

    def execute(self, cases):
        """-> one record for each case, with what the real program did"""
        raise NotImplementedError

    def models(self, prop, tier):
        """Check the properties on the specification itself. -> list of TLC results"""
        return []

    def describe(self, case):
        return json.dumps(case, ensure_ascii=False)[:400]

    def validate(self, records, prop):
        """-> (list of (index, detail) of rejected records, TLC results)"""
        bad, results = [], []
        for lo in range(0, len(records), self.chunk):
            part = records[lo:lo + self.chunk]
            r, strange = self.tlc(part, f"{self.name}-{prop}-{lo}", prop)
            bad += [(lo + n, {"n": n + 1, "known": "", "exp": "nothing of this kind"}) for n in strange]
            results.append(r)
            core.log(f"TLC {self.tv_module} [{prop}]: {len(part)} records, {r['distinct']} states, "
                     f"{len(r['recs'])} rejected, {r['wall']:.1f}s")
            bad += [(lo + x["n"] - 1, x) for x in r["recs"]]
        return bad, results

    def tlc(self, part, name, prop):
        """-> TLC result on the records, and the numbers of those that no state of the specification can even be
        compared with: a part is missing, or what is there is of another kind."""
        f = os.path.join(core.scratch(), name + ".ndjson")
        strange, lines = [], [json.dumps(r) for r in part]
        while True:
            order = [n for n in range(len(part)) if n not in strange]
            with open(f, "w") as out:
                out.writelines(lines[n] + "\n" for n in order)
            r = core.tlc(self.tv_module, f"""SPECIFICATION Spec
CONSTANTS
  TraceFile = "{f}"
  Prop = "{prop}"
POSTCONDITION Accepted
CHECK_DEADLOCK {self.deadlock}
""")
            os.unlink(f)
            if r["ok"]:
                break
            m = re.search(r"Error: The behavior up to this point is:.*?^/\\ l = (\d+)$", r["out"], re.S | re.M)
            if not m or not 1 <= int(m.group(1)) <= len(order):
                raise core.ToolError(f"trace validation {self.tv_module} did not finish:\n" + r["out"][-6000:])
            strange.append(order[int(m.group(1)) - 1])
            core.log(f"TLC {self.tv_module} [{prop}]: record {strange[-1]} is nothing that can be compared")
            if len(strange) >= self.strange_enough:
                break
        for x in r["recs"]:
            x["n"] = order[x["n"] - 1] + 1
        return r, strange


def model(module, cfg, what, **kw):
    return core.tlc_model(module, cfg, what, **kw)
