"""Which suites decide which property."""
from .suites_jobs import Config, Jobs
from .suites_md import Md, Mono, Rust
from .suites_src import Faults, History, Paths
from .suites_sys import Cli, Runs, System
from .suites_trace import JsonChain, Report, Trace

MD, MONO, RUST, TRACE, REPORT, JSON, JOBS, CONFIG = Md(), Mono(), Rust(), Trace(), Report(), JsonChain(), Jobs(), Config()
PATHS, FAULTS, HISTORY, SYSTEM, CLI, RUNS = Paths(), Faults(), History(), System(), Cli(), Runs()

PROPS = {
    "C01": [TRACE], "C02": [TRACE], "C03": [TRACE], "C04": [TRACE], "C05": [TRACE], "C06": [TRACE],
    "C07": [JOBS], "C08": [JOBS], "C09": [CONFIG],
    "C10": [REPORT], "C11": [REPORT], "C12": [JSON], "C13": [REPORT],
    "C14": [MD], "C15": [MD], "C16": [MD], "C17": [MD], "C18": [MONO], "C19": [RUST],
    "C20": [FAULTS], "C21": [HISTORY], "C22": [PATHS],
    "C23": [REPORT], "C24": [REPORT], "C25": [SYSTEM], "C26": [CLI], "C27": [RUNS],
}

_BIND = (" The program is bound by running it end to end on TLC-enumerated and seeded random inputs and validating what it did "
         "against the machine with TLC. Trusts TLC and the projection of the program's output; larger inputs are sampled only.")
_MD = ("TLC shows on the specification that the line machine gives every document of up to 4 (thorough: 5) lines over all "
       "line forms the declarative meaning." + _BIND)
_TR = ("TLC shows on the specification that, for every project of an exhaustively enumerated family of three artefacts, the "
       "step-by-step tracer ends with the result the property defines." + _BIND)
_RE = ("TLC shows on the specification that, for every project of an exhaustively enumerated family, the specified reports are "
       "complete, list nothing else and agree with each other; the reports of the program are compared with those that the "
       "specification derives from its JSON trace." + _BIND)
NOTES = {
    **{f"C0{k}": _TR for k in range(1, 7)},
    **{k: _MD for k in ("C14", "C15", "C16", "C17")},
    **{k: _RE for k in ("C10", "C11", "C13")},
    "C07": "TLC checks exit code and file contents on a machine that executes every command line of up to 4 (thorough: 5) jobs "
           "of every kind and destination." + _BIND,
    "C09": "TLC checks on all combinations of configuration defects that the machine ends fatally exactly for the invalid ones "
           "and without effects." + _BIND,
    "C12": "TLC checks export-import-export chains of all projects of an enumerated family." + _BIND,
    "C18": "TLC shows on the specification that the line machine gives every file of up to 3 (thorough: 4) lines over all line "
           "forms the declarative meaning." + _BIND,
    "C19": "TLC shows on the specification that the source machine gives every source of up to 4 (thorough: 5) events (items opened and "
           "closed, marks, malformed marks, other code) the declarative meaning." + _BIND,
    "C20": "TLC shows on the specification that, for every list of up to 1 (thorough: 2) paths of every artefact kind over a tree with "
           "every kind of defect, reading ends, defects are reported and what other files give does not depend on them." + _BIND,
    "C21": "TLC shows on the specification that, for every project of an enumerated family, every order of artefacts gives the same "
           "result and every order of relations the same findings." + _BIND,
    "C22": "TLC shows on the specification that every list of up to 1 (thorough: 2) paths or patterns over a tree selects exactly the "
           "files that the declarative meaning of patterns defines." + _BIND,
}
NOTES["C08"] = NOTES["C07"]
NOTES["C23"] = ("TLC shows on the specification that, for every project of an enumerated family, the machine that writes the document "
                "shows every requirement with everything known about it, in order, and nothing else." + _BIND)
NOTES["C24"] = ("TLC shows on the specification that every title of up to 4 (thorough: 5) characters of every class that means "
                "something in Markdown, ids or anchors gives one link that leads to its heading; the links of the program are resolved "
                "against its headings by the specification's reading of Markdown." + _BIND)
NOTES["C25"] = ("TLC shows on the composed specification (files, parsers, merging, tracing, exit code) that, for every mix of files of an "
                "enumerated family, nothing is lost, invented or changed between files and trace and the verdict is right." + _BIND)
NOTES["C26"] = ("TLC shows on the specification that the argument machine gives every command line of up to 3 (thorough: 4) arguments of "
                "every form the declarative meaning." + _BIND)
NOTES["C27"] = ("TLC checks on the specification all interleavings of two (thorough: three) runs and of kills at any moment. The program is "
                "bound by steering runs with named pipes as inputs and outputs through the schedules that TLC generates, killing them at "
                "each place where they wait and at random moments, and validating with TLC what happened and the files at each moment. "
                "Trusts TLC and the projection; killing the machine (power failure) is not covered.")
