"""Writes MANIFEST.json from the properties and the table below: python3 tools/manifest.py"""

import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
import check  # noqa: E402

TECH = "TLA+ specification checked with TLC; {how}"
HOW = {
    "dist": ("traces of the real scheduler validated against spec/DistTrace.tla, inputs from the design spec DistMC and random ones",
             "Every call of the real scheduler that was made is judged by TLC against Dist.tla. DistMC enumerates all small id lists exhaustively; larger "
             "lists are sampled. Trusts TLC and the driver's translation of ids to scope and file numbers."),
    "subproj": ("traces of the real grouping and relocation validated against spec/SubprojTrace.tla over real directory trees",
                "All trees of the design spec SubprojMC plus random trees with symlinks, markers and missing files, built on disk; TLC resolves paths itself."),
    "parrun": ("recorded runs over worker processes validated against spec/ParRunTrace.tla, fault and completion schedules from ParRunMC",
               "Real processes are started by the real runner; workers are scripted stand-ins that follow the outcomes and completion orders TLC enumerated "
               "(three workers exhaustively in the thorough tier) and random ones. Trusts the stand-in's event log."),
    "conc": ("recorded runs with waiting workers validated against spec/ParRunTrace.tla and NativeRunTrace.tla",
             "Workers wait for the start or end of others; a wait in vain is a violation. The designs are shown to terminate under a barrier."),
    "files": ("traces of the real file discovery validated against spec/FilesTrace.tla over real directory trees",
              "All trees of FilesMC plus random ones; glob matching is defined in Glob.tla, independent of the code."),
    "native": ("recorded native runs validated against spec/NativeRunTrace.tla, fault assignments from NativeRunMC",
               "Every assignment of twelve worker fates to two workers (three, sampled, in the thorough tier), random fault mixes, and real Python workers that "
               "die at different points. Trusts the stand-in's event log and the parser of the printed summary."),
    "config": ("traces of the real config reader validated against spec/ConfigTrace.tla, documents from ConfigMC",
               "All combinations of setting shapes of ConfigMC rendered as TOML, plus malformed documents."),
    "cli": ("traces of the real argument parser validated against spec/CliTrace.tla, inputs from CliMC",
            "Small argument combinations exhaustively, larger ones sampled; CPU counts are taken from the same library under several CPU masks."),
    "worker": ("recorded runs of the real Python worker over generated projects validated against spec/WorkerTrace.tla, programs from WorkerMC",
               "Generated test modules log what they execute; TLC decides from the program which cases, events, outcomes and outputs there have to be."),
    "cases": ("expansions by the real decorators validated against spec/CasesTrace.tla, decorator stacks from CasesMC",
              "Small stacks of decorators exhaustively, larger ones sampled; bodies are run to see the arguments."),
    "collect": ("recorded collections by the real code validated against spec/CollectTrace.tla, projects from CollectMC and InheritMC",
                "All lists of given paths of CollectMC (sampled in the quick tier), every hierarchy of four (thorough: five) classes of InheritMC spread over "
                "files with random import styles, and random projects. The parser crate is not available offline; a stand-in with Python's own parser feeds "
                "the same syntax tree types."),
    "ids": ("recorded collections by the real code validated against spec/CollectIdsTrace.tla, decorator stacks from CollectIdsMC",
            "Every stack of one or two small decorators exhaustively, and random modules with many kinds of values, argument names and ids. The specification's "
            "ids were compared with those of the installed pytest. The parser crate is not available offline; a stand-in with Python's own parser feeds the same "
            "syntax tree types."),
    "main": ("whole runs of the program recorded and validated against spec/MainTrace.tla, scenarios from MainMC",
             "All combinations of a small set of paths, options, broken files and outcomes come from TLC; random projects add directories, subprojects, "
             "configured patterns, stacked and unexpandable cases, environment settings. The program is the real one (`python -m rtest`) except for the parser "
             "crate, which is not available offline and is replaced by Python's own parser feeding the same syntax tree types."),
    "raises": ("executions of the real context manager validated against spec/RaisesTrace.tla, programs from RaisesMC",
               "Small programs over an exception hierarchy exhaustively, nested ones and patterns sampled."),
}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "..", "properties.jsonl"), encoding="utf-8")]
    checks = []
    for prop in ids:
        area = next((k for k, v in check.AREAS.items() if prop in v), None)
        if area and os.path.exists(os.path.join(HERE, "..", "checks", area + ".py")):
            how, note = HOW[area]
            checks.append({"property": prop, "quick_cmd": f"python3 check.py {prop} --tier quick", "thorough_cmd": f"python3 check.py {prop} --tier thorough",
                           "technique": TECH.format(how=how), "level": "model_checking", "level_note": note})
    claimed = {c["property"] for c in checks}
    na = [{"property": i, "reason": NA.get(i, "check not written yet")} for i in ids if i not in claimed]
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the driver in harness/ uses the public API of /repo's crate, derived at build time without the unavailable ruff submodule."}
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = {}

if __name__ == "__main__":
    main()
