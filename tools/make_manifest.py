"""Writes MANIFEST.json from the list of properties."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitor at the EOS boundary; independent scalar Wright/linear formulas and exact-arithmetic derivatives as oracle",
    "C02": "runtime monitor; pointwise label-aligned oracle for gridded density, alpha, beta, pdens",
    "C03": "runtime monitor; hydrostatic identity checked on every observed result",
    "C04": "runtime monitor; independent column-integral oracle over observed steric results",
    "C05": "runtime monitor; independent mean-density oracle over observed global steric results",
    "C06": "runtime monitor; metamorphic checks between observed variants (invariance to the fixed field)",
    "C07": "runtime monitor; reference-state invariants recomputed from the input",
    "C08": "runtime monitor of pairs of executions: whole against pieces, in every dimension",
    "C09": "runtime monitor; conservation checks on layer thicknesses",
    "C10": "runtime monitor; independent formulas for stratification diagnostics",
    "C11": "runtime monitor; independent staggered-difference oracle",
    "C12": "runtime monitor; independent polynomial oracle",
    "C13": "runtime monitor; independent calendar arithmetic oracle",
    "C14": "runtime monitor; sample-membership oracle with independent calendar arithmetic",
    "C15": "runtime monitor; independent least-squares oracle",
    "C16": "runtime monitor; exact rational conversion oracle and cross-unit line comparison",
    "C17": "runtime monitor; independent normal-equation oracle for trend plus harmonics",
    "C18": "runtime monitor; brute-force great-circle oracle",
    "C19": "runtime monitor; brute-force nearest wet cell oracle",
    "C20": "runtime monitor; spherical-area conservation and tiling checks",
    "C21": "runtime monitor; independent acceptance predicate compared with observed accept/reject",
    "C22": "runtime monitor; deep fingerprints of all arguments around each call",
    "C23": "runtime monitor under randomised task orders, schedulers, chunkings and injected chunk faults",
    "C24": "runtime monitor of pairs of executions: permuted, shuffled and renamed inputs",
    "C25": "runtime monitor of histories and threads with injected delays against pristine-process baselines; process-state snapshots",
    "C26": "runtime monitor; generator outputs compared across calls and with independent calendar arithmetic",
    "C27": "runtime monitor; files written from observed results read back and compared",
    "C28": "runtime monitor; result attributes against a transcription of the documented table",
    "C29": "runtime monitor; before/after comparison of utilities against their documented effect",
    "C30": "runtime monitor; recorded warnings and text output against an independent list of what is due",
    "C31": "runtime monitor; exactly rounded sums and partition checks over observed totals",
    "C32": "runtime monitor of pairs of executions: the same call written in different documented ways",
    "C33": "runtime monitor of related executions: superposition, scaling, projection and composition laws",
    "C34": "runtime monitor under an interpreter audit hook: effects on files, processes, sockets and streams; environment changed between executions",
    "C35": "runtime monitor of chunk loads: which parts of lazy inputs a call and a partial computation touch",
}
NOTE = (
    "Every call into momlevel made by the workload is observed and its outcome compared with the oracle; nothing is claimed about inputs not generated. "
    "Deterministic for a given VERIF_SEED. Trusts numpy, xarray, dask, pandas and the oracle in /verif."
)
LEVEL = {"C23": "exploration", "C25": "exploration"}

if __name__ == "__main__":
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import numpy, xarray, dask, pandas, netCDF4, sklearn, scipy, cftime, xgcm' && mkdir -p evidence",
        "checks": [
            {
                "property": i,
                "quick_cmd": f"./check {i} --tier quick",
                "thorough_cmd": f"./check {i} --tier thorough",
                "technique": TECH[i],
                "level": LEVEL.get(i, "exploration"),
                "level_note": NOTE,
            }
            for i in ids
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo: the monitors wrap public calls from outside and use sys.monitoring on momlevel's code objects.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
