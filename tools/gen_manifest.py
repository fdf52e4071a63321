"""Writes MANIFEST.json from the checks present in tk/checks and the properties."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]

NA = {
    "C31": "Monotone decrease of the loss is a property of runtime values along a whole run in floating point; the structural part (each update is the exact minimiser given the others) is decided by C14, C15 and C16, but no static argument here bounds rounding or degenerate updates.",
    "C32": "Recovery depends on convergence of a non-convex iteration from a random start for particular data; no static argument about the source decides it.",
    "C33": "Rounding error depends on the floating-point values and the BLAS/LAPACK in use; the analysis works over the reals.",
    "C34": "Surviving power loss depends on the HDF5 library, the operating system and the disk; the repository's source contains nothing that decides it.",
    "C35": "The distribution of generated numbers is NumPy's; that the documented generator is called with the right shape is decided within C22 and C24.",
}
TECH = {
    "default": "whole-program abstract interpretation of the source with symbolic arrays (value numbering to a normal form), compared with a specification formula",
    "C12": "abstract interpretation over a model of HDF5 files, following every exceptional path on which a write operation fails",
    "C21": "alias and effect analysis: abstract interpretation tracking writes to caller-owned storage",
    "C22": "effect analysis over the call graph: global-state writes and sources of randomness reached by abstract interpretation",
    "C25": "name, attribute, signature and definite-assignment resolution over all functions by abstract interpretation and syntax-tree analysis",
    "C10": "abstract interpretation over a model of HDF5 files (value numbering of stored and loaded arrays)",
    "C11": "abstract interpretation over a model of HDF5 files and unrolled iteration schedules",
    "C20": "abstract interpretation over a model of HDF5 files and unrolled iteration schedules",
}
NOTE = ("Decides the property for symbolic sizes and entries over the orders, slice counts and option combinations its scenarios "
        "enumerate (see evidence); real arithmetic; trusts the interpreter in tk/ and its models of NumPy, SciPy and h5py. "
        "Undecided obligations are reported as such and never as violations.")


def main():
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(VERIF, "tk", "checks", i.lower() + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": "python3 -m tk.run %s" % i,
                "thorough_cmd": "python3 -m tk.run %s --thorough" % i,
                "technique": TECH.get(i, TECH["default"]),
                "level": "other",
                "level_note": NOTE,
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "No check for this property has been built yet.")})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q tk", "checks": checks, "not_applicable": na}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
