"""Writes known_findings.txt from the fix: commits of /repo (run when one is added)."""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = {  # words of the subject -> properties
    "ends inside a coefficient block": "C12", "beta coefficients directly": "C07", "exponents in a .pun": "C07",
    "at most five basis": "C08", "truncated overlap matrix": "C12", "exponents in the overlap": "C08",
    "without overlap matrix": "C13", "truncated within the orbital populations": "C12", "delete instead": "C20",
    "copies of a Matrix": "C20", "round to zero from below": "C23", "set_rows, set_cols": "C20", "set_col, and": "C20",
    "rows and columns outside": "C21", "getCol returned": "C25", "printing a Matrix": "C20", "could not be lined up": "C14",
    "more than one dot": "C07", ".7 and .orb files": "C07", "value given to a switch": "C18", "switch given without": "C18",
    "-v did not": "C17", "double argument twice": "C18", "single string choice": "C19", "FILE_DOES_EXIST": "C19",
    "path with spaces": "C16", "elements of an empty Matrix": "C21", "end of a coordinate line": "C12",
    "orbitals missing in the .log": "C14", "header of the orbital energies": "C13", "function labels": "C11",
    "without an abbreviation": "C18", "STRING_CHOICE_ENFORCED": "C19", "of an earlier table": "C11",
    "whose reading had failed": "C32", "citation switch of new": "C34",
    "did not know arguments of type double": "C18", "rules that are set through an argument": "C35",
    "right below the overlap matrix": "C27", "placeholder of a missing": "C18", "rounding border": "C23", "sections that it no longer": "C32"}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, _, s = l.partition(" ")
    if s.startswith("fix: "):
        m = [v for k, v in BY.items() if k in s]
        if len(m) == 1:
            out.append("fixed: property=%s %s %s" % (m[0], h, s[5:]))
        else:
            print("unassigned:", l)
with open(os.path.join(ROOT, "known_findings.txt"), "w") as f:
    f.write("\n".join(out) + "\n")
print(len(out), "fixed")
