"""Eigen's evaluation kernels carry no information for the analyses (Eigen
operations are interpreted by their meaning, not by their implementation), but
instantiating them dominates the front end's time.  This builds a clang VFS
overlay in which the bodies of a few internal kernel functions are empty.  All
interfaces and types are untouched.  If the installed Eigen looks different,
the file is simply left alone."""
import os, re, json

ROOT = "/usr/include/eigen3/Eigen/src/"
TARGETS = {
    "Core/AssignEvaluator.h": ["call_assignment", "call_assignment_no_alias",
                               "call_assignment_no_alias_no_transpose",
                               "call_dense_assignment_loop", "resize_if_allowed"],
    "Cholesky/LDLT.h": ["unblocked"],
    "QR/HouseholderQR.h": ["computeInPlace", "_solve_impl"],
    "Core/TriangularMatrix.h": ["_solve_impl"],
    "Core/SolveTriangular.h": ["solveInPlace"],
}


def strip_bodies(text, names):
    out, i = [], 0
    pat = re.compile(r"\b(%s)\s*\(" % "|".join(names))
    while True:
        m = pat.search(text, i)
        if not m:
            break
        # match the parameter list
        j, d = m.end(), 1
        while d and j < len(text):
            d += {"(": 1, ")": -1}.get(text[j], 0)
            j += 1
        k = j
        m2 = re.match(r"\s*(const)?\s*\{", text[k:])
        if not m2 or text[max(0, m.start() - 12):m.start()].rstrip().endswith(("return", ".", ">")):
            out.append(text[i:j])
            i = j
            continue
        b = k + m2.end()
        e, d = b, 1
        while d and e < len(text):
            d += {"{": 1, "}": -1}.get(text[e], 0)
            e += 1
        out.append(text[i:b])
        out.append("}")
        i = e
    out.append(text[i:])
    return "".join(out)


# Units that do not analyse the factorisations skip their bodies (they are
# analysed in the unit `linalg`).
SOLVER = {
    "include/proxsuite-nlp/linalg/block-ldlt.hxx": ["compute", "solveInPlace", "analyzePattern", "ldlt_in_place_impl"],
    "include/proxsuite-nlp/linalg/block-ldlt.hpp": ["ldlt_in_place_impl", "ldlt_in_place_unblocked", "compute"],
    "include/proxsuite-nlp/linalg/gemmt.hpp": ["fn", "gemmt"],
    "include/proxsuite-nlp/linalg/bunchkaufman.hpp": ["bunch_kaufman_in_place", "compute"],
    "include/proxsuite-nlp/linalg/dense.hpp": ["compute", "solveInPlace", "dense_ldlt_in_place"],
}


def make(tmpdir, repo=None):
    roots = []
    todo = [(ROOT + f, names) for f, names in TARGETS.items()]
    if repo:
        todo += [(os.path.join(repo, f), names) for f, names in SOLVER.items()]
    for p, names in todo:
        try:
            t = open(p).read()
        except OSError:
            continue
        q = os.path.join(tmpdir, p.replace("/", "_"))
        open(q, "w").write(strip_bodies(t, names))
        roots.append({"name": p, "type": "file", "external-contents": q})
    y = os.path.join(tmpdir, "overlay.yaml")
    json.dump({"version": 0, "case-sensitive": True, "use-external-names": False, "roots": roots}, open(y, "w"))
    return y
