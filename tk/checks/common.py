"""Pieces shared by the scenarios."""
from tk import expr as X

IMPORTS = """
import numpy as np
import h5py
from tenkit import base, metrics, utils
from tenkit.decomposition import decompositions
from tenkit.decomposition.decompositions import KruskalTensor, EvolvingTensor, Parafac2Tensor
"""
L = "ijklmn"


def commas(t, n):
    return ", ".join(t % k for k in range(n))


def factors(lab, n, p="U", d="d", rank="R", origin=None):
    """Symbolic factor matrices <p>0.. of sizes <d>k x R."""
    R = lab.dims(rank) if isinstance(rank, str) else X.lift(rank)
    ds = [lab.dims("%s%d" % (d, i)) for i in range(n)]
    for i in range(n):
        lab.tensor("%s%d" % (p, i), ds[i], R, origin=origin and "%s%d" % (origin, i))
    return R, ds


def kruskal_einsum(n):
    return "r," + ",".join(L[i] + "r" for i in range(n)) + "->" + L[:n]


def kruskal_value(n, p="U", w="w"):
    """Driver expression for the weighted sum of rank-one terms."""
    return "np.einsum('%s', %s, %s)" % (kruskal_einsum(n), w, commas(p + "%d", n))


def evolving(lab, K, regular=False, parafac2=False, suffix="", rank="R", sizes=None):
    """A, B_k (or P_k, H) and C of an evolving decomposition with K slices."""
    R = lab.dims(rank) if isinstance(rank, str) else X.lift(rank)
    I = lab.dims("I")
    lab.tensor("A" + suffix, I, R)
    lab.tensor("C" + suffix, K, R)
    js = []
    for k in range(K):
        js.append(lab.dims("J") if regular else lab.dims("J%d" % k))
    if regular:
        for k in range(K):
            lab.define("J%d" % k, lab.it.val(js[k], "i"))
    if parafac2:
        lab.tensor("H" + suffix, R, R)
        for k in range(K):
            lab.tensor("P%s%d" % (suffix, k), js[k], R)
    else:
        for k in range(K):
            lab.tensor("B%s%d" % (suffix, k), js[k], R)
    return R, I, js
