"""Symbolic operators emitted by TLC (spec/OpTable.tla) and their application to real filters."""
import json
import numpy as np
from core import *

_T = {}


def key(r):
    return (r["kind"], r.get("mode"), r["N"], r["F"], r.get("s")) + ((r["rn"], r["rd"], r["P"]) if r["kind"] == "cwt" else ())


def load(chk, reqs, name="optables"):
    reqs = [r for r in {key(r): r for r in reqs}.values() if key(r) not in _T]
    if not reqs:
        return
    d = scratch() / f"opt-{len(_T)}"
    d.mkdir()
    (d / "reqs").write_text("\n".join(json.dumps(r) for r in reqs) + "\n")
    r = tlc_or_die("OpTable", env=dict(REQS=d / "reqs", OUTDIR=d))
    chk.add_tlc(name, r)
    for i, q in enumerate(reqs):
        p = d / f"{i + 1}.json"
        if not p.exists():
            raise MachineryError("OpTable did not emit " + str(q))
        t = json.loads(p.read_text())
        p.unlink()
        if q["kind"] == "ana":
            N, F = q["N"], q["F"]
            E = np.zeros((len(t["e"]), N))
            for row, terms in enumerate(t["e"]):
                for k, c in terms:
                    E[row, k] += c
            idx = t["first"] - t["lo"] + 2 * np.arange(t["n"])[:, None] - np.arange(F)[None, :]
            _T[key(q)] = (E, idx)
        elif q["kind"] == "cwt":
            _T[key(q)] = (np.array(t["j"], int), np.array(t["amb"], int), t["off"], t["small"])
        elif q["kind"] in ("syn", "up"):
            M = max((len(p) for p in t["t"]), default=0)
            K = np.zeros((t["n"], M), int)
            J = np.zeros((t["n"], M), int)
            V = np.zeros((t["n"], M))
            for n, ps in enumerate(t["t"]):
                for z, (k, j) in enumerate(ps):
                    K[n, z], J[n, z], V[n, z] = k, j, 1
            _T[key(q)] = (K, J, V)
        else:
            _T[key(q)] = np.array(t["i"])


LD, CLD = np.longdouble, np.clongdouble


def _x(x):
    x = np.asarray(x)
    return x.astype(CLD if x.dtype.kind == "c" else LD)


def ana(mode, N, h, x):
    """(value, magnitude) in extended precision, along the last axis"""
    E, idx = _T[("ana", mode, N, len(h), None)]
    h = np.asarray(h, LD)
    x = _x(x)
    e = x @ E.T.astype(LD)
    a = np.abs(x) @ np.abs(E).T.astype(LD)
    return (e[..., idx] * h).sum(-1), (a[..., idx] * np.abs(h)).sum(-1)


def syn(mode, N, g, c):
    K, J, V = _T[("syn", "periodization" if mode == "periodization" else "x", N, len(g), None)]
    g = np.asarray(g, LD)
    c = _x(c)
    w = g[J] * V
    return (c[..., K] * w).sum(-1), (np.abs(c)[..., K] * np.abs(w)).sum(-1)


def up(N, g, c):
    K, J, V = _T[("up", None, N, len(g), None)]
    g = np.asarray(g, LD)
    c = _x(c)
    w = g[J] * V
    return (c[..., K] * w).sum(-1), (np.abs(c)[..., K] * np.abs(w)).sum(-1)


def swt(N, h, x, s):
    idx = _T[("swt", None, N, len(h), s)]
    h = np.asarray(h, LD)
    x = _x(x)
    return (x[..., idx] * h).sum(-1), (np.abs(x)[..., idx] * np.abs(h)).sum(-1)


def close(got, want, mag, single, F, slack=4.0):
    """elementwise agreement to rounding: |got - want| <= slack * (F + 4) * eps * magnitude"""
    eps = 2.0 ** -23 if single else 2.0 ** -52
    got = np.asarray(got)
    if got.shape != want.shape:
        return False, f"shape {got.shape} != {want.shape}"
    tiny = 1e-30 if single else 1e-280
    err = np.abs(got.astype(CLD) - want)
    tol = slack * (F + 4) * eps * mag + tiny
    bad = ~(err <= tol)
    if bad.any():
        k = int(np.argmax(np.where(bad, err / tol, 0)))
        return False, f"index {np.unravel_index(k, want.shape)} got {got.ravel()[k]!r} want {complex(want.ravel()[k])!r} tol {float(tol.ravel()[k]):.3g}"
    return True, ""
