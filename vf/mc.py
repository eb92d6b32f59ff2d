"""Exhaustive model checking of the specification itself (no code involved): the loop-level models refine the
declarative operators, and the algebraic guarantees hold of the specification for small constants."""
import json
from core import *

MODESET = '{"zero", "constant", "symmetric", "reflect", "periodic", "smooth", "periodization", "antisymmetric", "antireflect"}'


def cfg(consts=None, inv=(), prop=(), spec="Spec", sub=None, cons=()):
    t = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n"
    if consts or sub:
        t += "CONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in (consts or {}).items()) + "".join(f"  {k} <- {v}\n" for k, v in (sub or {}).items())
    if inv:
        t += "INVARIANTS " + " ".join(inv) + "\n"
    if prop:
        t += "PROPERTIES " + " ".join(prop) + "\n"
    if cons:
        t += "CONSTRAINTS " + " ".join(cons) + "\n"
    return t


def check(chk, module, name, **kw):
    env = kw.pop("env", None)
    timeout = kw.pop("timeout", 700)
    r = tlc(module, cfg_text=cfg(**kw), env=env, timeout=timeout)
    if not r.ok:
        raise MachineryError(f"model {name}: the specification itself fails\n{tlcmsg(r)}")
    chk.add_tlc("model: " + name, r)
    return r


def conv_loops(chk):
    check(chk, "ConvLoops", "decimating loops refine extension+filter", consts=dict(MaxN=pick(6, 9), Fs=pick("{2, 3, 4, 6, 8}", "{1, 2, 3, 4, 5, 6, 8, 10, 14, 20}"),
          ModeSet=MODESET.replace('"periodization", ', ""), Step=2), inv=["InRange", "Refines", "Count"], prop=["Terminates"])


def per_loops(chk):
    check(chk, "MC_PerLoops", "circular loops refine periodic extension", consts=dict(MaxN=pick(8, 16), F0s=pick("{2, 4, 6, 8}", "{2, 4, 6, 8, 10, 12, 16}")),
          sub=dict(Steps="StepSet"), inv=["InRange", "Refines", "Count"], prop=["Terminates"])


def up_loops(chk):
    check(chk, "UpLoops", "synthesis loops refine upsample+filter", consts=dict(MaxN=pick(8, 14), Fs=pick("{2, 4, 6, 8, 10}", "{2, 4, 6, 8, 10, 12, 14, 18, 24}"),
          Kinds='{"full", "valid", "per"}'), inv=["InRange", "Refines"], prop=["Terminates"])


def dwt_model(chk):
    conv_loops(chk)
    per_loops(chk)


def idwt_model(chk):
    up_loops(chk)


def bankfile(banks):
    p = scratch() / "banks.json"
    p.write_text(json.dumps([dict(b.json(), gain=b.gainK, orth=b.orth) for b in banks]))
    return p


def bank_model(chk):
    from calls import PRB
    check(chk, "MC_Bank", "integer banks reconstruct / are orthogonal", consts=dict(MaxN=pick(7, 14), ModeSet=MODESET), inv=["PR", "Energy"],
          env=dict(BANKS=bankfile(PRB)))


def wave_model(chk):
    from calls import PRD
    check(chk, "MC_Wave", "multilevel split/merge machine", consts=dict(MaxN=pick(7, 13), MaxDepth=pick(2, 3), ModeSet=MODESET), inv=["Meets"],
          prop=["MergeRestores", "Lengths", "Superpose"], env=dict(BANKS=bankfile(PRD)))


def pr_model(chk):
    bank_model(chk)


def nd_model(chk):
    from calls import PRD
    check(chk, "MC_NdShapes", "axes in any order", consts=dict(ModeSet=pick('{"symmetric", "periodization"}', '{"zero", "symmetric", "reflect", "periodization", "smooth", "antireflect"}')),
          sub=dict(Shapes=pick("SmallShapes", "LargeShapes")), inv=["OrderFree", "ShapeRule", "Restores"], env=dict(BANKS=bankfile(PRD[:2])))


def pack_model(chk):
    check(chk, "MC_Pack", "packing layout (1-D)", consts=dict(MaxN=pick(14, 40), Fs=pick("{2, 4, 6, 10}", "{2, 4, 6, 8, 10, 14, 20}"), ModeSet='{"symmetric", "periodization"}', MaxLevels=pick(4, 6), Ranks="{1}"),
          inv=["Disjoint", "Within", "Lossless", "TightIff", "VectorLossless", "SizeOK"])
    check(chk, "MC_Pack", "packing layout (2-D)", consts=dict(MaxN=pick(4, 6), Fs=pick("{2, 4}", "{2, 4, 8}"), ModeSet='{"symmetric", "periodization"}', MaxLevels=pick(2, 3), Ranks="{2}"),
          inv=["Disjoint", "Within", "Lossless", "TightIff", "VectorLossless", "SizeOK"])


def fs_model(chk):
    from calls import PRD
    check(chk, "MC_Fs", "fully separable transform, axes in any order", consts=dict(MaxN=pick(3, 5), MaxLevel1=pick(2, 3), ModeSet=pick('{"symmetric", "periodization"}', '{"zero", "symmetric", "smooth", "periodization"}')),
          inv=["OrderFree", "Partition", "Restores", "PutGet"], env=dict(BANKS=bankfile(PRD[:2])))


def swt_model(chk):
    from calls import PRD, PRB
    check(chk, "MC_Swt", "stationary transform beside its shifted copy (dyadic banks)", consts=dict(Ns=pick("{1, 2, 4, 6, 8}", "{1, 2, 3, 4, 6, 8, 12, 16, 24}"), MaxLevel1=pick(2, 3)),
          inv=["Covariant", "SameLength", "ByLevels", "Inverts", "Adds", "EnergyStep"], env=dict(BANKS=bankfile(PRD)))
    check(chk, "MC_Swt", "stationary transform: energy (orthogonal banks)", consts=dict(Ns=pick("{2, 4, 6, 8}", "{2, 4, 6, 8, 12, 16}"), MaxLevel1=1),
          inv=["Covariant", "SameLength", "ByLevels", "EnergyStep"], env=dict(BANKS=bankfile([b for b in PRB if b.orth])))


def mra_model(chk):
    from calls import PRD
    check(chk, "MC_Mra", "components of the DWT add up", consts=dict(MaxN=pick(7, 12), MaxLevel1=2, ModeSet=MODESET), inv=["Adds", "Shapes"], env=dict(BANKS=bankfile(PRD)))


def packet_model(chk):
    from calls import PRD
    inv = ["Closed", "Restores", "PathData", "Listing", "LeafPaths"]
    check(chk, "MC_Packet", "packet trees, short histories (1-D)", consts=dict(KindSet='{"1"}', Lens=pick("{5, 8}", "{4, 5, 7, 8}"), ModeSet=pick('{"symmetric", "periodization"}', '{"zero", "symmetric", "periodic", "smooth", "periodization"}'),
          MaxSteps=pick(3, 3), Depth=2), inv=inv, prop=["ReadOnly"], env=dict(BANKS=bankfile(PRD[:2])))
    check(chk, "MC_Packet", "packet trees, short histories (2-D, n-D)", consts=dict(KindSet='{"2", "n"}', Lens=pick("{3}", "{3, 4}"), ModeSet=pick('{"symmetric"}', '{"symmetric", "periodization"}'),
          MaxSteps=2, Depth=pick(1, 2)), inv=inv, prop=["ReadOnly"], env=dict(BANKS=bankfile(PRD[:1])))


def threshold_tables(chk):
    d = scratch() / "thr"
    d.mkdir(exist_ok=True)
    check(chk, "MC_Threshold", "thresholding formulas", consts=dict(MaxV=pick(10, 17)), inv=["Shrinks", "FirmBetween", "Phase"], env=dict(OUTDIR=d))
    return {k: json.loads((d / f"{k}.json").read_text()) for k in ("real", "cplx", "firm")}


def ext_model(chk):
    check(chk, "MC_Ext", "extension modes obey their defining equations", consts=dict(MaxN=pick(6, 9), Reach=pick(4, 7), ModeSet=MODESET), inv=["Keeps", "Equation", "TwoSteps"])


def cascade_model(chk):
    from calls import PRB
    check(chk, "MC_Cascade", "cascade: kernel order refines two-scale relation", consts=dict(MaxLevel=pick(5, 7)), inv=["Inv"], env=dict(BANKS=bankfile(PRB)))


def contin_model(chk):
    """also delivers the closed forms"""
    p = scratch() / "forms.json"
    check(chk, "MC_Contin", "Gaussian families derived order by order", inv=["Inv"], env=dict(FORMS=p))
    return json.loads(p.read_text())


def cwt_model(chk):
    check(chk, "MC_Cwt", "continuous transform: gather/convolve/difference/trim refines the correlation",
          consts=dict(Ranges="{1, 2, 3, 5}", MaxNum=pick(5, 12), MaxDen=pick(3, 7)), inv=["Inv"], prop=["Ends"])


def domain_model(chk, budget):
    """also delivers the requests, one line each"""
    return check(chk, "MC_Domain", "documented domain of every public call", consts=dict(Budget=budget), inv=["PlainAccepted", "Interchange", "Simpler", "Culprit", "Emit"])


def sizes_model(chk):
    return check(chk, "MC_Sizes", "sizes and depths that fit", consts=dict(MaxN=pick(9, 14), MaxLevel=pick(4, 6), Fs=pick("{2, 4, 8}", "{2, 4, 6, 8, 12}"),
                 ModeSet=pick('{"symmetric", "reflect", "periodization"}', '{"symmetric", "reflect", "periodization", "antireflect", "smooth", "zero"}'),
                 Kinds='{"wavedec", "downcoef", "swt", "waverec", "idwt", "iswt"}'), inv=["Fits", "Settles", "Emit"], prop=["Ends"])


def layout_model(chk):
    return check(chk, "MC_Layout", "memory layouts", consts=dict(MaxRank=3, MaxN=pick(2, 3), Dev=2),
                 inv=["Confluent", "InBounds", "Injective", "RoundTrip", "Emit"])


FORWARD = ["dwt", "dwt2", "dwtn", "downcoef", "wavedec", "wavedec2", "wavedecn", "fswavedecn", "swt", "swt2", "swtn", "mra", "mra2", "mran", "mraswt", "mra2swt", "mranswt",
           "cwt", "pack", "pack2", "packn"]
INVERSE = ["idwt", "upcoef", "idwt2", "idwtn", "waverec", "waverec2", "waverecn", "fswaverecn", "iswt", "iswt2", "iswtn", "packrec", "packrec2", "packrecn"]


def types_model(chk):
    st = lambda l: "{" + ", ".join(f'"{v}"' for v in l) + "}"
    return check(chk, "MC_Types", "precision rules", consts=dict(One=st(["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "float128",
                 "complex64", "complex128", "complex256"]), Two=st(["int32", "float16", "float32", "float64", "float128", "complex64", "complex128", "complex256"]),
                 Forward=st(FORWARD), Backward=st(INVERSE)), inv=["OrderFree", "Settled", "Wide", "Complex", "Emit"])


def history_model(chk, n, faults):
    return check(chk, "MC_History", f"implementations with a memory against histories of {n} events", consts=dict(MaxLen=n, MaxFaults=faults), inv=["Sound", "Emit"])


def signals_model(chk, ask):
    """also delivers the signals at the lengths asked for, the answers to requests, the datasets"""
    p, q = scratch() / "signals.json", scratch() / "ask.ndjson"
    q.write_text("".join(json.dumps(a) + "\n" for a in ask))
    r = check(chk, "MC_Signals", "demo signals at every length", consts=dict(MaxN=pick(300, 1500)), inv=["Inv", "Emit"], env=dict(OUT=p, ASK=q))
    return r, json.loads(p.read_text())


def objects_model(chk):
    return check(chk, "MC_Objects", "designs of copying told by histories", consts=dict(MaxLen=pick(4, 5)), inv=["Sound", "Emit"])


def forest_model(chk):
    return check(chk, "MC_Forest", "designs of copied trees told by histories", consts=dict(MaxLen=pick(4, 5)), inv=["Sound", "Emit"])


def energy_model(chk):
    for depth, rots in pick([(3, 2)], [(4, 1), (3, 2), (2, 3)]):     # products stay within TLC's integers
        check(chk, "MC_Energy", f"leaf sets of orthonormal transforms keep inner products (depth {depth})", consts=dict(Depth=depth, MaxRots=rots),
              sub=dict(Shapes1=pick("Quick", "Deep")), inv=["Kept"])


def threads_model(chk):
    return check(chk, "MC_Threads", "two calls at once", consts=dict(Stages=pick(4, 6), MaxTurns=pick(3, 4)), inv=["Alone", "Emit"])
