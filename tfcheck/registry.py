"""Property id -> check function, coverage floor and rule text."""
from . import p_effects as E

PROPS = {}


def reg(pid, fn, floor, rule, assumptions=None):
    PROPS[pid] = {"fn": fn, "floor": floor, "rule": rule, "assumptions": assumptions or []}


reg("C01", E.c01, 200, "effect+alias analysis")
reg("C02", E.c02, 200, "snapshot comparison of abstract object state around plot()")
reg("C03", E.c03, 50, "value-graph equality of repeated run()")
reg("C04", E.c04, 200, "randomness taint")
reg("C05", E.c05, 200, "persistent-state effects")
reg("C20", E.c20, 200, "name resolution")
from . import p_shapes as S
reg("C09", S.c09, 200, "shape inference")
reg("C10", S.c10, 100, "shape inference")
from . import p_defs as F
reg("C16", F.c16, 100, "forms")
reg("C26", F.c26, 100, "forms")
reg("C27", F.c27, 100, "forms")
reg("C28", F.c28, 50, "forms")
from . import p_gens as GN
reg("C13", GN.c13, 100, "forms")
reg("C14", GN.c14, 100, "forms")
reg("C29", GN.c29, 100, "forms")
reg("C30", GN.c30, 100, "forms")
from . import p_desc as DS
reg("C31", DS.c31, 50, "forms")
reg("C32", DS.c32, 50, "forms")
reg("C33", DS.c33, 50, "forms")
from . import p_reas as RE
reg("C17", RE.c17, 50, "forms")
from . import p_axes as AX
reg("C24", AX.c24, 200, "forms")
from . import p_affine as AF
reg("C34", AF.c34, 10, "forms")
reg("C35", AF.c35, 10, "forms")
reg("C36", AF.c36, 4, "forms")
from . import p_domain as DM
reg("C18", DM.c18, 200, "guards")
from . import p_misc as MI
reg("C37", MI.c37, 20, "forms")
from . import p_noise as NZ
reg("C38", NZ.c38, 20, "forms")
from . import p_mellin as ML
reg("C40", ML.c40, 20, "forms")
from . import p_total as TT
reg("C21", TT.c21, 200, "operations that can fail")
from . import p_ridges as RG
reg("C41", RG.c41, 100, "comparison classes")
from . import p_plot as PL
reg("C42", PL.c42, 200, "drawing calls")
from . import p_args as AR
reg("C39", AR.c39, 200, "argument dependence")
