"""The upwelling-diffusion model solves its equations"""

import numpy as np
from hypothesis import strategies as st

from pbt import scen
from pbt.core import Sub, close

from . import thermal
from .common import TRIVIAL

TEMPS = [
    "dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea", "dT_NH_sea", "dT_SHsea",
]


def labels(case):
    pams = case["pams"]
    out = [f"shape {case['shape']}", f"ldtime {pams.get('ldtime', 12)}", f"{case['volc_cols']} volcanic values"]
    out += [f"{k} given" for k in ("ebbeta", "ocean_efficacy", "lm", "mixed", "foan") if k in pams]
    if pams.get("threstemp", 7.0) == 0:
        out.append("constant upwelling")
    return out


def check_reference(case):
    forc = thermal.forcing_of(case)
    want = thermal.reference("default", case["pams"], forc)
    if want is None:
        return TRIVIAL
    got = thermal.drive("default", case["pams"], forc)
    for key in TEMPS:
        close(key, got[key], want[key])
    return {
        "nontrivial": case["nyears"] > 1 and np.max(np.abs(want["dT_glob"])) > 0.01,
        "classes": labels(case),
    }


def check_linear(case):
    """Zero forcing, scaled and added forcing with constant upwelling"""
    pams = dict(case["pams"], threstemp=0)
    one = thermal.forcing_of(case, "one")
    two = thermal.forcing_of(dict(case, shape=case["shape2"]), "two")
    if thermal.reference("default", pams, one) is None:
        return TRIVIAL
    fac = case["factor"]
    res_one = thermal.drive("default", pams, one)
    res_two = thermal.drive("default", pams, two)
    both = thermal.drive("default", pams, [a + fac * b for a, b in zip(one, two)])
    zero = thermal.drive("default", case["pams"], [0.0 * a for a in one])
    for key in (*TEMPS, "RIB_glob", "RIB_N", "RIB_S", "OHC700", "OHCTOT"):
        want = res_one[key] + fac * res_two[key]
        scale = max(np.max(np.abs(res_one[key])), np.max(np.abs(fac * res_two[key])))
        close(f"{key} for added forcing", both[key], want, scale=scale)
        close(f"{key} without forcing", zero[key], np.zeros(case["nyears"]))
    return {"nontrivial": abs(fac) > 0.01 and case["nyears"] > 1, "classes": [f"{case['shape']} + {case['shape2']}"]}


@st.composite
def linear_cases(draw):
    case = draw(thermal.histories(max_years=10))
    case["factor"] = draw(scen.fl(-3.0, 3.0))
    case["shape2"] = draw(st.sampled_from(thermal.SHAPES))
    return case


def long_cases():
    return thermal.histories(max_years=150)


PROPERTY = {
    "id": "C17",
    "rule": (
        "The thermal component driven for 1-30 (a few for up to 150) years with drawn hemispheric and "
        "volcanic forcing (random, ramp, step, pulse, constant, walk) and parameters, against a reference "
        "that solves the full matrices; zero, scaled and added forcing against each other. Non-trivial: "
        "warming above 0.01 K over more than a year."
    ),
    "subs": [
        Sub("reference", thermal.histories, check_reference, 700, 30000),
        Sub("long", long_cases, check_reference, 40, 2000),
        Sub("linear", linear_cases, check_linear, 300, 12000),
    ],
}
