"""The two-layer model solves its equations and conserves energy"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close

from . import thermal
from .common import TRIVIAL, drive_thermal, forc_of, run_in_domain, scenario_classes

TO_OHC = ref.YEAR_S * 3.61e14 / 1e22  # from W/m2 over a year to 10^22 J


def labels(case):
    out = [f"shape {case['shape']}", f"{case['volc_cols']} volcanic values"]
    out += [f"{k} given" for k in sorted(case["pams"])]
    mixed = case["pams"].get("mixed", 50)
    deep = case["pams"].get("deep", 1200)
    out.append("mixed layer below 700 m" if mixed >= 700 else "all above 700 m" if mixed + deep <= 700 else "700 m in the deep layer")
    return out


def invariants(pams, forc, res):
    """Relations that hold whatever the numbers are"""
    p = {**ref.TWO_DEFAULTS, **pams}
    glob = 0.5 * (forc[0] + forc[1]) + 0.5 * (np.mean(forc[2], axis=1) + np.mean(forc[3], axis=1))
    scale = np.max(np.abs(res["OHC_MIXED"])) + np.max(np.abs(res["OHC_DEEP"]))
    close("OHCTOT is the sum of the layers", res["OHCTOT"], res["OHC_MIXED"] + res["OHC_DEEP"], scale=scale)
    if p["mixed"] + p["deep"] <= 700.0:
        close("OHC700 of a shallow ocean", res["OHC700"], res["OHCTOT"], scale=scale)
    close("OHC_MIXED from dT_fast", res["OHC_MIXED"], res["dT_fast"] * p["mixed"] * 4.184e6 * 3.61e14 / 1e22)
    close("OHC_DEEP from dT_slow", res["OHC_DEEP"], res["dT_slow"] * p["deep"] * 4.184e6 * 3.61e14 / 1e22)
    if p["ocean_efficacy"] == 1 and p["delta_lambda_aero"] == 0:
        before = np.concatenate([[0.0], res["dT_fast"][:-1]])
        gain = (glob - p["lambda"] * before) * TO_OHC
        size = np.max(np.abs(glob)) * TO_OHC + p["lambda"] * np.max(np.abs(before)) * TO_OHC
        close("energy conservation", np.diff(res["OHCTOT"], prepend=0.0), gain, scale=size + scale)
        close("imbalance", res["RIB_glob"], glob - p["lambda"] * res["dT_fast"], scale=size / TO_OHC)
        return True
    return False


def check_component(case):
    forc = thermal.forcing_of(case)
    pams = case["pams"]
    want = thermal.reference("twolayer", pams, forc)
    if want is None:
        return TRIVIAL
    got = thermal.drive("twolayer", pams, forc)
    for key in ref.TWO_OUT:
        close(key, got[key], want[key])
    closed = invariants(pams, forc, got)
    return {
        "nontrivial": case["nyears"] > 1 and np.max(np.abs(want["dT_glob"])) > 0.01,
        "classes": labels(case) + (["energy balance checked"] if closed else []),
    }


def check_linear(case):
    """Zero, scaled and added forcing; exchange of the hemispheres"""
    pams = case["pams"]
    one = thermal.forcing_of(case, "one")
    two = thermal.forcing_of(dict(case, shape=case["shape2"]), "two")
    if thermal.reference("twolayer", pams, one) is None:
        return TRIVIAL
    fac = case["factor"]
    res_one = thermal.drive("twolayer", pams, one)
    res_two = thermal.drive("twolayer", pams, two)
    both = thermal.drive("twolayer", pams, [a + fac * b for a, b in zip(one, two)])
    zero = thermal.drive("twolayer", pams, [0.0 * a for a in one])
    turned = thermal.drive("twolayer", pams, [one[1], one[0], one[3], one[2]])
    for key in ref.TWO_OUT:
        want = res_one[key] + fac * res_two[key]
        scale = max(np.max(np.abs(res_one[key])), np.max(np.abs(fac * res_two[key])))
        close(f"{key} for added forcing", both[key], want, scale=scale)
        close(f"{key} without forcing", zero[key], np.zeros(case["nyears"]))
        close(f"{key} for exchanged hemispheres", turned[key], res_one[key])
    return {"nontrivial": abs(fac) > 0.01 and case["nyears"] > 1, "classes": [f"{case['shape']} + {case['shape2']}"]}


def check_run(case):
    got = run_in_domain(case, carbon_outputs=False)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    forc = forc_of(inp, res)
    _, want = drive_thermal(inp, forc, case["emi"].get("just_one"))
    for key in ref.TWO_OUT:
        close(f"{key} for the forcing of the components", res[key], want[key])
    _, north, south = ref.total_and_hemispheres(inp, forc, case["emi"].get("just_one"))
    closed = invariants(case["udm"], (north, south, inp.volc_n, inp.volc_s), res)
    return {
        "nontrivial": inp.nyears > 2 and np.max(np.abs(res["dT_glob"])) > 0.01,
        "classes": scenario_classes(case) + (["energy balance checked"] if closed else []),
    }


def histories():
    return thermal.histories(model="twolayer", max_years=80)


@st.composite
def linear_cases(draw):
    case = draw(thermal.histories(model="twolayer", max_years=15))
    case["factor"] = draw(scen.fl(-3.0, 3.0))
    case["shape2"] = draw(st.sampled_from(thermal.SHAPES))
    return case


def run_cases():
    return scen.scenario(thermal=("twolayer",), min_years=1, max_years=15, max_gases=2)


PROPERTY = {
    "id": "C19",
    "rule": (
        "The component driven for 1-80 years with drawn hemispheric and volcanic forcing and parameters, and "
        "whole runs, against a reference; the energy balance of every year from the outputs; zero, scaled, "
        "added and exchanged forcing. Non-trivial: warming above 0.01 K over more than a year."
    ),
    "subs": [
        Sub("component", histories, check_component, 1500, 60000),
        Sub("linear", linear_cases, check_linear, 400, 20000),
        Sub("run", run_cases, check_run, 250, 8000),
    ],
}
