"""Forcing of short-lived components follows emissions"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close

from .common import TRIVIAL, check_years, conc_of, forc_of, perturbation_of, run_in_domain, scenario_classes


def check(case):
    got = run_in_domain(case, carbon_outputs=False)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    check_years(inp, res)
    conc, forc, pert = conc_of(inp, res), forc_of(inp, res), perturbation_of(inp)
    want = ref.forcing(inp, conc, perturbed=False)
    ozone = ref.trop_o3_conc(inp, conc)
    close("concentration of TROP_O3", res["concentrations"]["TROP_O3"].to_numpy(), ozone)
    # the factor for ozone has the distance of the first year from 30 below it
    loss = 30.0 / max(abs(30.0 - ozone[0]), 1e-9)
    for gas in inp.gas:
        if gas in scen.MAIN or gas in inp.vanilla or gas == "STRAT_O3":
            continue
        rtol = 1e-8 if gas != "TROP_O3" else max(1e-8, 1e-12 * loss)
        scale = max(np.max(np.abs(want[gas])), np.max(np.abs(pert[gas])))
        close(f"forcing of {gas}", forc[gas], want[gas] + pert[gas], rtol=rtol, scale=scale)
    big = max(np.max(np.abs(want[g])) for g in ("SO2", "TROP_O3", "BC", "LANDUSE"))
    return {"nontrivial": inp.nyears > 1 and big > 1e-3, "classes": scenario_classes(case)}


@st.composite
def cases(draw):
    case = draw(scen.scenario(thermal=("twolayer",), conc_run=(False, True), min_years=1, max_years=16, max_gases=2))
    for name in draw(st.lists(st.sampled_from(sorted(scen.EMI_RANGES)), unique=True)):
        case["emi"][name] = draw(scen.fl(-1.0, 1.0))
    if draw(st.integers(0, 2)) == 0:
        case["aero_alpha"] = draw(
            st.dictionaries(
                st.sampled_from(["SO2", "BC", "OC", "NOx", "NH3", "NMVOC", "BMB_AEROS_BC", "BMB_AEROS_OC"]),
                scen.fl(-0.05, 0.05).filter(lambda x: x != 0),
            )
        )
    return case


PROPERTY = {
    "id": "C10",
    "rule": (
        "Scenarios of 1-16 years with drawn emissions, factors in parameters (any sign) and gas table, "
        "and reference years; non-trivial when some of SO2, ozone, BC and land use exceed 0.001 W/m2."
    ),
    "subs": [Sub("forcing", cases, check, 1600, 60000)],
}
