"""CO2, CH4 and N2O forcing follow their concentrations"""

from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need

from .common import TRIVIAL, check_years, conc_of, forc_of, perturbation_of, run_in_domain


def check(case):
    got = run_in_domain(case, carbon_outputs=False)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    check_years(inp, res)
    conc, forc, pert = conc_of(inp, res), forc_of(inp, res), perturbation_of(inp)
    want = ref.three_main_forcing(inp, conc)
    for gas in scen.MAIN:
        close(f"forcing of {gas}", forc[gas], want[gas] + pert[gas])
        need(abs(forc[gas][0] - pert[gas][0]) < 1e-12, f"forcing of {gas} in the first year")
    spread = max(abs(conc["CO2"] / conc["CO2"][0] - 1.0))
    return {
        "nontrivial": inp.nyears > 1 and spread > 0.01,
        "classes": [
            "concentration run" if inp.conc_run else "emission run",
            "CO2 below start" if min(conc["CO2"]) < conc["CO2"][0] else "CO2 not below start",
            "CO2 tripled" if max(conc["CO2"]) > 3 * conc["CO2"][0] else "CO2 not tripled",
        ],
    }


@st.composite
def cases(draw):
    case = draw(
        scen.scenario(thermal=("twolayer", "twolayer", "default"), conc_run=(True, True, False), min_years=1, max_years=16, max_gases=2)
    )
    case["main_wide"] = case["conc_run"] and draw(st.booleans())
    return case


PROPERTY = {
    "id": "C08",
    "rule": (
        "Concentration and emission runs, in a third with concentrations drawn from 150-2500 ppm, "
        "300-6000 ppb and 180-700 ppb for every year on its own; non-trivial when CO2 changes by more "
        "than a percent."
    ),
    "subs": [Sub("forcing", cases, check, 1600, 60000)],
}
