"""Concentrations of other gases follow a one-box decay"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close

from .common import TRIVIAL, check_years, conc_of, forc_of, perturbation_of, run_in_domain, scenario_classes


def check(case):
    got = run_in_domain(case, carbon_outputs=False)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    check_years(inp, res)
    conc, forc, pert = conc_of(inp, res), forc_of(inp, res), perturbation_of(inp)
    for gas in [*inp.vanilla, "CH4", "N2O"]:
        close(f"concentration of {gas}", conc[gas], ref.gas_conc(inp, gas))
    if inp.conc_run:
        close("concentration of CO2", conc["CO2"], inp.win("conc_in", "CO2"), rtol=1e-12)
    for gas in inp.vanilla:
        row = inp.gas[gas]
        want = row["ALPHA"] * row["SARF_TO_ERF"] * (conc[gas] - conc[gas][0]) + pert[gas]
        close(
            f"forcing of {gas}",
            forc[gas],
            want,
            scale=max(np.max(np.abs(want)), row["ALPHA"] * np.max(np.abs(conc[gas]))),
        )
    calculated = not inp.conc_run and case["em_off"] < inp.nyears
    return {"nontrivial": calculated and inp.nyears > 1, "classes": scenario_classes(case)}


@st.composite
def cases(draw):
    case = draw(
        scen.scenario(thermal=("twolayer",), conc_run=(False, False, False, True), min_years=1, max_years=20, max_gases=10)
    )
    case["made"] = draw(st.lists(scen.made_gas_specs(), max_size=2))
    case["emi"]["lifetime_mode"] = draw(st.sampled_from(["TAR", "TAR", "WIGLEY", "CONSTANT_12", "CONSTANT"]))
    return case


PROPERTY = {
    "id": "C09",
    "rule": (
        "Scenarios of 1-20 years with up to 12 simple gases, all lifetime modes and starts of emissions; "
        "non-trivial when concentrations are calculated in at least one year."
    ),
    "subs": [Sub("gases", cases, check, 1800, 70000)],
}
