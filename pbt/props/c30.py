"""The coupled model against an independent reference model"""

from hypothesis import strategies as st

from pbt import scen
from pbt.core import Sub

from .common import TRIVIAL, compare_full, max_forcing, run_in_domain, scenario_classes


def check(case):
    got = run_in_domain(case)
    if got is None:
        return TRIVIAL
    inp, res, expected = got
    compare_full(inp, res, expected)
    return {
        "nontrivial": inp.nyears > 3 and max_forcing(res) > 0.01,
        "classes": scenario_classes(case),
    }


@st.composite
def long_scenario(draw):
    """Windows as they are used in practice: start before 1900, at least 100 years"""
    case = draw(scen.scenario(min_years=100, max_years=260, max_gases=12))
    case["ny0"] = draw(st.sampled_from([1750, 1751, 1800, 1850, 1900]))
    case["em_off"] = draw(st.sampled_from([0, 1, 50, 100]))
    case["em_amp"] = min(case["em_amp"], 0.05)
    case["co2_scale"] = draw(st.sampled_from([1.0, 1.0, 2.0]))
    case["co2_off"] = draw(st.sampled_from([0.0, 0.0, -1.0]))
    case["idtm"] = draw(st.sampled_from([24, 12, 6]))
    return case


PROPERTY = {
    "id": "C30",
    "rule": (
        "A scenario (years, gas table, emissions, concentrations, natural emissions, land use, "
        "solar and volcanic forcing, perturbations, thermal and carbon model, parameters) is "
        "drawn and run; it counts as non-trivial when the run has more than 3 years, stays in "
        "the valid domain and its total forcing exceeds 0.01 W/m2 somewhere."
    ),
    "subs": [
        Sub("coupled", lambda: scen.scenario(min_years=1), check, 1600, 60000),
        Sub("long", long_scenario, check, 48, 2000),
    ],
}
