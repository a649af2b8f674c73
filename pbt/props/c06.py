"""Total and hemispheric forcing are the sums over components"""

from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need

from .common import (
    TRIVIAL,
    drive_thermal,
    forc_name,
    forc_of,
    max_forcing,
    run_in_domain,
    scenario_classes,
)


def check(case):
    got = run_in_domain(case, carbon_outputs=False)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    table = res["forcing"]
    names = [c for c in table.columns if c not in ("Year", "Total_forcing")]
    want = sorted(forc_name(g) for g in inp.gas)
    need(sorted(names) == want, f"forcing components {sorted(set(names) ^ set(want))} differ from the gas table")
    forc = forc_of(inp, res)
    one = case["emi"].get("just_one")
    total, thermal = drive_thermal(inp, forc, one)
    scale = max(max(abs(v).max() for v in forc.values()), 1e-3)
    close("total forcing", res["Total_forcing"], total, scale=scale)
    close("total forcing in the table", table["Total_forcing"].to_numpy(), total, scale=scale)
    for key, val in thermal.items():
        close(f"{key} for the forcing of the components", res[key], val)
    return {
        "nontrivial": inp.nyears > 3 and max_forcing(res) > 0.01,
        "classes": scenario_classes(case),
    }


@st.composite
def cases(draw):
    case = draw(scen.scenario(thermal=("default", "default", "twolayer"), carbon=("default", "default", "box"), min_years=1, max_years=14))
    if draw(st.integers(0, 2)) == 0:
        case["emi"]["just_one"] = draw(
            st.sampled_from(["CO2", "CH4", "N2O", "SO2", "SO4_IND", "BC", "OC", "TROP_O3", "STRAT_O3", "STRAT_H2O", "LANDUSE", "OTHER", *case["gases"]])
        )
    if draw(st.integers(0, 3)) == 0:
        case["regional"] = draw(
            st.dictionaries(
                st.sampled_from(["SO2", "BC", "OC"]),
                st.dictionaries(st.sampled_from(["ASIA", "OECD", "X_1"]), scen.fl(-0.02, 0.02).filter(bool), min_size=1),
                min_size=1,
            )
        )
    return case


PROPERTY = {
    "id": "C06",
    "rule": (
        "Scenarios of 1-14 years with all kinds of components, perturbations, a single component in a "
        "third of the cases and regional components in a quarter; the reported components are summed "
        "and weighted again and drive the reference thermal model. Non-trivial: more than 3 years and "
        "more than 0.01 W/m2."
    ),
    "subs": [Sub("sums", cases, check, 1100, 40000)],
}
