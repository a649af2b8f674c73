"""The box carbon cycle: fluxes between pools, conservation of carbon"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need, sut

from . import c12
from .common import TRIVIAL, check_years, run_in_domain, scenario_classes

POOLS = {
    "vegetation_carbon": "veg",
    "soil_carbon": "soil",
    "ocean_mixed_layer_carbon": "mixed",
    "ocean_deep_carbon": "deep",
}


def pools(model):
    """Pools of the model, None if it keeps them elsewhere"""
    if not all(hasattr(model, name) for name in POOLS):
        return None
    return {short: float(getattr(model, name)) for name, short in POOLS.items()}


def run_box(case, model, em, temps):
    conc, states = [], []
    for i, val in enumerate(em):
        if temps is None:
            conc.append(sut(model.co2em2conc, case["ny0"] + i, float(val)))
        else:
            conc.append(sut(model.co2em2conc, case["ny0"] + i, float(val), feedback_dict={"dtemp": float(temps[i])}))
        states.append(pools(model))
    return np.array(conc, dtype=float), states


def check_outputs(case, model, conc, temps):
    """Fluxes reported for a pathway are those of the model"""
    years = np.arange(case["ny0"], case["ny0"] + case["nyears"])
    feedback = None if temps is None else {"dtemp": np.array(temps, dtype=float)}
    temps = np.zeros(len(years)) if temps is None else temps
    table = sut(model.get_carbon_cycle_output, years, conc_series=conc.copy(), feedback_dict_series=feedback)
    box = ref.Box(case["carbon"])
    close("years of the outputs", np.asarray(table.index, dtype=float), years)
    for name, flux in (("Net primary production", box.npp_at), ("Ocean carbon flux", box.uptake_at)):
        close(name, table[name].to_numpy(dtype=float), [flux(c, t) for c, t in zip(conc, temps)], atol=1e-8)


def check_component(case):
    from ciceroscm.component_factory_functions import create_carbon_cycle_model

    em, temps = c12.emissions_of(case), c12.temps_of(case)
    box = ref.Box(case["carbon"])
    want, want_states = [], []
    try:
        for i, val in enumerate(em):
            want.append(box.step(val, 0.0 if temps is None else temps[i]))
            want_states.append({k: getattr(box, k) for k in POOLS.values()})
    except (ValueError, OverflowError):
        return TRIVIAL
    want = np.array(want)
    if np.min(want) < 1.0 or np.max(want) > 1e5 or not np.all(np.isfinite(want)):
        return TRIVIAL
    setup = {"idtm": case["idtm"], "nystart": case["ny0"], "nyend": case["ny0"] + case["nyears"] - 1}
    model = sut(create_carbon_cycle_model, "box", setup, dict(case["carbon"]))
    first = pools(model)
    for name in ("concentration", "concentration after a reset"):
        conc, states = run_box(case, model, em, temps)
        close(name, conc, want)
        if first is not None:
            atm = (conc - 278.0) * 2.123
            total = [sum(state.values()) - sum(first.values()) for state in states]
            close("carbon in all pools", atm + total, np.cumsum(em), rtol=1e-9, scale=3600.0 + np.sum(np.abs(em)))
            for short in POOLS.values():
                close(f"pool {short}", [s[short] for s in states], [s[short] for s in want_states], atol=1e-7)
        sut(model.reset_co2_hold)
    check_outputs(case, model, conc, temps)
    # parameters given later replace those given first
    other = sut(create_carbon_cycle_model, "box", setup, dict(case["first"]))
    run_box(case, other, em[:2], temps)
    sut(other.reset_co2_hold, dict({k: ref.BOX_DEFAULTS[k] for k in case["first"]}, **case["carbon"]))
    close("concentration with parameters given later", run_box(case, other, em, temps)[0], want)
    need(len(want) == case["nyears"], "bad case")
    return {
        "nontrivial": case["nyears"] > 2 and np.max(np.abs(want - 278.0)) > 0.5,
        "classes": [f"emissions {case['kind']}", f"temperature {case['temp_kind']}"],
    }


@st.composite
def component_cases(draw):
    case = draw(c12.component_cases(max_years=30))
    case["carbon"] = draw(scen.carbon_pams(model="box"))
    case["first"] = draw(scen.carbon_pams(model="box"))
    if draw(st.integers(0, 5)) == 0:
        # production may stop
        case["carbon"]["land_temp_sensitivity"] = draw(st.floats(8.0, 60.0))
    return case


def check_full(case):
    got = run_in_domain(case, carbon_outputs=False)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    check_years(inp, res)
    conc = res["concentrations"]["CO2"].to_numpy()
    close("CO2 concentration for the temperature of the year before", conc, ref.co2_conc(inp, res["dT_glob"]))
    return {
        "nontrivial": inp.nyears > 3 and np.max(np.abs(conc - conc[0])) > 0.1,
        "classes": scenario_classes(case),
    }


def full_cases():
    return scen.scenario(
        thermal=("twolayer", "default"), carbon=("box",), conc_run=(False,), min_years=2, max_years=20, max_gases=2
    )


PROPERTY = {
    "id": "C16",
    "rule": (
        "The box carbon cycle on its own for 1-150 years of drawn emissions, temperatures and parameters "
        "(also parameters given on reset), with the carbon in all pools counted every year, "
        "fluxes reported for the pathway, and whole runs. "
        "Non-trivial: concentration moves by more than 0.5 (0.1) ppm."
    ),
    "subs": [
        Sub("component", component_cases, check_component, 1500, 60000),
        Sub("run", full_cases, check_full, 300, 10000),
    ],
}
