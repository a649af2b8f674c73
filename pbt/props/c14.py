"""Emissions calculated back from concentrations reproduce them"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, identical, need, sut

from . import c12
from .common import TRIVIAL, run_in_domain, scenario_classes

TOL = 1.2e-7  # the search stops at 1e-7 of the concentration


def again(pams, idtm, co2_0, em, temps):
    """Concentrations of the reference for emissions that were calculated back"""
    cyc = ref.Carbon(pams, idtm, len(em), co2_0)
    return np.array([cyc.step(e, t) for e, t in zip(em, temps)])


def reproduces(name, got, want):
    need(got.shape == want.shape, f"{name}: {got.shape} values instead of {want.shape}")
    err = np.abs(got - want) / want
    bad = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
    need(
        err[bad] <= TOL,
        f"{name}: emissions for year {bad} give {got[bad]!r} ppm instead of {want[bad]!r}",
    )


def solve(case, conc, temps):
    """
    Emissions for the pathway found with the reference, None if there are none that
    are unique and of reasonable size, or the pathway is numerically unstable
    """
    cyc = ref.Carbon(case["carbon"], case["idtm"], len(conc), case["co2_0"])
    res, prev = [], case["co2_0"]
    for want, temp in zip(conc, temps):
        state = cyc.state()

        def miss(em):
            cyc.set_state(state)
            return cyc.step(em, temp) - want

        try:
            old, new = (want - prev) * 2.123 + 0.5, (want - prev) * 2.123 * 1.3 + 4.0
            f_old, f_new = miss(old), miss(new)
            for _ in range(40):
                if abs(f_new) < 1e-9 * want:
                    break
                old, f_old, new = new, f_new, new - f_new * (new - old) / (f_new - f_old)
                f_new = miss(new)
            if not abs(f_new) < 1e-9 * want or abs(new) > 3000.0:
                return None
            grid = [miss(new + d) for d in (-50.0, -5.0, -0.5, 0.5, 5.0, 50.0)]
            miss(new)
        except (ValueError, OverflowError, ZeroDivisionError):
            return None
        if not np.all(np.diff(grid) > 0.0) or not grid[2] < 0.0 < grid[3]:
            return None
        res.append(new)
        prev = want
    em = np.array(res)
    # no growth of small disturbances
    cyc = ref.Carbon(case["carbon"], case["idtm"], len(conc), case["co2_0"])
    rng = scen.rng_for(case["seed"], "wiggle")
    for want, temp, val in zip(conc, temps, em):
        got = cyc.step(val, temp)
        if not abs(got - want) < 1e-6 * want:
            return None
        noise = rng.uniform(-1e-9, 1e-9, 2)
        cyc.pco2 += noise[0] * cyc.conc
        cyc.conc *= 1.0 + noise[1]
    return em


def pathway(case):
    """Concentrations, temperatures and, where known, the emissions behind them"""
    temps = c12.temps_of(case)
    temps = np.zeros(case["nyears"]) if temps is None else temps
    if case["path"] == "emissions":
        out = c12.reference(case)
        if out is None or not c12.well_behaved(case, out[1]):
            return None
        return out[1], temps, c12.emissions_of(case)
    num, rng = case["nyears"], scen.rng_for(case["seed"], "path")
    years = np.arange(num)
    if case["path"] == "percent":
        conc = case["co2_0"] * (1.0 + case["rate"] / 100.0) ** years
    elif case["path"] == "up and down":
        conc = case["co2_0"] * (1.0 + abs(case["rate"]) / 100.0) ** np.minimum(years, num - years)
    elif case["path"] == "abrupt":
        conc = np.where(years > case["at"] % num, case["co2_0"] * (1.0 + 0.3 * abs(case["rate"])), case["co2_0"])
    else:
        conc = case["co2_0"] + case["rate"] * np.cumsum(rng.uniform(-1, 1, num))
    if np.min(conc) < 100.0 or np.max(conc) > 1500.0:
        return None
    em = solve(case, conc, temps)
    return None if em is None else (conc, temps, em)


def check_component(case):
    path = pathway(case)
    if path is None:
        return TRIVIAL
    conc, temps, _ = path
    model = c12.make_model(case, case["carbon"])
    feedback = None if case["temp_kind"] == "none" else {"dtemp": temps.copy()}
    given = conc.copy()
    got = np.asarray(sut(model.back_calculate_emissions, given, feedback_dict_series=feedback), dtype=float)
    need(np.array_equal(given, conc), "the given concentrations were changed")
    reproduces("reference", again(case["carbon"], case["idtm"], case["co2_0"], got, temps), conc)
    sut(model.reset_co2_hold)
    reproduces("the model itself", c12.forward(model, case, got, temps), conc)
    # the same again, after other runs with the same object
    if case["again"]:
        sut(model.reset_co2_hold)
        second = sut(model.back_calculate_emissions, conc, feedback_dict_series=feedback)
        identical("emissions calculated back again", second, got)
    labels = [f"path {case['path']}", f"idtm {case['idtm']}", f"temperature {case['temp_kind']}"]
    return {
        "nontrivial": case["nyears"] > 2 and np.max(np.abs(np.diff(conc))) > 0.05,
        "classes": labels,
    }


@st.composite
def component_cases(draw):
    case = draw(c12.component_cases(max_years=14))
    case["nyears"] = min(case["nyears"], 20)
    case["path"] = draw(st.sampled_from(["emissions", "emissions", "percent", "up and down", "abrupt", "walk"]))
    case["rate"] = draw(scen.fl(-3.0, 3.0))
    if case["path"] != "emissions":
        case["idtm"] = max(case["idtm"], 6)
        case["co2_0"] = max(case["co2_0"], 250.0)
        case["temp"] = max(min(case["temp"], 8.0), -3.0)
    return case


def check_run(case):
    got = run_in_domain(case, carbon_outputs=True)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    conc = res["concentrations"]["CO2"].to_numpy()
    table = res["carbon cycle"]
    em = table["Emissions"].to_numpy()
    if solve(dict(case, co2_0=inp.cin("CO2", inp.ny0)), inp.win("conc_in", "CO2"), res["dT_glob"]) is None:
        return TRIVIAL
    back = again(case["carbon"], case["idtm"], inp.cin("CO2", inp.ny0), em, res["dT_glob"])
    reproduces("run", back, conc)
    # everything else is as in a run that does not calculate emissions back
    _, other = scen.run_model(case, carbon_outputs=False)
    need("carbon cycle" not in other, "carbon cycle results that were not asked for")
    need(set(res) == set(other) | {"carbon cycle"}, "other results when carbon cycle is asked for")
    for key, val in other.items():
        if isinstance(val, np.ndarray):
            identical(key, res[key], val)
        else:
            for col in val.columns:
                identical(f"{key} {col}", res[key][col].to_numpy(), val[col].to_numpy())
    close("concentrations", conc, inp.win("conc_in", "CO2"))
    return {
        "nontrivial": inp.nyears > 2 and np.max(np.abs(np.diff(conc))) > 0.05,
        "classes": scenario_classes(case),
    }


@st.composite
def run_cases(draw):
    case = draw(
        scen.scenario(
            thermal=("twolayer", "default"), carbon=("default",), conc_run=(True,), min_years=1, max_years=12,
            max_gases=1, emi=False, perturb=False,
        )
    )
    case["conc_amp"] = draw(st.sampled_from([0.0, 0.003, 0.01, 0.02]))
    case["idtm"] = max(case["idtm"], 6)
    return case


PROPERTY = {
    "id": "C14",
    "rule": (
        "Concentration pathways of 1-20 years made with the reference from drawn emissions, or exponential, "
        "abrupt, up and down and random walks, with drawn temperatures and parameters; and concentration "
        "runs of 1-12 years. The emissions found drive the reference and the model itself. Non-trivial: "
        "more than 2 years and a change of more than 0.05 ppm in some year."
    ),
    "assumptions": [
        "numerically unstable combinations (few steps a year with drawn extreme parameters) are left out of "
        "the pathways that do not come from emissions"
    ],
    "subs": [
        Sub("component", component_cases, check_component, 800, 30000),
        Sub("run", run_cases, check_run, 240, 8000),
    ],
}
