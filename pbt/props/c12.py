"""The default carbon cycle against the reference"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need, sut

from .common import TRIVIAL, check_years, run_in_domain, scenario_classes


def emissions_of(case):
    """Emissions in Pg C per year"""
    rng = scen.rng_for(case["seed"], "carbon emissions")
    num = case["nyears"]
    kind = case["kind"]
    if kind == "pulse":
        vals = np.zeros(num)
        vals[case["at"] % num] = case["size"] * 5.0
    elif kind == "constant":
        vals = np.full(num, case["size"])
    elif kind == "ramp":
        vals = case["size"] * np.linspace(0.0, 1.0, num)
    elif kind == "zero":
        vals = np.zeros(num)
    else:
        vals = case["size"] * rng.uniform(-0.4, 1.0, num)
    return vals


def temps_of(case):
    rng = scen.rng_for(case["seed"], "carbon temperatures")
    num = case["nyears"]
    kind = case["temp_kind"]
    if kind == "none":
        return None
    if kind == "constant":
        return np.full(num, case["temp"])
    if kind == "ramp":
        return np.linspace(0.0, case["temp"], num)
    if kind == "step":
        return np.where(np.arange(num) > case["at"] % num, case["temp"], 0.0)
    return case["temp"] * rng.uniform(-0.5, 1.0, num)


def reference(case, pams=None, wiggle=0.0):
    """Reference carbon cycle after the run and its concentrations, None outside the domain"""
    em, temps = emissions_of(case), temps_of(case)
    cyc = ref.Carbon(case["carbon"] if pams is None else pams, case["idtm"], case["nyears"], case["co2_0"])
    conc = []
    rng = scen.rng_for(case["seed"], "wiggle")
    try:
        for i, val in enumerate(em):
            if wiggle and i:
                noise = rng.uniform(-wiggle, wiggle, 2)
                cyc.pco2 += noise[0] * cyc.conc
                cyc.conc *= 1.0 + noise[1]
            conc.append(cyc.step(val + wiggle, 0.0 if temps is None else temps[i]))
    except (ValueError, OverflowError, ZeroDivisionError):
        return None
    conc = np.array(conc)
    if not np.all(np.isfinite(conc)) or np.min(conc) < 20.0 or np.max(conc) > 1e4:
        return None
    return cyc, conc


def make_model(case, pams):
    from ciceroscm.component_factory_functions import create_carbon_cycle_model

    return sut(
        create_carbon_cycle_model,
        "default",
        {"idtm": case["idtm"], "nystart": case["ny0"], "nyend": case["ny0"] + case["nyears"] - 1},
        dict(pams, preindustrial_co2_conc=case["co2_0"]),
    )


def forward(model, case, em=None, temps=None):
    """Concentrations of the code under test"""
    em = emissions_of(case) if em is None else em
    temps = temps_of(case) if temps is None else temps
    res = []
    for i, val in enumerate(em):
        if temps is None:
            res.append(sut(model.co2em2conc, case["ny0"] + i, float(val)))
        else:
            res.append(
                sut(model.co2em2conc, case["ny0"] + i, float(val), feedback_dict={"dtemp": float(temps[i])})
            )
    return np.array(res, dtype=float)


def well_behaved(case, conc):
    """Small changes of the state stay small: no numerical instability amplifies rounding"""
    wig = reference(case, wiggle=1e-9)
    return wig is not None and np.max(np.abs(wig[1] - conc)) < 1e-6 * np.max(conc)


def check_component(case):
    out = reference(case)
    if out is None or not well_behaved(case, out[1]):
        return TRIVIAL
    cyc, want = out
    model = make_model(case, case["carbon"])
    got = forward(model, case)
    close("CO2 concentration", got, want, rtol=1e-8)
    # a second run after a reset is the same run
    if case["again"]:
        sut(model.reset_co2_hold)
        close("CO2 concentration after a reset", forward(model, case), want, rtol=1e-8)
    for temp in (0.0, case["temp"], -case["temp"], 2.5 * case["temp"]):
        close("production", sut(model.fnpp_from_temp, temp), cyc.fnpp(temp))
        close("solubility", sut(model.solubility_temp_feedback, temp), cyc.solubility(temp))
        close("mixed layer depth", sut(model.mixed_layer_temp_feedback, temp), cyc.depth(temp))
    labels = [f"idtm {case['idtm']}", f"emissions {case['kind']}", f"temperature {case['temp_kind']}"]
    if case["kind"] == "zero":
        close("concentration without emissions", got, np.full(case["nyears"], case["co2_0"]))
    if cyc.zmax > 293.5:
        labels.append("beyond the polynomial")
    labels += [k for k in ("rs_function", "rb_function") if k in case["carbon"]]
    return {
        "nontrivial": case["nyears"] > 2 and np.max(np.abs(want - case["co2_0"])) > 0.5,
        "classes": labels,
    }


def check_full(case):
    got = run_in_domain(case, carbon_outputs=False)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    check_years(inp, res)
    want = ref.co2_conc(inp, res["dT_glob"])
    conc = res["concentrations"]["CO2"].to_numpy()
    close("CO2 concentration for the temperature of the year before", conc, want)
    need(np.all(conc > 0), "negative CO2")
    return {
        "nontrivial": inp.nyears > 3 and np.max(np.abs(conc - conc[0])) > 0.1,
        "classes": scenario_classes(case),
    }


@st.composite
def flood_cases(draw, temp_kinds):
    """So much carbon that the ocean chemistry leaves the range of its polynomial"""
    carbon = draw(scen.carbon_pams())
    carbon["mixed_carbon"] = draw(scen.fl(25.0, 70.0))
    return {
        "seed": draw(st.integers(0, 10**6)),
        "ny0": 1900,
        "nyears": draw(st.integers(8, 40)),
        "idtm": draw(st.sampled_from([6, 12, 24])),
        "co2_0": draw(st.one_of(st.just(278.0), scen.fl(180.0, 420.0))),
        "kind": draw(st.sampled_from(["constant", "ramp", "random", "pulse"])),
        "size": draw(scen.fl(120.0, 450.0)),
        "at": draw(st.integers(0, 4)),
        "temp_kind": draw(st.sampled_from(temp_kinds)),
        "temp": draw(scen.fl(-3.0, 8.0)),
        "carbon": carbon,
        "again": draw(st.booleans()),
    }


@st.composite
def component_cases(draw, max_years=30, temp_kinds=("none", "constant", "ramp", "step", "random", "random")):
    long = draw(st.integers(0, 9)) == 0
    if not long and draw(st.integers(0, 7)) == 0:
        return draw(flood_cases(temp_kinds))
    steps = [1, 2, 3, 4, 6, 12, 24, 24, 36, 48]
    nyears = draw(st.integers(1, max_years))
    if long:
        nyears = draw(st.one_of(st.integers(60, 150), st.integers(150, 400), st.integers(401, 1000)))
        # the work grows with the square of the number of steps
        steps = [s for s in steps if s > 1 and nyears * s <= 4000]
        steps += 2 * steps[-1:]
    return {
        "seed": draw(st.integers(0, 10**6)),
        "ny0": draw(st.sampled_from([1750, 1850, 2000, 1900])),
        "nyears": nyears,
        "idtm": draw(st.sampled_from(steps)),
        "co2_0": draw(st.one_of(st.just(278.0), scen.fl(180.0, 420.0))),
        "kind": draw(st.sampled_from(["random", "random", "pulse", "constant", "ramp", "zero"])),
        "size": draw(st.one_of(scen.fl(-5.0, 30.0), scen.fl(30.0, 120.0))),
        "at": draw(st.integers(0, 40)),
        "temp_kind": draw(st.sampled_from(temp_kinds)),
        "temp": draw(st.one_of(scen.fl(-3.0, 8.0), scen.fl(-15.0, 30.0))),
        "carbon": draw(scen.carbon_pams()),
        "again": draw(st.booleans()),
    }


def full_cases():
    return scen.scenario(
        thermal=("twolayer", "twolayer", "default"), carbon=("default",), conc_run=(False,), min_years=2, max_years=20,
        max_gases=2,
    )


PROPERTY = {
    "id": "C12",
    "rule": (
        "The carbon cycle on its own for 1-1000 years of drawn emissions (pulse, constant, ramp, random, "
        "zero, up to 600 Pg C a year), temperatures (none, constant, step, ramp, random, -15 to 30 K), "
        "parameters, starting concentration and 1-48 steps a year; and whole runs, where the reported "
        "temperatures drive the reference. Non-trivial: concentration moves by more than 0.5 (0.1) ppm. "
        "Histories where the reference leaves 20-10000 ppm or is numerically unstable do not count."
    ),
    "subs": [
        Sub("component", component_cases, check_component, 1500, 60000),
        Sub("run", full_cases, check_full, 500, 15000),
    ],
}
