"""The aerosol pattern effect"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, identical, scratch_dir

from . import forcrun, thermal
from .common import TRIVIAL, drive_thermal, forc_of, run_in_domain, scenario_classes


def shifted(model, pams, add):
    """Parameters with the feedback changed by add"""
    base = {**(ref.UDM_DEFAULTS if model == "default" else ref.TWO_DEFAULTS), **pams}["lambda"]
    res = {k: v for k, v in pams.items() if k != "delta_lambda_aero"}
    res["lambda"] = 1.0 / (1.0 / base + add) if model == "default" else base + add
    return res


def feedback(model, pams, weight):
    base = {**(ref.UDM_DEFAULTS if model == "default" else ref.TWO_DEFAULTS), **pams}["lambda"]
    base = 1.0 / base if model == "default" else base
    return base + pams.get("delta_lambda_aero", 0.0) * weight


def check_component(case):
    model, pams = case["model"], case["pams"]
    forc, weights = thermal.forcing_of(case), thermal.weights_of(case)
    if np.min(feedback(model, pams, weights)) < 0.2:
        return TRIVIAL
    want = thermal.reference(model, pams, forc, weights)
    if want is None:
        return TRIVIAL
    got = thermal.drive(model, pams, forc, weights)
    for key in ref.thermal_out(model):
        close(f"{key} with weights", got[key], want[key])
    off = dict(pams, delta_lambda_aero=0.0)
    plain = thermal.drive(model, {k: v for k, v in pams.items() if k != "delta_lambda_aero"}, forc)
    still = thermal.drive(model, off, forc, weights)
    zero = thermal.drive(model, pams, forc, 0.0 * weights)
    for key in ref.thermal_out(model):
        identical(f"{key} with the effect off", still[key], plain[key])
        identical(f"{key} without aerosols", zero[key], plain[key])
    if case["w_kind"] == "constant":
        same = thermal.drive(model, shifted(model, pams, pams["delta_lambda_aero"] * case["w"]), forc)
        for key in ref.thermal_out(model):
            close(f"{key} for a constant share", got[key], same[key])
    # the feedback in use is the one of the last share given, whatever shares came before
    therm = thermal.make(model, pams)
    for w in weights:
        thermal.sut(therm.set_feedback_gregory, float(w))
        close("feedback in use", thermal.sut(therm.get_feedback_gregory), feedback(model, pams, w))
    return {
        "nontrivial": abs(pams["delta_lambda_aero"]) > 0.01
        and np.max(np.abs(got["dT_glob"] - plain["dT_glob"])) > 1e-4,
        "classes": [f"model {model}", f"share {case['w_kind']}"],
    }


@st.composite
def component_cases(draw):
    model = draw(st.sampled_from(["default", "twolayer"]))
    case = draw(thermal.histories(model=model, max_years=15, weights=True))
    case["model"] = model
    case["pams"]["delta_lambda_aero"] = draw(scen.fl(-0.4, 3.0))
    return case


def check_forcing_run(case):
    forcing = forcrun.Forcing(case)
    weights = forcing.share()
    if np.min(feedback(case["thermal"], case["udm"], weights)) < 0.2:
        return TRIVIAL
    want = forcing.reference()
    if want is None:
        return TRIVIAL
    with scratch_dir() as folder:
        res = forcrun.run(forcing.cfg(folder), case["udm"])
        off = forcrun.run(forcing.cfg(folder), dict(case["udm"], delta_lambda_aero=0))
    forcrun.compare(forcing, res, want)
    forcrun.compare(forcing, off, forcing.reference(dict(case["udm"], delta_lambda_aero=0.0)))
    return {
        "nontrivial": np.max(np.abs(res["dT_glob"] - off["dT_glob"])) > 1e-4,
        "classes": forcrun.labels(case) + ["aerosols" if np.max(weights) > 0 else "no aerosols"],
    }


def forcing_cases():
    return forcrun.forcing_runs(delta=True, how=("array", "table", "csv", "csv", "csv", "csv", "csv"))


def check_run(case):
    got = run_in_domain(case, carbon_outputs=False)
    if got is None:
        return TRIVIAL
    inp, res, expected = got
    if np.min(feedback(case["thermal"], case["udm"], expected["series"]["w"])) < 0.2:
        return TRIVIAL
    _, want = drive_thermal(inp, forc_of(inp, res), case["emi"].get("just_one"))
    for key in ref.thermal_out(case["thermal"]):
        close(f"{key} for the forcing of the components", res[key], want[key])
    return {
        "nontrivial": inp.nyears > 2
        and abs(case["udm"]["delta_lambda_aero"]) > 0.01
        and np.max(expected["series"]["w"]) > 0.01,
        "classes": scenario_classes(case),
    }


@st.composite
def run_cases(draw):
    case = draw(scen.scenario(min_years=2, max_years=10, max_gases=3))
    case["udm"]["delta_lambda_aero"] = draw(scen.fl(-0.4, 3.0))
    if draw(st.integers(0, 2)) == 0:
        case["regional"] = draw(
            st.dictionaries(
                st.sampled_from(["SO2", "BC", "OC"]),
                st.dictionaries(st.sampled_from(["EAS", "NAM"]), scen.fl(-0.02, 0.03), min_size=1),
                min_size=1,
            )
        )
    return case


PROPERTY = {
    "id": "C20",
    "rule": (
        "Both thermal models with drawn shares of every year; forcing runs with and without components and "
        "share column; whole runs with and without regional aerosols. Effect off, no aerosols and constant "
        "share against shifted feedback. Cases with a feedback below 0.2 W/m2/K are left out. Non-trivial: the "
        "effect changes temperatures by more than 1e-4 K (whole runs: share and parameter above 0.01)."
    ),
    "subs": [
        Sub("component", component_cases, check_component, 500, 20000),
        Sub("forcing run", forcing_cases, check_forcing_run, 400, 15000),
        Sub("run", run_cases, check_run, 300, 10000),
    ],
}
