"""Generated forcing histories and driving of the thermal components"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import sut

SHAPES = ["random", "random", "ramp", "step", "pulse", "constant", "walk"]


def series(rng, shape, num, amp, at):
    if shape == "random":
        return amp * rng.uniform(-1, 1, num)
    if shape == "ramp":
        return amp * np.linspace(0.0, 1.0, num)
    if shape == "step":
        return np.where(np.arange(num) >= at % num, amp, 0.0)
    if shape == "pulse":
        return np.where(np.arange(num) == at % num, amp, 0.0)
    if shape == "walk":
        return 0.3 * amp * np.cumsum(rng.uniform(-1, 1, num))
    return np.full(num, amp)


def forcing_of(case, label=""):
    """North, south, volcanic north, volcanic south"""
    rng = scen.rng_for(case["seed"], "thermal" + label)
    num = case["nyears"]
    north = series(rng, case["shape"], num, case["amp"], case["at"])
    south = north if case["same"] else series(rng, case["shape"], num, case["amp_s"], case["at"] + 1)
    cols = case["volc_cols"]
    volc_n = scen.eruptions(rng, case["volc"], num, cols)
    cols_s = case.get("volc_cols_s") or cols
    volc_s = volc_n if case["same"] else scen.eruptions(rng, case["volc"], num, cols_s)
    if case["volc"] and case["volc_sparse"]:
        keep = rng.uniform(0, 1, (num, 1)) < 0.3
        volc_n, volc_s = volc_n * keep, volc_s * keep
    return north, south, volc_n, volc_s


def weights_of(case):
    kind = case["w_kind"]
    num = case["nyears"]
    if kind == "none":
        return None
    if kind == "constant":
        return np.full(num, case["w"])
    rng = scen.rng_for(case["seed"], "weights")
    vals = rng.uniform(0, 1, num) * case["w"]
    if kind == "sparse":
        # exact zeros, and shares that stay the same for some years
        vals[rng.uniform(0, 1, num) < 0.4] = 0.0
        vals = vals[2 * (np.arange(num) // 2)]
    return vals


def make(model, pams):
    from ciceroscm.component_factory_functions import create_thermal_model

    cls = sut(create_thermal_model, model)
    return sut(cls, dict(pams))


def drive(model, pams, forc, weights=None, raw=None):
    """Series of all reported outputs of the code under test"""
    therm = make(model, pams)
    names = sut(therm.get_output_dict_thermal)
    out = {k: [] for k in names}
    for i, (north, south, volc_n, volc_s) in enumerate(zip(*forc)):
        if weights is not None:
            sut(therm.set_feedback_gregory, float(weights[i]))
        vals = sut(therm.energy_budget, float(north), float(south), np.array(volc_n), np.array(volc_s))
        for key, name in names.items():
            out[key].append(float(vals[name]))
        if raw is not None:
            raw.append({k: np.array(v, dtype=float) for k, v in vals.items()})
    return {k: np.array(v) for k, v in out.items()}


def reference(model, pams, forc, weights=None):
    """Reference outputs, None if they leave the valid domain"""
    with np.errstate(all="ignore"):
        try:
            out = ref.run_thermal(model, pams, *forc, weights)
        except (np.linalg.LinAlgError, ValueError, OverflowError, ZeroDivisionError):
            return None
    temp = out["dT_glob"]
    if not np.all(np.isfinite(temp)) or np.max(np.abs(temp)) > 60.0:
        return None
    return out


@st.composite
def histories(draw, model="default", max_years=30, weights=False):
    nyears = draw(st.integers(1, max_years))
    case = {
        "seed": draw(st.integers(0, 10**6)),
        "nyears": nyears,
        "shape": draw(st.sampled_from(SHAPES)),
        "amp": draw(scen.fl(-8.0, 12.0)),
        "amp_s": draw(scen.fl(-8.0, 12.0)),
        "at": draw(st.integers(0, 30)),
        "same": draw(st.integers(0, 3)) == 0,
        "volc": draw(st.one_of(st.just(0.0), scen.fl(0.0, 10.0))),
        "volc_sparse": draw(st.booleans()),
        "volc_cols": draw(st.sampled_from([12, 12, 1, 2, 4, 6])),
        "volc_cols_s": draw(st.sampled_from([None, None, None, 12, 1, 4])),
        "pams": draw(scen.udm_pams() if model == "default" else scen.two_pams()),
    }
    if weights:
        case["w_kind"] = draw(st.sampled_from(["constant", "random", "sparse", "sparse"]))
        case["w"] = draw(scen.fl(0.0, 1.0))
    return case
