"""Omitted and invalid parameters mean the documented defaults"""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need, sut

from . import c21
from .common import TRIVIAL, compare_full, scenario_classes

JUNK = {
    "text": "high",
    "number as text": "3.0",
    "none": None,
    "list": [1.0],
    "dictionary": {"value": 1.0},
    "complex": 1.0 + 2.0j,
}
KINDS = ["float", "numpy float", "integer", "numpy integer"]
INTEGERS = ("lm", "ldtime", "ref_yr")
UNKNOWN = ["labmda", "Mixed", "beta", "qso2", "nonsense", "rlamda"]


def defaults_of(case):
    carbon = ref.BOX_DEFAULTS if case["carbon_model"] == "box" else ref.CARBON_DEFAULTS
    return {
        "pamset_udm": ref.UDM_DEFAULTS if case["thermal"] == "default" else ref.TWO_DEFAULTS,
        "pamset_emiconc": {**ref.EMI_DEFAULTS, "lifetime_mode": "TAR"},
        "pamset_carbon": carbon,
    }


def as_kind(name, val, kind):
    """The same number as another type, where that holds it exactly"""
    if isinstance(val, (str, dict)):
        return val
    whole = float(val).is_integer()
    if name in INTEGERS:
        return np.int64(val) if kind.startswith("numpy") else int(val)
    if kind == "numpy float":
        return np.float64(val)
    if kind == "integer" and whole:
        return int(val)
    if kind == "numpy integer" and whole:
        return np.int32(val)
    return float(val)


def run(inp, pams, extra=None):
    from ciceroscm import CICEROSCM

    cfg = inp.cfg()
    cfg.update(extra or {})
    cscm = sut(CICEROSCM, cfg)
    # emissions of concentration runs are only found to within a tolerance
    sut(
        cscm._run,  # pylint: disable=protected-access
        {"results_as_dict": True, "carbon_cycle_outputs": not inp.conc_run},
        **pams,
    )
    return cscm.results


def check(case):
    inp = scen.Inputs(case)
    expected = ref.try_full_run(inp)
    if expected is None:
        return TRIVIAL
    want = run(inp, inp.pams())
    # values that are given are used, whatever they are
    compare_full(inp, want, expected)
    defaults = defaults_of(case)
    rng = scen.rng_for(case["seed"], "types")

    full = {s: {**defaults[s], **p} for s, p in inp.pams().items()}
    c21.compare(run(inp, full), want, 1e-11)

    odd = {s: {} for s in full}
    junk = []
    for pset, pams in inp.pams().items():
        for name, val in pams.items():
            odd[pset][name] = as_kind(name, val, case["kinds"][int(rng.integers(len(case["kinds"])))])
        omitted = [n for n in defaults[pset] if n not in pams and n != "lifetime_mode"]
        for name in omitted:
            if rng.uniform() < case["junk_share"]:
                odd[pset][name] = JUNK[case["junk"][int(rng.integers(len(case["junk"])))]]
                junk.append(name)
        for name in case["unknown"]:
            odd[pset][name] = 17.0
    for name, val in case["fixed"].items():
        # settings of the object, not of the run
        odd["pamset_emiconc"][name] = val
    c21.compare(run(inp, odd), want, 1e-11)

    none = {s: (p if p else None) for s, p in inp.pams().items()}
    if case["leave_out"]:
        none = {s: p for s, p in none.items() if p is not None}
    c21.compare(run(inp, none), want, 1e-11)
    given = sum(len(p) for p in inp.pams().values())
    return {
        "nontrivial": inp.nyears > 1 and (bool(junk) or given > 2),
        "classes": scenario_classes(case) + [f"junk {j}" for j in case["junk"]] + [f"fixed {f}" for f in case["fixed"]],
    }


@st.composite
def cases(draw):
    case = draw(scen.scenario(min_years=2, max_years=8, max_gases=3))
    for key in ("udm", "emi", "carbon"):
        if draw(st.integers(0, 4)) == 0:
            case[key] = {}
    case["kinds"] = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3))
    case["junk"] = draw(st.lists(st.sampled_from(sorted(JUNK)), min_size=1, max_size=3, unique=True))
    case["junk_share"] = draw(st.sampled_from([0.0, 0.3, 1.0]))
    case["unknown"] = draw(st.lists(st.sampled_from(UNKNOWN), unique=True, max_size=3))
    case["fixed"] = draw(
        st.fixed_dictionaries(
            {},
            optional={
                "idtm": st.sampled_from([1, 5, 48]),
                "nystart": st.integers(1700, 2100),
                "nyend": st.integers(1800, 2300),
                "emstart": st.integers(1700, 2300),
                "conc_run": st.booleans(),
            },
        )
    )
    case["leave_out"] = draw(st.booleans())
    return case


def check_settings(case):
    """Settings of the model object that are left out"""
    inp = scen.Inputs(case)
    if ref.try_full_run(inp) is None:
        return TRIVIAL
    want = run(inp, inp.pams())
    from ciceroscm import CICEROSCM

    cfg = inp.cfg()
    assumed = {"idtm": 24, "emstart": 1850, "conc_run": False, "sunvolc": 0}
    left = []
    for key in case["leave"]:
        if key == "thermal_model" and case["thermal"] != "default":
            continue
        if key == "carbon_cycle_model" and case["carbon_model"] != "default":
            continue
        if key in assumed and cfg[key] != assumed[key]:
            continue
        left.append(key)
        del cfg[key]
        if key == "idtm" and case["junk_idtm"]:
            cfg[key] = JUNK[case["junk_idtm"]]
    cfg["no_such_setting"] = 3
    cscm = sut(CICEROSCM, cfg)
    sut(
        cscm._run,  # pylint: disable=protected-access
        {"results_as_dict": True, "carbon_cycle_outputs": not inp.conc_run},
        **inp.pams(),
    )
    c21.compare(cscm.results, want, 1e-11)
    return {"nontrivial": bool(left) and inp.nyears > 1, "classes": [f"without {k}" for k in left]}


@st.composite
def settings_cases(draw):
    case = draw(scen.scenario(min_years=2, max_years=8, max_gases=2))
    case["leave"] = draw(
        st.lists(
            st.sampled_from(["idtm", "emstart", "conc_run", "sunvolc", "thermal_model", "carbon_cycle_model"]),
            unique=True,
            min_size=1,
        )
    )
    case["idtm"] = draw(st.sampled_from([24, 24, 12]))
    if "emstart" in case["leave"]:
        case["em_off"] = 1850 - case["ny0"]
        if not -60 < case["em_off"] < 10:
            case["ny0"] = 1845 + case["seed"] % 8
            case["em_off"] = 1850 - case["ny0"]
    case["junk_idtm"] = draw(st.sampled_from(["", "text", "none"]))
    return case


def check_period(case):
    """First and last year that are left out are 1750 and 2100"""
    from ciceroscm import CICEROSCM

    num = 351
    first = 1750 if "nystart" in case["leave"] else case["nystart"]
    last = 2100 if "nyend" in case["leave"] else case["nyend"]
    years = np.arange(first, last + 1)
    num = len(years)
    forc = case["amp"] * scen.rng_for(case["seed"], "f").uniform(-1, 1, num)
    table = pd.DataFrame({"total": forc, "FORC_NH": forc, "FORC_SH": forc}, index=years)
    cfg = {"thermal_model": "twolayer", "forc_data": table, "nystart": first, "nyend": last}
    for key in case["leave"]:
        del cfg[key]
        if case["junk"]:
            cfg[key] = JUNK[case["junk"]]
    cscm = sut(CICEROSCM, cfg)
    sut(cscm._run, {"results_as_dict": True})  # pylint: disable=protected-access
    for key, val in cscm.results.items():
        need(len(val) == num, f"{key} has {len(val)} years instead of {num}")
    zero = np.zeros((num, 1))
    want = ref.run_thermal("twolayer", {}, forc, forc, zero, zero)
    for key, val in want.items():
        close(key, cscm.results[key], val)
    return {"nontrivial": bool(case["leave"]), "classes": [f"without {k}" for k in case["leave"]]}


@st.composite
def period_cases(draw):
    return {
        "seed": draw(st.integers(0, 10**6)),
        "nystart": draw(st.integers(1750, 2090)),
        "nyend": draw(st.integers(2091, 2300)),
        "leave": draw(st.lists(st.sampled_from(["nystart", "nyend"]), unique=True, min_size=1)),
        "amp": draw(scen.fl(0.1, 5.0)),
        "junk": draw(st.sampled_from(["", "text", "none", "list"])),
    }


PROPERTY = {
    "id": "C26",
    "rule": (
        "A run with a drawn subset of the parameters against the same run with all documented defaults written out, "
        "with parameters of other number types, non-numbers for omitted parameters, unknown names and settings "
        "that belong to the object, and with empty parameter sets left out; settings of the object left out. "
        "Non-trivial: more than a year, and several parameters given or non-numbers used."
    ),
    "subs": [
        Sub("parameters", cases, check, 350, 12000),
        Sub("settings", settings_cases, check_settings, 250, 8000),
        Sub("period", period_cases, check_period, 60, 1500),
    ],
}
