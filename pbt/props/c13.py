"""Custom pulse-response and decay functions"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, identical, need, raises, sut

from . import c12
from .common import TRIVIAL


def flat(pams, order_seed=0):
    """The same functions as single numbered parameters, in any order of the keys"""
    out = {k: v for k, v in pams.items() if k not in ("rs_function", "rb_function")}
    for kind in ("rs", "rb"):
        if f"{kind}_function" in pams:
            func = pams[f"{kind}_function"]
            out.update({f"{kind}_coef{i}": c for i, c in enumerate(func["coeffs"])})
            out.update({f"{kind}_tim{i}": t for i, t in enumerate(func["timescales"])})
    keys = list(out)
    scen.rng_for(order_seed, "keys").shuffle(keys)
    return {k: out[k] for k in keys}


def scaled(pams, factor):
    out = dict(pams)
    for key in ("rs_function", "rb_function"):
        if key in out:
            out[key] = {
                "coeffs": [c * factor for c in out[key]["coeffs"]],
                "timescales": list(out[key]["timescales"]),
            }
    return out


def permuted(pams, seed):
    """Terms in another order (the first coefficient of rs has no time scale)"""
    rng = scen.rng_for(seed, "terms")
    out = dict(pams)
    for key, first in (("rs_function", 1), ("rb_function", 0)):
        if key in out:
            coeffs, times = out[key]["coeffs"], out[key]["timescales"]
            order = rng.permutation(len(times))
            out[key] = {
                "coeffs": coeffs[:first] + [coeffs[first + i] for i in order],
                "timescales": [times[i] for i in order],
            }
    return out


def check_component(case):
    out = c12.reference(case)
    if out is None or not c12.well_behaved(case, out[1]):
        return TRIVIAL
    pams = case["carbon"]
    want = out[1]
    base = c12.make_model(case, pams)
    close("concentration", c12.forward(base, case), want)
    steps = np.arange(case["idtm"] * case["nyears"])
    from ciceroscm.carbon_cycle.rfuns import rb_function2, rs_function2

    if "rs_function" in pams:
        func = pams["rs_function"]
        vals = np.atleast_1d(sut(rs_function2, steps, func["coeffs"], func["timescales"], case["idtm"]))
        close("pulse response", vals, ref.rs_values(steps / case["idtm"], func))
        close("pulse response at the start", vals[0], 1.0)
        need(np.all(np.diff(vals) <= 1e-15), "pulse response grows")
    if "rb_function" in pams:
        func = pams["rb_function"]
        vals = np.atleast_1d(sut(rb_function2, steps, func["coeffs"], func["timescales"], case["idtm"]))
        close("decay function", vals, ref.rb_values(steps / case["idtm"], func))
        close("decay function at the start", vals[0], 0.0)
    for name, other in (
        ("numbered parameters", flat(pams, case["seed"])),
        ("scaled coefficients", scaled(pams, case["factor"])),
        ("terms in another order", permuted(pams, case["seed"])),
        (
            "arrays instead of lists",
            {
                k: ({kk: np.array(vv) for kk, vv in v.items()} if isinstance(v, dict) else v)
                for k, v in pams.items()
            },
        ),
    ):
        model = c12.make_model(case, other)
        close(f"concentration with {name}", c12.forward(model, case), want)
    # given after the model was made
    plain = {k: v for k, v in pams.items() if k not in ("rs_function", "rb_function")}
    for name, other in (("functions", pams), ("numbered parameters", flat(pams, case["seed"]))):
        model = c12.make_model(case, plain)
        sut(model.reset_co2_hold, other)
        close(f"concentration with {name} given later", c12.forward(model, case), want)
    return {
        "nontrivial": case["nyears"] > 2 and abs(case["size"]) > 0.5 and case["kind"] != "zero",
        "classes": sorted(f"{len(pams[k]['timescales'])} terms in {k}" for k in ("rs_function", "rb_function") if k in pams),
    }


@st.composite
def component_cases(draw):
    case = draw(c12.component_cases(max_years=12))
    case["nyears"] = min(case["nyears"], 25)
    case["idtm"] = min(case["idtm"], 24)
    which = draw(st.sampled_from(["rs", "rb", "both", "both"]))
    case["carbon"] = {k: v for k, v in case["carbon"].items() if not k.endswith("function")}
    if which != "rb":
        case["carbon"]["rs_function"] = draw(many_terms(1))
    if which != "rs":
        case["carbon"]["rb_function"] = draw(many_terms(0))
    case["factor"] = draw(scen.fl(0.01, 100.0))
    return case


@st.composite
def many_terms(draw, extra):
    num = draw(st.one_of(st.integers(1, 5), st.integers(1, 14)))
    return {
        "coeffs": draw(st.lists(scen.fl(0.02, 1.0), min_size=num + extra, max_size=num + extra)),
        "timescales": draw(st.lists(scen.fl(0.3, 300.0), min_size=num, max_size=num)),
    }


def check_run(case):
    """Given in cfg, as functions or as numbered parameters of the run: the same run"""
    from ciceroscm import CICEROSCM

    inp = scen.Inputs(case)
    if ref.try_full_run(inp) is None:
        return TRIVIAL
    keys = ("rs_function", "rb_function")
    funcs = {k: v for k, v in case["carbon"].items() if k in keys}
    rest = {k: v for k, v in case["carbon"].items() if k not in keys}
    results = []
    for way in range(4):
        cfg, pams = inp.cfg(), inp.pams()
        if way == 1:
            pams["pamset_carbon"] = flat(pams["pamset_carbon"], case["seed"])
        elif way == 2:
            cfg.update(pams["pamset_carbon"])
            pams["pamset_carbon"] = dict(rest) or None
        elif way == 3:  # one in cfg, the other in the parameters
            key = sorted(funcs)[0]
            cfg[key] = pams["pamset_carbon"].pop(key)
            pams["pamset_carbon"] = flat(pams["pamset_carbon"], case["seed"])
        cscm = sut(CICEROSCM, cfg)
        sut(
            cscm._run,  # pylint: disable=protected-access
            {"results_as_dict": True, "carbon_cycle_outputs": True},
            **pams,
        )
        results.append(cscm.results)
    want = ref.co2_conc(inp, results[0]["dT_glob"])
    for way, res in enumerate(results):
        close(f"CO2 of way {way}", res["concentrations"]["CO2"].to_numpy(), want)
        for col in results[0]["carbon cycle"].columns:
            identical(
                f"{col} of way {way}", res["carbon cycle"][col].to_numpy(), results[0]["carbon cycle"][col].to_numpy()
            )
        identical(f"temperature of way {way}", res["dT_glob"], results[0]["dT_glob"])
    return {"nontrivial": inp.nyears > 2, "classes": sorted(funcs)}


@st.composite
def run_cases(draw):
    case = draw(
        scen.scenario(
            thermal=("twolayer",), carbon=("default",), conc_run=(False, False, True), min_years=2, max_years=10,
            max_gases=1, emi=False, aero_alpha=False,
        )
    )
    if case["conc_run"]:
        case["conc_amp"] = 0.01
    which = draw(st.sampled_from(["rs", "rb", "both", "both"]))
    case["carbon"] = {k: v for k, v in case["carbon"].items() if not k.endswith("function")}
    if which != "rb":
        case["carbon"]["rs_function"] = draw(many_terms(1))
    if which != "rs":
        case["carbon"]["rb_function"] = draw(many_terms(0))
    return case


def check_reject(case):
    """Functions that cannot be used are refused, when they are given as when they are used"""
    fault, kind = case["fault"], case["kind"]
    func = {k: list(v) for k, v in case["func"].items()}
    extra = 1 if kind == "rs" else 0
    ats = case["at"]
    if fault == "too many coefficients":
        func["coeffs"] += [0.3] * case["howmany"]
    elif fault == "too many time scales":
        func["timescales"] += [10.0] * case["howmany"]
    elif fault == "negative time scale":
        func["timescales"][ats % len(func["timescales"])] *= -1.0
    elif fault == "time scale of zero":
        func["timescales"][ats % len(func["timescales"])] = 0.0
    else:
        func["coeffs"][ats % len(func["coeffs"])] *= -1.0
    need(len(case["func"]["coeffs"]) == len(case["func"]["timescales"]) + extra, "bad case")
    good = {f"{kind}_function": case["func"]}
    setup = {"idtm": 4, "nyears": 3, "ny0": 1900, "co2_0": 280.0}
    bad = {f"{kind}_function": func}
    if case["flat"]:
        bad = flat(bad, case["at"])
    from ciceroscm.component_factory_functions import create_carbon_cycle_model

    raises(
        (ValueError, TypeError),
        create_carbon_cycle_model,
        "default",
        {"idtm": 4, "nystart": 1900, "nyend": 1902},
        dict(bad, preindustrial_co2_conc=280.0),
    )
    model = c12.make_model(setup, good)
    raises((ValueError, TypeError), model.reset_co2_hold, bad)
    return {"nontrivial": True, "classes": [f"{kind}: {fault}"]}


@st.composite
def reject_cases(draw):
    kind = draw(st.sampled_from(["rs", "rb"]))
    return {
        "kind": kind,
        "func": draw(many_terms(1 if kind == "rs" else 0)),
        "fault": draw(
            st.sampled_from(
                [
                    "too many coefficients",
                    "too many time scales",
                    "negative time scale",
                    "time scale of zero",
                    "negative coefficient",
                ]
            )
        ),
        "howmany": draw(st.integers(1, 3)),
        "at": draw(st.integers(0, 20)),
        "flat": draw(st.booleans()),
    }


PROPERTY = {
    "id": "C13",
    "rule": (
        "Drawn functions of 1-14 terms, given as lists, arrays, numbered values with keys in any order, in "
        "cfg or with the run, scaled and permuted, used by the carbon cycle on its own and in whole runs, "
        "and broken functions that must be refused. Non-trivial: emissions that are not zero over more than "
        "2 years, and every refused function."
    ),
    "subs": [
        Sub("component", component_cases, check_component, 500, 20000),
        Sub("run", run_cases, check_run, 160, 6000),
        Sub("refused", reject_cases, check_reject, 800, 20000),
    ],
}
