"""What the user hands in is not modified"""

import copy
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, need, scratch_dir, sut

from . import ensemble
from .common import TRIVIAL

# Names of settings and parameters, which may be added where they are not given
SETTINGS = {
    *ref.UDM_DEFAULTS,
    *ref.TWO_DEFAULTS,
    *ref.CARBON_DEFAULTS,
    *ref.BOX_DEFAULTS,
    *scen.UDM_RANGES,
    *scen.EMI_RANGES,
    *("nystart", "nyend", "emstart", "idtm", "sunvolc", "conc_run", "carbon_cycle_model", "thermal_model"),
    *("lifetime_mode", "ref_yr", "just_one", "threstemp", "lm", "ldtime", "rs_function", "rb_function"),
    *("ocean_mixed_layer_depth", "preindustrial_co2_conc", "results_as_dict", "carbon_cycle_outputs"),
    *("output_folder", "output_prefix"),
}


def unchanged(name, now, before):
    """Everything that was in before is in now, with the same value and type"""
    if isinstance(before, pd.DataFrame):
        need(isinstance(now, pd.DataFrame), f"{name} is no longer a table")
        need(list(now.columns) == list(before.columns), f"columns of {name} changed")
        need(list(now.index) == list(before.index), f"index of {name} changed")
        need(now.equals(before), f"values of {name} changed")
    elif isinstance(before, np.ndarray):
        need(
            isinstance(now, np.ndarray)
            and now.shape == before.shape
            and bool(np.array_equal(now, before, equal_nan=True)),
            f"array {name} changed",
        )
    elif isinstance(before, dict):
        need(isinstance(now, dict), f"{name} is no longer a dictionary")
        for key in set(now) - set(before):
            need(key in SETTINGS, f"{key} was added to {name}")
        for key, val in before.items():
            need(key in now, f"{key} was removed from {name}")
            unchanged(f"{name}[{key!r}]", now[key], val)
    elif isinstance(before, (list, tuple)):
        need(len(now) == len(before), f"length of {name} changed")
        for i, val in enumerate(before):
            unchanged(f"{name}[{i}]", now[i], val)
    else:
        need(type(now) is type(before) and now == before, f"{name} was {before!r}, is {now!r}")


def check_run(case):
    from ciceroscm import CICEROSCM

    inp = scen.Inputs(case)
    if ref.try_full_run(inp) is None:
        return TRIVIAL
    cfg = inp.cfg()
    if case["cfg_functions"]:
        cfg.update(copy.deepcopy(case["cfg_functions"]))
    cfg_before = copy.deepcopy(cfg)
    cscm = sut(CICEROSCM, cfg)
    unchanged("cfg after the model was made", cfg, cfg_before)
    for number in range(case["runs"]):
        pams = inp.pams()
        if case["flat"]:
            pams["pamset_carbon"].update({"rb_coef0": 0.6, "rb_coef1": 0.4, "rb_tim0": 2.5, "rb_tim1": 30.0})
        run_cfg = {"results_as_dict": True, "carbon_cycle_outputs": True}
        with scratch_dir() as tmp:
            if case["to_files"]:
                run_cfg = {"output_folder": tmp, "output_prefix": "x", "carbon_cycle_outputs": True}
            before = copy.deepcopy([pams, run_cfg])
            sut(cscm._run, run_cfg, **pams)  # pylint: disable=protected-access
            unchanged(f"parameters of run {number}", pams, before[0])
            unchanged(f"settings of run {number}", run_cfg, before[1])
        unchanged(f"cfg after run {number}", cfg, cfg_before)
    touched = bool(case.get("pert_em") or case.get("pert_forc") or case["nat"] or case["carbon"])
    return {
        "nontrivial": touched,
        "classes": [k for k in ("pert_em", "pert_forc", "to_files", "flat", "cfg_functions") if case.get(k)],
    }


@st.composite
def run_cases(draw):
    case = draw(scen.scenario(min_years=2, max_years=8))
    case["runs"] = draw(st.integers(1, 2))
    case["flat"] = case["carbon_model"] == "default" and draw(st.integers(0, 2)) == 0
    case["to_files"] = draw(st.integers(0, 2)) == 0
    case["cfg_functions"] = {}
    if case["carbon_model"] == "default" and draw(st.integers(0, 2)) == 0:
        case["cfg_functions"]["rs_function"] = draw(scen.rs_function())
        case["cfg_functions"]["rb_function"] = draw(scen.rb_function())
    return case


def check_ensemble(case):
    with scratch_dir() as folder:
        return check_ensemble_in(case, folder)


def check_ensemble_in(case, folder):
    from ciceroscm.parallel.cscmparwrapper import run_ciceroscm_parallel
    from ciceroscm.parallel.distributionrun import DistributionRun

    scens, cfgs, inputs = ensemble.build(case, folder)
    if not ensemble.in_domain(inputs):
        return TRIVIAL
    for cfg in cfgs[: case["flat"]]:
        cfg.setdefault("pamset_carbon", {}).update({"rb_coef0": 0.6, "rb_coef1": 0.4, "rb_tim0": 2.5, "rb_tim1": 30.0})
    variables = ["Surface Air Ocean Blended Temperature Change", "Emissions|CO2", *case["variables"]]
    before = copy.deepcopy([scens, cfgs, variables])
    if case["distribution"]:

        class Given:  # pylint: disable=too-few-public-methods
            """Stands for a distribution that gives these configurations"""

            def make_config_lists(self, *args, **kwargs):  # pylint: disable=unused-argument
                return cfgs

        run = sut(DistributionRun, Given(), numvalues=len(cfgs))
        sut(run.run_over_distribution, scens, variables, max_workers=case["workers"])
    else:
        sut(run_ciceroscm_parallel, scens, cfgs, variables, case["workers"])
    unchanged("scenarios", scens, before[0])
    unchanged("configurations", cfgs, before[1])
    unchanged("variables", variables, before[2])
    return {
        "nontrivial": len(cfgs) > 1,
        "classes": [f"{case['workers']} workers", "distribution run" if case["distribution"] else "parallel run"],
    }


@st.composite
def ensembles(draw):
    case = draw(ensemble.ensembles(max_scens=2, max_cfgs=3, max_years=5))
    case["workers"] = draw(st.sampled_from([1, 1, 1, 2]))
    case["distribution"] = draw(st.booleans())
    case["flat"] = draw(st.sampled_from([0, 0, 1, 3]))
    case["variables"] = draw(st.lists(st.sampled_from(["Unknown", "Heat Uptake", "Effective Radiative Forcing"]), unique=True))
    return case


def check_forcing_run(case):
    from ciceroscm import CICEROSCM

    rng = scen.rng_for(case["seed"], "c02")
    years = list(range(1900, 1900 + case["nyears"]))
    if case["table"]:
        forc = pd.DataFrame(
            {
                "total": rng.uniform(-1, 3, len(years)),
                "FORC_NH": rng.uniform(-1, 3, len(years)),
                "FORC_SH": rng.uniform(-1, 3, len(years)),
            },
            index=years,
        )
    else:
        forc = rng.uniform(-1, 3, len(years))
    cfg = {
        "nystart": 1900,
        "nyend": years[-1],
        "forc_data": forc,
        "thermal_model": case["thermal"],
        "sunvolc": 1,
        "rf_sun_data": pd.DataFrame({0: rng.uniform(-1, 1, len(years))}, index=years),
        "rf_volc_data": pd.DataFrame(rng.uniform(-1, 0, (len(years), 12)), index=years),
        "rf_luc_data": pd.DataFrame({0: rng.uniform(-1, 0, len(years))}, index=years),
    }
    before = copy.deepcopy(cfg)
    cscm = sut(CICEROSCM, cfg)
    udm = dict(case["udm"])
    sut(cscm._run, {"results_as_dict": True}, pamset_udm=udm)  # pylint: disable=protected-access
    unchanged("cfg", cfg, before)
    unchanged("parameters", udm, case["udm"])
    return {"nontrivial": True, "classes": [case["thermal"]]}


@st.composite
def forcing_runs(draw):
    thermal = draw(st.sampled_from(["default", "twolayer"]))
    return {
        "seed": draw(st.integers(0, 10**6)),
        "nyears": draw(st.integers(1, 6)),
        "table": draw(st.booleans()),
        "thermal": thermal,
        "udm": draw(scen.udm_pams(ldtime=[1, 2]) if thermal == "default" else scen.two_pams()),
    }


def check_distro(case):
    from ciceroscm.parallel._configdistro import _ConfigDistro
    from ciceroscm.parallel.distributionrun import DistributionRun

    distro = {k: list(v) for k, v in case["distro"].items()}
    setvalues = dict(case["setvalues"])
    meta = {"a": [1, 2], "b": {"c": "d"}}
    before = copy.deepcopy([distro, setvalues, meta])
    made = sut(_ConfigDistro, distro, setvalues, {"forc": case["forc"], "method": case["method"]})
    with scratch_dir() as tmp:
        lists = sut(
            made.make_config_lists,
            case["num"],
            json_fname=os.path.join(tmp, "c.json"),
            max_chunk_size=case["chunk"],
            meta_info=meta,
        )
        kept = copy.deepcopy(lists)
        sut(made.make_config_lists, case["num"])
        unchanged("configurations made earlier", lists, kept)
        run = sut(DistributionRun, made, numvalues=case["num"])
        sut(run.write_configs_to_json, os.path.join(tmp, "d.json"), meta_info=meta)
    unchanged("distributions", distro, before[0])
    unchanged("set values", setvalues, before[1])
    unchanged("meta information", meta, before[2])
    return {"nontrivial": len(distro) > 1, "classes": [case["method"]]}


@st.composite
def distros(draw):
    names = draw(st.lists(st.sampled_from(["rlamdo", "akapa", "W", "qo3", "beta_f", "rb_coef0", "qbc"]), unique=True, min_size=1))
    return {
        "distro": {n: sorted([draw(scen.fl(0.1, 1)), draw(scen.fl(1.1, 2))]) for n in names},
        "setvalues": draw(st.sampled_from([{}, {"threstemp": 7.0, "qbmb": 0}, {"mixed_carbon": 50.0}])),
        "forc": draw(st.booleans()) and "rlamdo" in names,
        "method": draw(st.sampled_from(["latin", "gaussian"])),
        "num": draw(st.integers(1, 6)),
        "chunk": draw(st.sampled_from([None, 1, 2, 10])),
    }


PROPERTY = {
    "id": "C02",
    "rule": (
        "Everything handed in (configuration with all its tables, parameter dictionaries, "
        "perturbations, ensembles, distributions) is deep-copied, used, and compared; non-trivial "
        "when perturbations, natural emissions or carbon parameters are given, several "
        "configurations are run, or several parameters are distributed."
    ),
    "subs": [
        Sub("run", run_cases, check_run, 420, 20000),
        Sub("ensemble", ensembles, check_ensemble, 120, 2500),
        Sub("forcing_run", forcing_runs, check_forcing_run, 120, 5000),
        Sub("distribution", distros, check_distro, 160, 8000),
    ],
}
