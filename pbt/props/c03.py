"""Ensembles run in parallel give what single runs give"""

import os
import time
from concurrent.futures import ThreadPoolExecutor

import numpy as np
from hypothesis import strategies as st

from pbt import reader, scen
from pbt.core import Sub, need, scratch_dir, sut

from . import ensemble, forcrun
from .common import TRIVIAL


def check(case):
    with scratch_dir() as folder:
        return check_in(case, folder)


def check_in(case, folder):
    from ciceroscm.parallel.cscmparwrapper import run_ciceroscm_parallel

    scens, cfgs, inputs = ensemble.build(case, folder)
    if not ensemble.in_domain(inputs):
        return TRIVIAL
    variables = ensemble.pick_variables(case, inputs, case["nvars"])
    rows = ensemble.expected_rows(case, inputs, variables)
    if not rows:
        return TRIVIAL
    table = sut(run_ciceroscm_parallel, scens, cfgs, variables, case["workers"])
    ensemble.compare(table, rows)
    return {
        "nontrivial": len(scens) * len(cfgs) > 1,
        "classes": [f"{case['workers']} workers", f"{len(scens)} scenarios", f"{len(cfgs)} configurations"],
    }


def check_distribution(case):
    with scratch_dir() as folder:
        return check_distribution_in(case, folder)


def check_distribution_in(case, folder):
    from ciceroscm.parallel.distributionrun import DistributionRun

    scens, cfgs, inputs = ensemble.build(case, folder)
    if not ensemble.in_domain(inputs):
        return TRIVIAL
    variables = ensemble.pick_variables(case, inputs, case["nvars"])
    rows = ensemble.expected_rows(case, inputs, variables)
    if not rows:
        return TRIVIAL

    class Given:  # pylint: disable=too-few-public-methods
        """Stands for a distribution that gives these configurations"""

        def make_config_lists(self, *args, **kwargs):  # pylint: disable=unused-argument
            return cfgs

    run = sut(DistributionRun, Given(), numvalues=len(cfgs))
    given = scens[0] if len(scens) == 1 and case["bare"] else scens
    table = sut(run.run_over_distribution, given, variables, max_workers=case["workers"])
    ensemble.compare(table, rows)
    return {"nontrivial": len(scens) * len(cfgs) > 1, "classes": [f"{case['workers']} workers"]}


@st.composite
def cases(draw, max_scens=3, max_cfgs=5):
    case = draw(ensemble.ensembles(max_scens=max_scens, max_cfgs=max_cfgs))
    if draw(st.integers(0, 3)) == 0:
        # many configurations of one scenario
        case["scens"] = case["scens"][:1]
        have = case["cfgs"]
        while len(case["cfgs"]) < draw(st.integers(9, 14)):
            new = dict(have[len(case["cfgs"]) % len(have)])
            for key in ("emi", "carbon"):
                if draw(st.integers(0, 2)):
                    new[key] = {}
            if draw(st.integers(0, 3)) == 0:
                new["carbon"] = draw(scen.carbon_pams())
            case["cfgs"].append(new)
    case["workers"] = draw(st.sampled_from([1, 2, 3, 4, 5, 8] if len(case["cfgs"]) < 9 else [1, 1, 2, 3]))
    case["nvars"] = draw(st.integers(1, 5))
    case["bare"] = draw(st.booleans())
    return case


# -- ensembles of forcing runs ------------------------------------------------


def check_forcing(case):
    from ciceroscm.parallel.cscmparwrapper import run_ciceroscm_parallel

    runs = [forcrun.Forcing(sub) for sub in case["scens"]]
    gases = scen.Inputs(case["gases"]).gaspam_df()
    years = sorted({int(y) for one in runs for y in one.years})
    with scratch_dir() as folder:
        scens, rows = [], []
        for i, one in enumerate(runs):
            os.makedirs(os.path.join(folder, str(i)))
            if any(one.reference(pams) is None for pams in case["udms"]):
                return TRIVIAL
            scens.append(dict(one.cfg(os.path.join(folder, str(i))), gaspam_data=gases.copy(deep=True), scenname=case["names"][i]))
            for j, pams in enumerate(case["udms"]):
                res = forcrun.run(one.cfg(os.path.join(folder, str(i))), pams)
                for variable in case["variables"]:
                    want = reader.expected(None, res, variable)
                    if want is not None:
                        head = ["CICERO-SCM-PY", case["names"][i], f"run{j}", case["names"][i], "World", variable, want[1]]
                        rows.append((head, one.years, np.asarray(want[0], dtype=float)))
        cfgs = [{"Index": f"run{j}", "pamset_udm": dict(pams)} for j, pams in enumerate(case["udms"])]
        table = sut(run_ciceroscm_parallel, scens, cfgs, case["variables"], case["workers"])
    ensemble.compare(table, rows)
    return {
        "nontrivial": len(rows) > len(case["variables"]) and len(years) > 1,
        "classes": [f"{case['workers']} workers", *{f"forcing as {sub['how']}" for sub in case["scens"]}],
    }


@st.composite
def forcing_cases(draw):
    first = draw(forcrun.forcing_runs(max_years=8))
    scens = [first] + draw(st.lists(forcrun.forcing_runs(max_years=8), max_size=2))
    make = (lambda: scen.udm_pams(ldtime=[1, 2])) if first["thermal"] == "default" else scen.two_pams
    for sub in scens:
        sub["thermal"] = first["thermal"]
    return {
        "scens": scens,
        "names": draw(st.permutations(ensemble.SCEN_NAMES))[: len(scens)],
        "udms": draw(st.lists(make(), min_size=1, max_size=5)),
        # the surface temperature first: there is always at least one variable
        "variables": ["Surface Air Ocean Blended Temperature Change"] + draw(st.permutations(HEAT))[: draw(st.integers(0, 4))],
        "gases": draw(scen.scenario(min_years=2, max_years=2, perturb=False)),
        "workers": draw(st.sampled_from([1, 2, 3, 4, 8])),
    }


HEAT = ["Surface Air Temperature Change", "Surface Air Ocean Temperature Change", "Heat Uptake", "Heat Content|Ocean", "Heat Content|Ocean|0-700m"]


# -- order of the results of many jobs ---------------------------------------


def _job(number, wait=0.0):
    time.sleep(wait)
    return number * 10


def check_order(case):
    from ciceroscm.parallel._parallel_process import _parallel_process

    jobs = case["jobs"]
    if case["kwargs"]:
        conf = [{"number": i, "wait": w / 1000.0} for i, w in enumerate(jobs)]
        func = _job
    else:
        conf = [(i, w / 1000.0) for i, w in enumerate(jobs)]

        def func(arg):
            return _job(*arg)

    kwargs = {
        "config_are_kwargs": case["kwargs"],
        "front_serial": case["serial"],
        "front_parallel": case["parallel"],
    }
    if case["pool"]:
        with ThreadPoolExecutor(max_workers=case["pool"]) as pool:
            got = sut(_parallel_process, func, conf, pool=pool, **kwargs)
    else:
        got = sut(_parallel_process, func, conf, pool=None, **kwargs)
    need(
        list(got) == [10 * i for i in range(len(jobs))],
        f"results of the jobs are {list(got)}",
    )
    return {"nontrivial": len(jobs) > 1, "classes": ["pool" if case["pool"] else "no pool"]}


def order_cases():
    return st.fixed_dictionaries(
        {
            "jobs": st.lists(st.integers(0, 4), max_size=9),
            "kwargs": st.booleans(),
            "serial": st.integers(0, 4),
            "parallel": st.integers(0, 4),
            "pool": st.sampled_from([0, 1, 2, 4]),
        }
    )


PROPERTY = {
    "id": "C03",
    "rule": (
        "Ensembles of 1-3 scenarios and 1-5 configurations, 1-5 output variables and 1-8 workers (configurations may "
        "share their name), ensembles of 1-3 forcing runs of all kinds, "
        "and lists of jobs with drawn waiting times; non-trivial when there is more than one "
        "scenario-configuration pair or job."
    ),
    "subs": [
        Sub("ensemble", cases, check, 160, 6000),
        Sub("distribution_run", lambda: cases(max_scens=2, max_cfgs=4), check_distribution, 48, 2000),
        Sub("forcing_ensemble", forcing_cases, check_forcing, 80, 3000),
        Sub("job_order", order_cases, check_order, 240, 8000),
    ],
}
