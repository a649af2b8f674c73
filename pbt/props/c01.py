"""Runs of a reused model object do not depend on the runs before them"""

import contextlib
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, Violation, identical, isolated, need, scratch_dir, sut

from . import files, forcrun
from .c24 import own_or_shipped
from .common import TRIVIAL


def freeze(results):
    """Plain copy of a results dictionary"""
    out = {}
    for key, val in results.items():
        if isinstance(val, pd.DataFrame):
            out[key] = {"__cols__": list(val.columns), "__index__": list(val.index)}
            for col in val.columns:
                out[key][col] = np.array(val[col], dtype=float)
        else:
            out[key] = np.array(val, dtype=float)
    return out


def same(name, got, want):
    need(set(got) == set(want), f"{name}: keys {sorted(set(got) ^ set(want))} differ")
    for key, val in want.items():
        if isinstance(val, dict):
            for part in ("__cols__", "__index__"):
                need(got[key][part] == val[part], f"{name}: {part} of {key} differ")
            for col in val["__cols__"]:
                identical(f"{name}: {key} {col}", got[key][col], val[col])
        else:
            identical(f"{name}: {key}", got[key], val)


def config(case, folder):
    """Inputs, and configuration with shipped series and inputs from files in folder"""
    inp = scen.Inputs(case)
    cfg = inp.cfg()
    if case.get("defaults"):
        own_or_shipped(inp, case, cfg)
    if case.get("files"):
        files.to_files(inp, cfg, folder, case["files"])
    return inp, cfg


def make(case, folder):
    from ciceroscm import CICEROSCM

    return sut(CICEROSCM, config(case, folder)[1])


def pams_of(case, run):
    full = dict(case, udm=run["udm"], emi=run["emi"], carbon=run["carbon"])
    pams = scen.Inputs(full).pams()
    return {k: (v if v or not run["none"] else None) for k, v in pams.items()}


def go(cscm, case, run, folder):
    # files of the same name may have been written for another object
    config(case, folder)
    sut(
        cscm._run,  # pylint: disable=protected-access
        {"results_as_dict": True, "carbon_cycle_outputs": run["carbon_outputs"]},
        **pams_of(case, run),
    )
    return cscm.results


def accumulated(runs, which, number):
    """Run settings that a fresh instance needs in place of run number number"""
    carbon = {}
    for run in runs[: number + 1]:
        if run["which"] == which:
            carbon.update(run["carbon"])
    return dict(runs[number], carbon=carbon)


def history(cases, runs, lazy=False):
    with scratch_dir() as folder:
        return history_in(cases, runs, lazy, folder)


def history_in(cases, runs, lazy, folder):
    """All runs one after another in one process"""
    instances = [None if lazy else make(case, folder) for case in cases]
    kept, copies = [], []
    for run in runs:
        if instances[run["which"]] is None:
            instances[run["which"]] = make(cases[run["which"]], folder)
        results = go(instances[run["which"]], cases[run["which"]], run, folder)
        kept.append(results)
        copies.append(freeze(results))
    # results that were handed out earlier are still what they were
    for i, (results, before) in enumerate(zip(kept, copies)):
        same(f"results of run {i} after the later runs", freeze(results), before)
    return copies


def fresh(case, run):
    with scratch_dir() as folder:
        return freeze(go(make(case, folder), case, run, folder))


def in_domain(case):
    with scratch_dir() as folder:
        return ref.try_full_run(config(case, folder)[0]) is not None


def check(hist):
    cases, runs = hist["cases"], hist["runs"]
    wanted_runs = [accumulated(runs, run["which"], i) for i, run in enumerate(runs)]
    for run, want_run in zip(runs, wanted_runs):
        full = dict(cases[run["which"]], udm=run["udm"], emi=run["emi"], carbon=want_run["carbon"])
        if not in_domain(full):
            return TRIVIAL
    got = isolated(history, cases, runs, hist.get("lazy", False))
    for i, (run, want_run) in enumerate(zip(runs, wanted_runs)):
        want = isolated(fresh, cases[run["which"]], want_run)
        try:
            same(f"run {i} of instance {run['which']}", got[i], want)
        except Violation as exc:
            raise Violation(f"differs from a fresh model object: {exc}") from exc
    per_instance = max(sum(r["which"] == w for r in runs) for w in range(len(cases)))
    return {
        "nontrivial": per_instance > 1,
        "classes": [f"{len(cases)} model objects", f"{len(runs)} runs"]
        + [f"{c['thermal']}/{c['carbon_model']}" for c in cases]
        + [f"default {d}" for c in cases for d in c.get("defaults", [])]
        + [f"{f} from file" for c in cases for f in c.get("files", [])],
    }


ALIKE = ["regional", "regional", "aero_alpha", "pert_em", "pert_forc", "em_special", "conc_special", "thermal", "carbon_model", "seed", "ny0", "em_off", "idtm", "gases", "gas_amp", "nat_co2", "em_amp", "conc_amp", "co2_scale", "nat", "luc", "sun", "volc", "volc_cols", "conc_run"]


# timesteps of a year and years of two objects with as many steps in all
GRIDS = [(a, n, b, m) for a in (1, 2, 3, 4, 6, 12, 24) for b in (1, 2, 3, 4, 6, 12, 24) for n in range(2, 11) for m in range(2, 11) if a != b and a * n == b * m]


def fit_years(case):
    """Perturbed years within the years there are"""
    for key in ("pert_em", "pert_forc"):
        case[key] = [
            [p[0], min(p[1], case["nyears"] - 1) if isinstance(p[1], int) else p[1], *p[2:]] for p in case[key]
        ]


@st.composite
def some_scenario(draw):
    case = draw(scen.scenario(min_years=2, max_years=10))
    if draw(st.integers(0, 2)) == 0:
        case["regional"] = draw(scen.regional_aerosols())
    return case


def inputs_from(draw, cases):
    """Some have shipped series, or inputs from files"""
    how = draw(st.integers(0, 5))
    if how == 0:
        chosen = draw(st.lists(st.sampled_from(["luc", "sun", "volc"]), unique=True, min_size=1))
        for case in cases:
            case.update(defaults=chosen, sunvolc=True, volc_cols=12)
            case["ny0"] = 1750 + (case["ny0"] + case["seed"]) % 700
        if len(cases) > 1 and draw(st.booleans()):
            # as many years of another period
            cases[1]["nyears"] = cases[0]["nyears"]
            fit_years(cases[1])
        for case in cases:
            # the shipped series end in 2500
            case["ny0"] = min(case["ny0"], 2501 - case["nyears"])
    elif how == 1:
        chosen = draw(st.lists(st.sampled_from(files.CHOICES), unique=True, min_size=1, max_size=4))
        for case in cases:
            files.fits_files(case, set(chosen))
            fit_years(case)
            case["files"] = chosen


@st.composite
def histories(draw):
    cases = [draw(some_scenario())]
    if draw(st.booleans()):
        other = draw(some_scenario())
        how = draw(st.integers(0, 5))
        if how == 0:
            # as many steps of another length
            first = cases[0]
            first["idtm"], first["nyears"], other["idtm"], other["nyears"] = draw(st.sampled_from(GRIDS))
            other = {**copy.deepcopy(first), "idtm": other["idtm"], "nyears": other["nyears"]}
            for case in (first, other):
                fit_years(case)
        elif how <= 2:
            # all the same but for a few things
            names = draw(st.lists(st.sampled_from(ALIKE), unique=True, min_size=1, max_size=2))
            if {"thermal", "udm"} & set(names):
                names = [*names, "thermal", "udm"]
            if {"carbon_model", "carbon"} & set(names):
                names = [*names, "carbon_model", "carbon"]
            theirs = other
            other = copy.deepcopy(cases[0])
            for key in names:
                if key in theirs:
                    other[key] = theirs[key]
                else:
                    other.pop(key, None)
            fit_years(other)
            for key in ("pert_em", "pert_forc"):
                other[key] = [p for p in other[key] if p[0] not in scen.VANILLA_ALL or p[0] in other["gases"]]
        cases.append(other)
    for case in cases:
        # reference years of the runs
        case["refs"] = [case["emi"].get("ref_yr", 2010), *draw(st.lists(st.sampled_from([2010, 2005, 1995, 2014]), max_size=1))]
    inputs_from(draw, cases)
    runs = []
    for _ in range(draw(st.integers(2, 4))):
        which = draw(st.integers(0, len(cases) - 1))
        case = cases[which]
        emi = draw(scen.emi_pams())
        # the tables of the scenario have its reference years
        emi.pop("ref_yr", None)
        ref_yr = draw(st.sampled_from(case["refs"]))
        if ref_yr != 2010 or draw(st.booleans()):
            emi["ref_yr"] = ref_yr
        if draw(st.integers(0, 3)) == 0:
            emi["just_one"] = draw(
                st.sampled_from(["CO2", "CH4", "SO2", "TROP_O3", "STRAT_O3", case["gases"][0]])
            )
        udm = draw(
            scen.udm_pams(ldtime=[1, 2, 3, 12])
            if case["thermal"] == "default"
            else scen.two_pams()
        )
        runs.append(
            {
                "which": which,
                "udm": udm if draw(st.booleans()) else {},
                "emi": emi,
                "carbon": draw(st.one_of(st.just({}), scen.carbon_pams(case["carbon_model"]))),
                "carbon_outputs": draw(st.booleans()),
                "none": draw(st.booleans()),
            }
        )
    return {"cases": cases, "runs": runs, "lazy": draw(st.booleans())}


# -- components used on their own ------------------------------------------


def thermal_steps(item):
    """Makes the model, then one step at a time"""
    from ciceroscm.component_factory_functions import create_thermal_model

    mod = sut(create_thermal_model(item["model"]), dict(item["pams"]))
    names = create_thermal_model(item["model"]).get_output_dict_thermal()
    out = {k: [] for k in names}
    yield None
    for i, (fn, fs) in enumerate(item["forc"]):
        if item["share"]:
            sut(mod.set_feedback_gregory, item["share"] * (i % 3) / 2.0)
        val = sut(mod.energy_budget, fn, fs, np.array(item["volc"]), np.array(item["volc"]))
        for key, name in names.items():
            out[key].append(float(val[name]))
        yield {k: np.array(v) for k, v in out.items()}


def carbon_steps(item):
    from ciceroscm.component_factory_functions import create_carbon_cycle_model

    ems = item["ems"]
    mod = sut(
        create_carbon_cycle_model,
        item["model"],
        {"idtm": item["idtm"], "nystart": 1900, "nyend": 1900 + len(ems) - 1},
        {**item["pams"], "preindustrial_co2_conc": 280.0},
    )
    yield None
    for again in range(1 + item["again"]):
        if again:
            sut(mod.reset_co2_hold)
        res = []
        for i, val in enumerate(ems):
            temp = {"feedback_dict": {"dtemp": item["temp"] * i / 5.0}} if item["temp"] else {}
            res.append(float(sut(mod.co2em2conc, 1900 + i, val, **temp)))
            yield {"co2": np.array(res)}


def steps(item):
    return (thermal_steps if item["kind"] == "thermal" else carbon_steps)(item)


def component_run(item):
    last = None
    for last in steps({**item, "again": False}):
        pass
    return last


def component_history(items, order):
    """Objects one after another, or step by step in turn"""
    if order == "after":
        return [list(steps(item))[-1] for item in items]
    todo = [steps(item) for item in items]
    last = [None] * len(items)
    if order == "made first":
        for gen in todo:
            next(gen)
    left = set(range(len(items)))
    while left:
        for i in sorted(left):
            try:
                last[i] = next(todo[i])
            except StopIteration:
                left.discard(i)
    return last


def check_components(case):
    items = case["items"]
    got = isolated(component_history, items, case["order"])
    for i, item in enumerate(items):
        want = isolated(component_run, item)
        for key, val in want.items():
            identical(f"{item['kind']} model {item['model']} number {i}: {key}", got[i][key], val)
    return {"nontrivial": len(items) > 1, "classes": [f"{i['kind']} {i['model']}" for i in items] + [case["order"]]}


@st.composite
def component_items(draw):
    items = []
    for _ in range(draw(st.integers(2, 4))):
        if items and draw(st.booleans()):
            # like the one before but for one thing
            item = copy.deepcopy(items[-1])
            if item["kind"] == "carbon":
                what = draw(st.sampled_from(["idtm", "steps", "steps", "ems", "pams"]))
                if what == "steps":
                    # as many steps of another length
                    items[-1]["idtm"], years, item["idtm"], others = draw(st.sampled_from(GRIDS))
                    for thing, num in ((items[-1], years), (item, others)):
                        thing["ems"] = (thing["ems"] * num)[:num]
                elif what == "idtm":
                    item["idtm"] = draw(st.sampled_from([24, 12, 4, 1]))
                elif what == "ems":
                    item["ems"] = [x + 0.5 for x in item["ems"]] + [1.0]
                else:
                    item["pams"]["beta_f"] = 0.37
            else:
                what = draw(st.sampled_from(["forc", "volc", "pams"]))
                if what == "forc":
                    item["forc"] = [[x[0] + 0.5, x[1]] for x in item["forc"]]
                elif what == "volc":
                    item["volc"] = [-2.0] * 12
                else:
                    item["pams"]["lambda"] = draw(st.sampled_from([0.4, 0.77, 1.3]))
            items.append(item)
            continue
        if draw(st.booleans()):
            model = draw(st.sampled_from(["default", "twolayer"]))
            items.append(
                {
                    "kind": "thermal",
                    "model": model,
                    "pams": draw(
                        scen.udm_pams(ldtime=[1, 2, 12]) if model == "default" else scen.two_pams()
                    ),
                    "forc": draw(
                        st.lists(st.tuples(scen.fl(-2, 4), scen.fl(-2, 4)).map(list), min_size=1, max_size=6)
                    ),
                    "volc": draw(st.sampled_from([[0.0] * 12, [-1.0] * 12])),
                    "share": draw(st.sampled_from([0.0, 0.0, 0.4])),
                }
            )
        else:
            model = draw(st.sampled_from(["default", "box"]))
            items.append(
                {
                    "kind": "carbon",
                    "model": model,
                    "pams": draw(scen.carbon_pams(model)),
                    "ems": draw(st.lists(scen.fl(0, 15), min_size=1, max_size=6)),
                    "idtm": draw(st.sampled_from([24, 12, 2])),
                    "temp": draw(st.sampled_from([0.0, 2.5])),
                    "again": draw(st.booleans()),
                }
            )
    return {"items": items, "order": draw(st.sampled_from(["after", "in turn", "made first"]))}


# -- forcing runs ------------------------------------------------------------


def forcing_object(case, folder):
    from ciceroscm import CICEROSCM

    return sut(CICEROSCM, forcrun.Forcing(case).cfg(folder))


def forcing_go(cscm, pams):
    sut(cscm._run, {"results_as_dict": True}, pamset_udm=dict(pams))  # pylint: disable=protected-access
    return cscm.results


def forcing_history(case):
    with contextlib.ExitStack() as stack:
        objects = [forcing_object(c, stack.enter_context(scratch_dir())) for c in case["cases"]]
        kept = [forcing_go(objects[run["which"]], run["udm"]) for run in case["runs"]]
        return [freeze(res) for res in kept]


def forcing_fresh(case, pams):
    with scratch_dir() as folder:
        return freeze(forcing_go(forcing_object(case, folder), pams))


def check_forcing(case):
    for run in case["runs"]:
        if forcrun.Forcing(case["cases"][run["which"]]).reference(run["udm"]) is None:
            return TRIVIAL
    got = isolated(forcing_history, case)
    for i, run in enumerate(case["runs"]):
        same(f"run {i} of object {run['which']}", got[i], isolated(forcing_fresh, case["cases"][run["which"]], run["udm"]))
    return {"nontrivial": True, "classes": [f"{len(case['cases'])} objects", *[c["thermal"] for c in case["cases"]]]}


@st.composite
def forcing_histories(draw):
    cases = draw(st.lists(forcrun.forcing_runs(max_years=8, delta=True), min_size=1, max_size=2))
    runs = []
    for _ in range(draw(st.integers(2, 3))):
        which = draw(st.integers(0, len(cases) - 1))
        pams = cases[which]["udm"]
        if draw(st.booleans()):
            pams = draw(scen.udm_pams(ldtime=[1, 2, 12]) if cases[which]["thermal"] == "default" else scen.two_pams())
        runs.append({"which": which, "udm": pams})
    return {"cases": cases, "runs": runs}


PROPERTY = {
    "id": "C01",
    "rule": (
        "A history of 2-4 runs with drawn parameters over one or two model objects (any thermal "
        "and carbon model) is run in one process, each run also with a fresh object in a fresh "
        "process; non-trivial when some object is run at least twice. Component histories: 2-4 "
        "thermal or carbon model objects (often alike) used one after another or step by step in turn, against fresh processes; histories of forcing runs."
    ),
    "subs": [
        Sub("reuse", histories, check, 220, 12000),
        Sub("components", component_items, check_components, 240, 10000),
        Sub("forcing runs", forcing_histories, check_forcing, 120, 5000),
    ],
}
