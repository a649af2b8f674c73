"""The future does not change the past"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need, scratch_dir

from . import c21, forcrun
from .common import TRIVIAL, scenario_classes


def compare_until(res, want, num):
    """The first num years are the same"""
    for key, val in want.items():
        if isinstance(val, np.ndarray):
            close(f"{key} before the change", res[key][:num], val[:num], 1e-11, atol=1e-300)
            continue
        need(set(val.columns) == set(res[key].columns), f"columns of {key}")
        for col in val.columns:
            one = res[key][col].to_numpy(dtype=float)[:num]
            two = val[col].to_numpy(dtype=float)[:num]
            close(f"{col} in {key} before the change", one, two, 1e-11, atol=1e-300)


def changed(table, first, keep, rng, amp, add=0.0):
    """Rows from year first on multiplied and shifted at random, but for the years in keep"""
    table = table.astype(float)
    rows = [yr for yr in table.index if yr >= first and yr not in keep]
    if rows:
        shape = (len(rows), table.shape[1])
        vals = table.loc[rows].to_numpy(dtype=float)
        table.loc[rows] = vals * np.exp(amp * rng.uniform(-1, 1, shape)) + add * rng.uniform(-1, 1, shape)
    return table


def check_change(case):
    if ref.try_full_run(scen.Inputs(case)) is None:
        return TRIVIAL
    inp = scen.Inputs(case)
    want = c21.run(inp.cfg(), inp, case["carbon_out"])
    num = 1 + case["split"] % max(inp.nyears - 1, 1)
    first = inp.ny0 + num
    keep = {2000, inp.ref_yr}
    rng = scen.rng_for(case["seed"], "future")
    cfg = inp.cfg()
    for key in case["what"]:
        if key in ("emissions_data", "concentrations_data"):
            cfg[key] = changed(cfg[key], first, keep, rng, 0.3)
        elif key in cfg and key.startswith("nat"):
            cfg[key] = changed(cfg[key], first, set(), rng, 0.2)
        elif key in cfg and key.startswith("rf"):
            cfg[key] = changed(cfg[key], first, set(), rng, 0.0, 2.0)
        elif key.startswith("pert"):
            table = inp.pert_df("pert_em" if "em" in key else "pert_forc")
            rows = [table] if len(table) else []
            val = "emission" if "em" in key else "forcing"
            more = table.iloc[:0].astype({val: float})
            for yr in range(first, inp.nyend + 1):
                if yr not in keep:
                    comp = ["CO2", "CH4", "SO2"][yr % 3]
                    more.loc[len(more)] = [comp, "unit", "src", yr, rng.uniform(-2, 2)]
            if len(more):
                import pandas as pd

                cfg[key] = pd.concat([*rows, more.astype({"year": int, val: float})], ignore_index=True)
    # a run that is in the valid domain until the split may leave it later, so errors
    # of the changed run are only counted when it stays in the domain
    from pbt.core import Violation

    try:
        res = c21.run(cfg, inp, case["carbon_out"])
    except Violation:
        return TRIVIAL
    compare_until(res, want, num)
    late = any(
        isinstance(v, np.ndarray) and np.any(np.abs(res[k][num:] - v[num:]) > 1e-6) for k, v in want.items()
    )
    return {"nontrivial": bool(late), "classes": scenario_classes(case) + [f"changed {w}" for w in case["what"] if w in cfg]}


WHAT = [
    "emissions_data", "concentrations_data", "nat_ch4_data", "nat_n2o_data", "rf_luc_data", "rf_sun_data",
    "rf_volc_data", "rf_volc_n_data", "rf_volc_s_data", "perturb_em_data", "perturb_forc_data",
]  # fmt: skip


@st.composite
def change_cases(draw):
    case = draw(scen.scenario(min_years=2, max_years=16, max_gases=4))
    case["split"] = draw(st.integers(0, 15))
    case["what"] = draw(st.lists(st.sampled_from(WHAT), unique=True, min_size=1))
    if draw(st.booleans()):
        # emissions that are out of the ordinary, and change
        case["em_special"] = draw(
            st.dictionaries(
                st.sampled_from(["CH4", "N2O", *scen.NEEDED_EMIS, *case["gases"]]),
                st.sampled_from(scen.SPECIALS),
                max_size=5,
            )
        )
        how = draw(st.sampled_from(["", "CH4", "N2O", "N2O"]))
        if how:
            # the change comes after the first of the years out of the ordinary
            case["em_special"][how] = draw(st.sampled_from(["sink", "negative", "stop"]))
            case["split"] = case["nyears"] // 2
            case["conc_run"] = False
        case["what"] = sorted({"emissions_data", *case["what"]})
    case["carbon_out"] = draw(st.booleans()) and not (case["carbon_model"] == "box" and case["conc_run"])
    return case


def check_shorter(case):
    """A run that ends earlier has the same years"""
    if ref.try_full_run(scen.Inputs(case)) is None:
        return TRIVIAL
    inp = scen.Inputs(case)
    want = c21.run(inp.cfg(), inp, case["carbon_out"])
    num = 1 + case["split"] % max(inp.nyears - 1, 1)
    cfg = inp.cfg()
    cfg["nyend"] = inp.ny0 + num - 1
    if case["cut"]:
        for key in cfg:
            if key.startswith(("rf_", "nat_")):
                cfg[key] = cfg[key].iloc[:num]
        if not case.get("pert_em"):
            last = max(cfg["nyend"], 2000, inp.ref_yr)
            for key in ("emissions_data", "concentrations_data"):
                cfg[key] = cfg[key].loc[:last]
    res = c21.run(cfg, inp, case["carbon_out"])
    for key, val in res.items():
        need(len(val) == num, f"{key} has {len(val)} years instead of {num}")
    compare_until(res, want, num)
    return {
        "nontrivial": inp.nyears > num and num > 1,
        "classes": scenario_classes(case) + (["tables cut"] if case["cut"] else ["tables longer"]),
    }


@st.composite
def shorter_cases(draw):
    case = draw(scen.scenario(min_years=2, max_years=16, max_gases=4))
    case["split"] = draw(st.integers(0, 15))
    case["cut"] = draw(st.booleans())
    case["carbon_out"] = draw(st.booleans()) and not (case["carbon_model"] == "box" and case["conc_run"])
    return case


def check_forcing(case):
    forcing = forcrun.Forcing(case)
    if forcing.reference() is None:
        return TRIVIAL
    num = 1 + case["split"] % max(case["nyears"] - 1, 1)
    with scratch_dir() as folder:
        want = forcrun.run(forcing.cfg(folder), case["udm"])
        other = forcrun.Forcing(case)
        rng = scen.rng_for(case["seed"], "future")
        start = other.ny0 - other.t0 + num
        for arr in [*other.comp.values()] + ([other.w_given] if other.w_given is not None else []):
            arr[start:] *= rng.uniform(0, 1)
        for name in ("total", "north", "south"):
            arr = getattr(other, name).copy()
            arr[start:] += 1.0
            setattr(other, name, arr)
        other.sun_in[num:] += 0.5
        res = forcrun.run(other.cfg(folder), case["udm"])
        cfg = forcing.cfg(folder)
        cfg["nyend"] = case["ny0"] + num - 1
        short = forcrun.run(cfg, case["udm"])
    compare_until(res, want, num)
    for key, val in short.items():
        need(len(val) == num, f"{key} has {len(val)} years instead of {num}")
    compare_until(short, want, num)
    return {"nontrivial": case["nyears"] > num, "classes": forcrun.labels(case)}


@st.composite
def forcing_cases(draw):
    case = draw(forcrun.forcing_runs(max_years=16))
    case["split"] = draw(st.integers(0, 15))
    return case


PROPERTY = {
    "id": "C25",
    "rule": (
        "Runs that agree up to a drawn year: some of the inputs changed after it (but for 2000 and the reference "
        "year, which ozone and methane lifetime refer to), or a period that ends there, compared with the "
        "original run up to that year. Non-trivial: something after the year differs, or years are cut off."
    ),
    "subs": [
        Sub("changed future", change_cases, check_change, 600, 12000),
        Sub("shorter run", shorter_cases, check_shorter, 350, 12000),
        Sub("forcing run", forcing_cases, check_forcing, 250, 8000),
    ],
}
