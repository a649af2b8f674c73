"""Runs cover their years and inputs are used in their years"""

import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import REPO_SRC, Sub, close, need, scratch_dir, sut

from . import c21, files, thermal
from .common import TRIVIAL, check_years, compare_full, scenario_classes

FILES = {"luc": "IPCC_LUCalbedo.txt", "sun": "solar_IPCC.txt", "volc": "meanVOLCmnd_ipcc_NH.txt"}


def shipped(which, first, num):
    """Rows of a default file: the first one is for 1750"""
    with open(os.path.join(REPO_SRC, "ciceroscm", "default_data", FILES[which]), encoding="ascii") as fin:
        rows = [[float(x) for x in line.split()] for line in fin if line.strip()]
    return np.array(rows[first - 1750 : first - 1750 + num])


def run(cfg, inp, carbon=False):
    return c21.run(cfg, inp, carbon)


def own_or_shipped(inp, case, cfg):
    """Take series that the case does not give out of cfg, and put the shipped ones into inp"""
    if "luc" in case["defaults"]:
        cfg.pop("rf_luc_data")
        inp.luc = shipped("luc", inp.ny0, inp.nyears)[:, 0]
    if case["sunvolc"] and "sun" in case["defaults"]:
        cfg.pop("rf_sun_data")
        inp.sun = inp.sun_in = shipped("sun", inp.ny0, inp.nyears)[:, 0]
    if case["sunvolc"] and "volc" in case["defaults"]:
        for key in ("rf_volc_data", "rf_volc_n_data", "rf_volc_s_data"):
            cfg.pop(key, None)
        inp.volc_n = inp.volc_s = shipped("volc", inp.ny0, inp.nyears)


def check_defaults(case):
    """Default land use, sun and volcanoes in the right years"""
    inp = scen.Inputs(case)
    cfg = inp.cfg()
    own_or_shipped(inp, case, cfg)
    want = ref.try_full_run(inp)
    if want is None:
        return TRIVIAL
    res = run(cfg, inp)
    compare_full(inp, res, want)
    return {
        "nontrivial": bool(case["defaults"]) and np.max(np.abs(inp.luc)) + np.max(np.abs(inp.sun)) > 0,
        "classes": scenario_classes(case) + [f"default {d}" for d in case["defaults"]],
    }


@st.composite
def default_cases(draw):
    case = draw(scen.scenario(min_years=1, max_years=12, max_gases=2))
    case["ny0"] = draw(st.one_of(st.sampled_from([1750, 1751, 2000, 2001]), st.integers(1750, 2490)))
    case["ny0"] = min(case["ny0"], 2501 - case["nyears"])  # the shipped series end in 2500
    case["sunvolc"] = draw(st.sampled_from([True, True, False]))
    case["defaults"] = draw(st.lists(st.sampled_from(sorted(FILES)), unique=True, min_size=1))
    return case


def check_forcing_defaults(case):
    """Default sun and volcanoes in forcing runs, any period up to 2500"""
    from ciceroscm import CICEROSCM

    num, first = case["nyears"], case["ny0"]
    sun = shipped("sun", first, num)[:, 0]
    volc = shipped("volc", first, num)
    forc = case["amp"] * scen.rng_for(case["seed"], "f").uniform(-1, 1, num)
    want = thermal.reference(case["thermal"], case["pams"], (forc + sun, forc + sun, volc, volc))
    if want is None:
        return TRIVIAL
    cfg = {
        "nystart": first,
        "nyend": first + num - 1,
        "sunvolc": 1,
        "thermal_model": case["thermal"],
        "forc_data": forc,
    }
    cscm = sut(CICEROSCM, cfg)
    sut(cscm._run, {"results_as_dict": True}, pamset_udm=dict(case["pams"]))  # pylint: disable=protected-access
    res = cscm.results
    close("solar forcing", res["Solar_forcing"], sun)
    close("volcanic forcing north", res["Volcanic_forcing_NH"], np.mean(volc, axis=1))
    close("volcanic forcing south", res["Volcanic_forcing_SH"], np.mean(volc, axis=1))
    close("total forcing", res["Total_forcing"], forc + sun)
    for key in ref.thermal_out(case["thermal"]):
        close(key, res[key], want[key])
    return {"nontrivial": num > 1, "classes": [f"century {first // 100}", f"thermal {case['thermal']}"]}


@st.composite
def forcing_cases(draw):
    model = draw(st.sampled_from(["default", "twolayer"]))
    num = draw(st.integers(1, 30))
    return {
        "seed": draw(st.integers(0, 10**6)),
        "ny0": draw(st.one_of(st.sampled_from([1750, 1751, 2501 - num]), st.integers(1750, 2501 - num))),
        "nyears": num,
        "amp": draw(scen.maybe(0.0, scen.fl(0.0, 5.0))),
        "thermal": model,
        "pams": draw(scen.udm_pams(ldtime=[1, 2, 12]) if model == "default" else scen.two_pams()),
    }


def lengthen(table, lo, hi, rng):
    """The table with other numbers in more years before and after"""
    first, last = table.index[0], table.index[-1]
    parts = [table]
    for years in (range(first - lo, first), range(last + 1, last + 1 + hi)):
        fill = pd.DataFrame(
            {c: np.abs(table[c].to_numpy()).mean() * rng.uniform(0.3, 3.0, len(years)) for c in table.columns},
            index=list(years),
        )
        parts = [fill, *parts] if years.stop == first else [*parts, fill]
    return pd.concat([p for p in parts if len(p)])


def check_longer(case):
    """Rows for years outside the run have no effect"""
    if ref.try_full_run(scen.Inputs(case)) is None:
        return TRIVIAL
    inp = scen.Inputs(case)
    want = run(inp.cfg(), inp, not case["conc_run"])
    cfg = inp.cfg()
    rng = scen.rng_for(case["seed"], "longer")
    for i, key in enumerate(["emissions_data", "concentrations_data", "nat_ch4_data", "nat_n2o_data"]):
        if key in cfg:
            cfg[key] = lengthen(cfg[key], *case["more"][i], rng)
    for key in cfg:
        if key.startswith("rf_") and case["more"][0][1]:
            # forcing tables begin in the first year of the run
            cfg[key] = lengthen(cfg[key], 0, case["more"][1][1], rng)
    res = run(cfg, inp, not case["conc_run"])
    check_years(inp, res)
    c21.compare(res, want, 1e-11)
    return {
        "nontrivial": inp.nyears > 1 and any(sum(m) for m in case["more"]),
        "classes": scenario_classes(case) + ["before" if any(m[0] for m in case["more"]) else "not before"],
    }


@st.composite
def longer_cases(draw):
    case = draw(scen.scenario(min_years=1, max_years=10, max_gases=4))
    case["more"] = [[draw(st.integers(0, 6)), draw(st.integers(0, 6))] for _ in range(4)]
    return case


def check_off(case):
    """Sun and volcanoes are zero if they are not switched on, whatever is given"""
    inp = scen.Inputs(case)
    cfg = inp.cfg()
    if case["flag"] is None:
        cfg.pop("sunvolc")
    else:
        cfg["sunvolc"] = case["flag"]
    want = ref.try_full_run(inp)
    if want is None:
        return TRIVIAL
    with scratch_dir() as folder:
        for name, arr in (
            ("rf_sun", inp.sun_in.reshape(-1, 1) + 1.0),
            ("rf_volc", inp.volc_n_in - 1.0),
            ("rf_volc_n", inp.volc_n_in - 2.0),
            ("rf_volc_s", inp.volc_s_in - 3.0),
        ):
            if name in case["given_data"]:
                cfg[f"{name}_data"] = pd.DataFrame(arr, index=inp.years)
            if name in case["given_files"] and inp.ny0 >= 1750:
                cfg[f"{name}_file"] = os.path.join(folder, f"{name}.txt")
                files.write_rows(cfg[f"{name}_file"], files.padded(arr, inp.ny0, inp.nyend))
        res = run(cfg, inp)
    for key in ("Solar_forcing", "Volcanic_forcing_NH", "Volcanic_forcing_SH"):
        need(not np.any(res[key]), f"{key} is not zero")
    compare_full(inp, res, want)
    return {
        "nontrivial": bool(case["given_data"] or case["given_files"]),
        "classes": scenario_classes(case) + [f"given {g}" for g in case["given_data"]],
    }


@st.composite
def off_cases(draw):
    case = draw(scen.scenario(min_years=1, max_years=6, max_gases=2))
    case["sunvolc"] = False
    case["flag"] = draw(st.sampled_from([0, None, False]))
    names = st.lists(st.sampled_from(["rf_sun", "rf_volc", "rf_volc_n", "rf_volc_s"]), unique=True)
    case["given_data"], case["given_files"] = draw(names), draw(names)
    return case


PROPERTY = {
    "id": "C24",
    "rule": (
        "Periods of 1-30 years anywhere in 1750-2500 with some of the default series, against the rows of the "
        "shipped files for these years (read separately) and the reference model; tables lengthened by up to 6 "
        "years on either side with other numbers; sun and volcanoes given but switched off. Non-trivial: a default, "
        "extra row or switched off series is there."
    ),
    "subs": [
        Sub("defaults", default_cases, check_defaults, 300, 10000),
        Sub("defaults in forcing runs", forcing_cases, check_forcing_defaults, 300, 10000),
        Sub("longer tables", longer_cases, check_longer, 300, 10000),
        Sub("switched off", off_cases, check_off, 200, 6000),
    ],
}
