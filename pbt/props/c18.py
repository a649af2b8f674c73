"""Temperature, heat content and imbalance fit together"""

import numpy as np

from pbt import ref, scen
from pbt.core import Sub, close, need

from . import c17, thermal
from .common import TRIVIAL, drive_thermal, forc_of, run_in_domain, scenario_classes

HEAT = 1030.0 * 3.997e-19 * 2.55e14  # 10^22 J per K and m of one hemisphere
C1 = 1.03 * 0.955 * 0.485 * 100.0 * 86400.0


def relations(pams, res):
    """Relations between reported temperatures"""
    p = {**ref.UDM_DEFAULTS, **pams}
    scale = max(np.max(np.abs(res[k])) for k in c17.TEMPS)
    for part, suffix in (("", ""), ("_air", "_air"), ("_sea", "_sea")):
        south = res["dT_SHsea"] if part == "_sea" else res["dT_SH" + suffix]
        close(f"global{part}", res["dT_glob" + suffix], 0.5 * (res["dT_NH" + suffix] + south), scale=scale)
    for hem, frac, sea in (("NH", p["foan"], "dT_NH_sea"), ("SH", p["foas"], "dT_SHsea")):
        close(
            f"blended temperature {hem}",
            res[f"dT_{hem}"],
            frac * res[sea] + (1.0 - frac) * res[f"dT_{hem}_air"],
            scale=scale,
        )
    rib = max(np.max(np.abs(res[k])) for k in ("RIB_N", "RIB_S"))
    close("global imbalance", res["RIB_glob"], 0.5 * (res["RIB_N"] + res["RIB_S"]), scale=rib)


def upper(depths, top=700.0):
    """Metres of each layer above top"""
    bottom = np.cumsum(depths)
    return np.clip(np.minimum(bottom, top) - (bottom - depths), 0.0, None)


def check_component(case):
    forc = thermal.forcing_of(case)
    pams = case["pams"]
    want = thermal.reference("default", pams, forc)
    if want is None:
        return TRIVIAL
    raw = []
    res = thermal.drive("default", pams, forc, raw=raw)
    relations(pams, res)
    for key in ("RIB_glob", "RIB_N", "RIB_S", "OHC700", "OHCTOT"):
        close(key, res[key], want[key])
    p = {**ref.UDM_DEFAULTS, **pams}
    lam = 1.0 / p["lambda"]
    eff = p["ocean_efficacy"] == 1.0
    if eff:
        for key, temp, fval, volc in (("RIB_N", "dT_NH", forc[0], forc[2]), ("RIB_S", "dT_SH", forc[1], forc[3])):
            rib = fval + np.mean(volc, axis=1) - lam * res[temp]
            close(f"{key} from forcing and feedback", res[key], rib, scale=np.max(np.abs(fval)) + np.max(np.abs(volc)))
    if all("tn" in vals and "ts" in vals for vals in raw):
        depths = np.full(int(p["lm"]), 100.0)
        depths[0] = p["mixed"]
        layers = [HEAT * (v["tn"] * p["foan"] + v["ts"] * p["foas"]) for v in raw]
        close("OHCTOT of all layers", res["OHCTOT"], [np.sum(l * depths) for l in layers])
        close("OHC700 of the top layers", res["OHC700"], [np.sum(l * upper(depths)) for l in layers])
    balanced = eff and p["ebbeta"] == 0.0
    if balanced:
        # heat gained in a year is the mean over the steps of forcing minus feedback of
        # the air temperature (not with ebbeta, as that exchange is explicit in time)
        steps = int(p["ldtime"])
        part = np.arange(1, steps + 1) / steps
        at = np.arange(steps)
        gain = np.zeros(case["nyears"])
        size = np.zeros(case["nyears"])
        for fval, volc, temp in ((forc[0], forc[2], "dT_NH_air"), (forc[1], forc[3], "dT_SH_air")):
            before = np.concatenate([[0.0], fval[:-1]])
            mean = fval * np.mean(part) + before * np.mean(1.0 - part) + np.mean(volc[:, at % volc.shape[1]], axis=1)
            gain += mean - lam * res[temp]
            size += np.abs(mean) + np.abs(lam * res[temp])
        heat = gain * ref.YEAR_S / C1 * HEAT
        scale = np.max(size) * ref.YEAR_S / C1 * HEAT + np.max(np.abs(res["OHCTOT"]))
        close("gain of heat from the imbalance", np.diff(res["OHCTOT"], prepend=0.0), heat, scale=scale)
    return {
        "nontrivial": case["nyears"] > 1 and np.max(np.abs(want["dT_glob"])) > 0.01,
        "classes": c17.labels(case) + (["heat balance closed"] if balanced else []),
    }


def check_run(case):
    got = run_in_domain(case, carbon_outputs=False)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    relations(case["udm"], res)
    _, want = drive_thermal(inp, forc_of(inp, res), case["emi"].get("just_one"))
    for key in ("RIB_glob", "RIB_N", "RIB_S", "OHC700", "OHCTOT"):
        close(f"{key} for the forcing of the components", res[key], want[key])
    need(len(res["dT_glob"]) == inp.nyears, "years")
    return {
        "nontrivial": inp.nyears > 2 and np.max(np.abs(res["dT_glob"])) > 0.01,
        "classes": scenario_classes(case),
    }


def run_cases():
    return scen.scenario(thermal=("default",), min_years=1, max_years=12, max_gases=2)


PROPERTY = {
    "id": "C18",
    "rule": (
        "Thermal histories as for C17 and whole runs; relations between outputs, layer sums, imbalance and "
        "the closed heat balance of every year. Non-trivial: warming above 0.01 K over more than a year."
    ),
    "subs": [
        Sub("component", thermal.histories, check_component, 700, 30000),
        Sub("run", run_cases, check_run, 250, 8000),
    ],
}
