"""Carbon cycle outputs describe the run"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need

from . import c14
from .common import TRIVIAL, run_in_domain, scenario_classes

PG = 2.123


def airborne(conc, em, start):
    total = np.cumsum(em)
    if np.any(total == 0):
        return np.full(len(em), np.nan)
    return (conc - start) * PG / total


def land_of_pathway(case, conc, temps, start):
    """Land flux where the concentration of each year holds for all of the year"""
    cyc = ref.Carbon(case["carbon"], case["idtm"], len(conc), start)
    idtm = case["idtm"]
    npp = np.repeat([cyc.fnpp(t) * cyc.p["beta_f"] * np.log(c / start) for c, t in zip(conc, temps)], idtm)
    sink = npp.copy()
    for it in range(2, len(npp)):
        sink[it] -= np.dot(npp[1:it], cyc.rb[: it - 1][::-1]) / idtm
    return np.mean(sink.reshape(-1, idtm), axis=1)


def check(case):
    got = run_in_domain(case, carbon_outputs=True)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    need("carbon cycle" in res, "no carbon cycle results")
    table = res["carbon cycle"]
    close("years", np.asarray(table.index, dtype=float), inp.years)
    conc, temps = res["concentrations"]["CO2"].to_numpy(), res["dT_glob"]
    em = inp.win("emis", "CO2_FF") + inp.win("emis", "CO2_AFOLU")
    box = case["carbon_model"] == "box"
    start = 278.0 if box else inp.cin("CO2", inp.ny0)
    if box:
        cyc = ref.Box(case["carbon"])
        npp = [cyc.npp_at(c, t) for c, t in zip(conc, temps)]
        uptake = [cyc.uptake_at(c, t) for c, t in zip(conc, temps)]
        close("net primary production", table["Net primary production"].to_numpy(), npp)
        close("ocean flux", table["Ocean carbon flux"].to_numpy(), uptake, atol=1e-9)
        if not inp.conc_run:
            close("airborne fraction", table["Airborne fraction CO2"].to_numpy(), airborne(conc, em, start), rtol=1e-7)
    else:
        cyc = ref.carbon(inp)
        close("mixed layer depth", table["Mixed layer depth"].to_numpy(), [cyc.depth(t) for t in temps])
        close("solubility", table["CO2 solubility"].to_numpy(), [cyc.solubility(t) for t in temps])
        close("production", table["Net Primary Production"].to_numpy(), [cyc.fnpp(t) for t in temps])
        if inp.conc_run:
            path = dict(case, co2_0=start)
            if c14.solve(path, conc, temps) is None:
                return TRIVIAL
            em = table["Emissions"].to_numpy()
            for val, temp in zip(em, temps):
                cyc.step(val, temp)
            land = land_of_pathway(case, conc, temps, start)
        else:
            for i, val in enumerate(em):
                cyc.step(val + inp.gas["CO2"]["NAT_EM"], temps[i - 1] if i else 0.0)
            land = cyc.land_flux()
            need("Emissions" not in table.columns, "emissions calculated back in an emission run")
        close("land flux", table["Biosphere carbon flux"].to_numpy(), land, atol=1e-8)
        close("ocean flux", table["Ocean carbon flux"].to_numpy(), cyc.ocean_flux(), atol=1e-8)
        close("airborne fraction", table["Airborne fraction CO2"].to_numpy(), airborne(conc, em, start), rtol=1e-7)
    _, other = scen.run_model(case, carbon_outputs=False)
    need("carbon cycle" not in other, "carbon cycle results that were not asked for")
    return {
        "nontrivial": inp.nyears > 2 and np.max(np.abs(conc - conc[0])) > 0.1,
        "classes": [*scenario_classes(case), f"CO2 emissions {case['co2_kind']}"],
    }


@st.composite
def cases(draw):
    case = draw(
        scen.scenario(
            thermal=("twolayer", "default"), carbon=("default", "default", "box"), conc_run=(False, False, True),
            min_years=1, max_years=14, max_gases=1, emi=False,
        )
    )
    if case["conc_run"]:
        case["conc_amp"] = draw(st.sampled_from([0.0, 0.003, 0.01]))
        case["idtm"] = max(case["idtm"], 6)
    kind = draw(st.sampled_from(["some"] * 12 + ["none"] + 2 * ["stop", "gaps", "start", "exact zero"]))
    if kind != "some":
        case["co2_off"] = 0.0
        case["pert_em"] = [p for p in case["pert_em"] if not p[0].startswith("CO2")]
    if kind == "none":
        case["co2_scale"] = 0.0
    elif kind == "exact zero":
        # emissions that have been taken up again in one of the years
        case["co2_zero"] = draw(st.integers(1, 13))
    elif kind != "some":
        case.setdefault("em_special", {}).update({"CO2_FF": kind, "CO2_AFOLU": kind})
    case["co2_kind"] = kind
    return case


PROPERTY = {
    "id": "C15",
    "rule": (
        "Emission and concentration runs of 1-14 years with both carbon cycles, drawn emissions (also without any, "
        "with years without any, or with a sum that comes back to zero), parameters and perturbations; the reported concentrations, temperatures and "
        "emissions drive the reference, whose fluxes are compared. Non-trivial: more than 2 years and a "
        "change of more than 0.1 ppm."
    ),
    "subs": [Sub("outputs", cases, check, 700, 25000)],
}
