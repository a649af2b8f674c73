"""Things that several properties use"""

import numpy as np

from pbt import ref, scen
from pbt.core import close, need

TRIVIAL = {"nontrivial": False, "classes": ["left the valid domain"]}


def run_in_domain(case, **kwargs):
    """
    Inputs, results of the code under test and of the reference model

    None if the reference model says that the scenario leaves the valid domain
    """
    expected = ref.try_full_run(scen.Inputs(case))
    if expected is None:
        return None
    inp, res = scen.run_model(case, **kwargs)
    return inp, res, expected


def forc_name(gas):
    """Name of the column in the forcing results"""
    return "SO4_DIR" if gas == "SO2" else gas


def forc_of(inp, res):
    """Forcing results of all components"""
    return {g: res["forcing"][forc_name(g)].to_numpy(dtype=float) for g in inp.gas}


def conc_of(inp, res):
    """Concentration results of all gases"""
    return {
        g: res["concentrations"][g].to_numpy(dtype=float)
        for g in [*scen.MAIN, *inp.vanilla]
    }


def check_years(inp, res):
    """All tables are on the years of the run, all series are that long"""
    for name in ("emissions", "concentrations", "forcing"):
        table = res[name]
        close(f"years of {name}", table["Year"].to_numpy(), inp.years)
        close(f"index of {name}", np.asarray(table.index, dtype=float), inp.years)
    for key, val in res.items():
        if isinstance(val, np.ndarray):
            need(val.shape == (inp.nyears,), f"{key} has shape {val.shape}")


def scenario_classes(case):
    """Labels that show how much of the input space was reached"""
    labels = [
        f"thermal {case['thermal']}",
        f"carbon {case['carbon_model']}",
        "concentration run" if case["conc_run"] else "emission run",
        f"idtm {case['idtm']}",
    ]
    if not case["conc_run"]:
        off = case["em_off"]
        labels.append(
            "emissions start before the run"
            if off < 0
            else "emissions start with the run"
            if off == 0
            else "emissions start after the run"
            if off >= case["nyears"]
            else "emissions start in the last year"
            if off == case["nyears"] - 1
            else "emissions start within the run"
        )
    if case["nyears"] >= 60:
        labels.append("60 years or more")
    if case["sunvolc"]:
        labels.append(f"{case['volc_cols']} volcanic values a year")
    for key in ("pert_em", "pert_forc", "aero_alpha", "regional", "made", "em_special", "conc_special"):
        if case.get(key):
            labels.append(key)
    for key, val in case.get("emi", {}).items():
        if key in ("lifetime_mode", "just_one"):
            labels.append(f"{key} {val if key == 'lifetime_mode' else ''}".strip())
    return labels


def compare_full(inp, res, expected, rtol=1e-8):
    """All outputs against the coupled reference model"""
    check_years(inp, res)
    for gas, val in expected["conc"].items():
        close(f"concentration of {gas}", res["concentrations"][gas].to_numpy(), val, rtol)
    for gas, val in expected["forc"].items():
        close(f"forcing of {gas}", res["forcing"][forc_name(gas)].to_numpy(), val, rtol)
    close("total forcing", res["Total_forcing"], expected["series"]["total"], rtol)
    close(
        "total forcing in table",
        res["forcing"]["Total_forcing"].to_numpy(),
        expected["series"]["total"],
        rtol,
    )
    close("solar forcing", res["Solar_forcing"], inp.sun)
    close("volcanic forcing north", res["Volcanic_forcing_NH"], np.mean(inp.volc_n, axis=1))
    close("volcanic forcing south", res["Volcanic_forcing_SH"], np.mean(inp.volc_s, axis=1))
    for key, val in expected["thermal"].items():
        close(key, res[key], val, rtol)
    for comp in inp.em_components():
        if comp not in ("CO2_FF", "CO2_AFOLU"):
            close(f"emissions of {comp}", res["emissions"][comp].to_numpy(), inp.win("emis", comp))
    close(
        "emissions of CO2",
        res["emissions"]["CO2"].to_numpy(),
        inp.win("emis", "CO2_FF") + inp.win("emis", "CO2_AFOLU"),
    )


def max_forcing(res):
    return float(np.max(np.abs(res["Total_forcing"]))) if len(res["Total_forcing"]) else 0.0


def perturbation_of(inp):
    """Forcing perturbations per component, summed over rows"""
    out = {g: np.zeros(inp.nyears) for g in inp.gas}
    for comp, off, val in inp.case.get("pert_forc", []):
        if comp in out and 0 <= off < inp.nyears:
            out[comp][off] += val
    return out


def drive_thermal(inp, forc, just_one=None):
    """
    Total forcing, and outputs of the reference thermal model, for the component
    forcings forc (perturbations included)
    """
    pert = perturbation_of(inp)
    clean = {g: forc[g] - pert[g] for g in forc}
    total, north, south = ref.total_and_hemispheres(inp, forc, just_one)
    weight = ref.aerosol_weight(inp, clean, forc)
    out = ref.run_thermal(
        inp.case["thermal"], inp.case.get("udm", {}), north, south, inp.volc_n, inp.volc_s, weight
    )
    return total, out
