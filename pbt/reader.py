"""What the variables of an ensemble are, from the results of single runs"""

import numpy as np

from .scen import MAIN

ERF = "Effective Radiative Forcing"
ANT = f"{ERF}|Anthropogenic"
AER = f"{ANT}|Aerosol"
ARI = f"{AER}|Aerosol-radiation Interactions"
CONC = "Atmospheric Concentrations"

TEMPS = {
    "Surface Air Temperature Change": "dT_glob_air",
    "Surface Air Ocean Blended Temperature Change": "dT_glob",
    "Surface Air Ocean Temperature Change": "dT_glob_sea",
}
FORC_SUMS = {
    AER: ["BC", "OC", "SO4_DIR", "SO4_IND"],
    ARI: ["BC", "OC", "SO4_DIR"],
    f"{ARI}|BC": ["BC"],
    f"{ARI}|OC": ["OC"],
    f"{ARI}|Sulfate": ["SO4_DIR"],
    f"{ERF}|Aerosols|Direct Effect|SOx": ["SO4_DIR"],
    f"{AER}|Aerosol-cloud Interactions": ["SO4_IND"],
    f"{ANT}|CO2": ["CO2"],
    f"{ANT}|CH4": ["CH4"],
    f"{ANT}|N2O": ["N2O"],
    f"{ANT}|Other|Stratospheric H2O": ["STRAT_H2O"],
    f"{ANT}|Ozone|Stratospheric Contribution": ["STRAT_O3"],
    f"{ANT}|Ozone|Tropospheric Contribution": ["TROP_O3"],
}
HFC = ["125", "134a", "143a", "152a", "227ea", "236fa", "23", "245fa", "32", "365mfc", "4310mee"]
PFC = ["C2F6", "C3F8", "C4F10", "C5F12", "C6F14", "C7F16", "C8F18", "cC4F8", "CF4"]
FGAS = {f"HFC{x}": f"HFC|HFC{x}" for x in HFC}
FGAS.update({x: f"PFC|{x}" for x in PFC})
FGAS.update({x: x for x in ("NF3", "SF6", "SO2F2")})
MONTREAL = {f"CFC-{x}": f"CFC|CFC{x}" for x in (11, 12, 113, 114, 115)}
MONTREAL.update({f"H-{x}": f"Halon{x}" for x in (1202, 1211, 1301, 2402)})
MONTREAL.update({f"HCFC-{x}": f"HCFC{x}" for x in ("123", "142b", "141b", "22")})
MONTREAL.update({x: x for x in ("CH3Br", "CCl4", "CH3CCl3", "CHCl3", "CH3Cl", "CH2Cl2")})
GHG_OTHER = [*MAIN, "TROP_O3", "STRAT_O3", "STRAT_H2O"]
CARBON = {
    "Carbon Flux|Land": "Pg C / yr",
    "Carbon Flux|Ocean": "Pg C / yr",
    "Airborne fraction CO2": "Unitless",
    "Carbon Pool|Land": "Pg C",
    "Carbon Pool|Ocean": "Pg C",
    "Net Flux to Atmosphere|CO2": "Pg C / yr",
}
# names that no model has
UNKNOWN = [
    "Emissions|Unobtainium",
    f"{CONC}|Unobtainium",
    f"{ANT}|Unobtainium",
    "Carbon Flux",
    "Sea Level Rise",
    "Surface Temperature",
    "Heat Content",
]


def names(inp, carbon=True):
    """All variables that can be asked for with this gas table"""
    out = [*TEMPS, ERF, ANT, *FORC_SUMS, f"{ERF}|Greenhouse Gases", f"{ANT}|F-Gases"]
    out += ["Heat Uptake", "Heat Content|Ocean", "Heat Content|Ocean|0-700m"]
    for gas in MAIN:
        out += [f"Emissions|{gas}", f"{CONC}|{gas}"]
    for kind, table in (("F-Gases", FGAS), ("Montreal Gases", MONTREAL)):
        for gas, label in table.items():
            if gas in inp.vanilla:
                out += [f"{ANT}|{kind}|{label}", f"{CONC}|{kind}|{label}"]
    if carbon and inp.case["carbon_model"] == "default":
        out += list(CARBON)
    return out


def emission_unit(inp, gas):
    unit = inp.gas[gas]["EM_UNIT"]
    if gas == "N2O" and unit == "Tg_N":
        return "TgN2ON / yr"
    if "_" in unit:
        return f"{unit.replace('_', '')} / yr"
    return f"{unit}{gas} / yr"


def expected(inp, res, variable):
    """Values and unit of a variable, or None if the model does not have it"""
    if variable in UNKNOWN:
        return None
    # forcing runs have no table of forcings
    forc = res.get("forcing")

    def total(parts):
        return np.sum([forc[p].to_numpy() for p in parts if p in forc], axis=0)

    if variable in TEMPS:
        if TEMPS[variable] not in res:
            return None
        return res[TEMPS[variable]], "K"
    if variable == ERF:
        volc = 0.5 * (res["Volcanic_forcing_NH"] + res["Volcanic_forcing_SH"])
        return res["Total_forcing"] + volc + res["Solar_forcing"], "W/m^2"
    if variable == ANT:
        return res["Total_forcing"], "W/m^2"
    if variable in FORC_SUMS:
        return total(FORC_SUMS[variable]), "W/m^2"
    if variable == f"{ANT}|F-Gases":
        return total(FGAS) if inp_has(forc, FGAS) else np.zeros(inp.nyears), "W/m^2"
    if variable == f"{ERF}|Greenhouse Gases":
        return total([*FGAS, *MONTREAL, *GHG_OTHER]), "W/m^2"
    for kind, table in (("F-Gases", FGAS), ("Montreal Gases", MONTREAL)):
        for gas, label in table.items():
            if variable == f"{ANT}|{kind}|{label}":
                return forc[gas].to_numpy(), "W/m^2"
            if variable == f"{CONC}|{kind}|{label}":
                return res["concentrations"][gas].to_numpy(), inp.gas[gas]["CONC_UNIT"]
    for gas in MAIN:
        if variable == f"{CONC}|{gas}":
            return res["concentrations"][gas].to_numpy(), inp.gas[gas]["CONC_UNIT"]
        if variable == f"Emissions|{gas}":
            vals = res["emissions"][gas].to_numpy()
            if gas == "CO2" and "Emissions" in res.get("carbon cycle", {}):
                vals = res["carbon cycle"]["Emissions"].to_numpy()
            return vals, emission_unit(inp, gas)
    if variable == "Heat Uptake":
        return res["RIB_glob"] * 3.61e14 * 86400.0 * 365.0 / 1e21, "ZJ / yr"
    if variable == "Heat Content|Ocean":
        return res["OHCTOT"] * 10.0, "ZJ"
    if variable == "Heat Content|Ocean|0-700m":
        return res["OHC700"] * 10.0, "ZJ"
    carb = res["carbon cycle"]
    land = carb["Biosphere carbon flux"].to_numpy()
    sea = carb["Ocean carbon flux"].to_numpy()
    vals = {
        "Carbon Flux|Land": land,
        "Carbon Flux|Ocean": sea,
        "Airborne fraction CO2": carb["Airborne fraction CO2"].to_numpy(),
        "Carbon Pool|Land": np.cumsum(land),
        "Carbon Pool|Ocean": np.cumsum(sea),
        "Net Flux to Atmosphere|CO2": -land - sea,
    }[variable]
    return vals, CARBON[variable]


def inp_has(forc, table):
    return any(g in forc for g in table)
