"""
Generated scenarios: gas table, emissions, concentrations, natural emissions,
land use, solar and volcanic forcing, perturbations and run settings.

A scenario is a JSON-able dictionary ("case"). Inputs(case) expands it to plain
arrays, which the reference model uses, and to the cfg dictionary with pandas
tables that is sent to the code under test.
"""

import os
import zlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .core import VERIF

DATA = os.path.join(VERIF, "data")

GAS_COLS = [
    "EM_UNIT",
    "CONC_UNIT",
    "BETA",
    "ALPHA",
    "TAU1",
    "TAU2",
    "TAU3",
    "NAT_EM",
    "SARF_TO_ERF",
]


def _read_gases():
    gases = {}
    with open(os.path.join(DATA, "gases.txt"), encoding="ascii") as fin:
        next(fin)
        for line in fin:
            row = line.split()
            if row:
                gases[row[0]] = row[1:3] + [float(x) for x in row[3:10]]
    return gases


def _read_table(fname):
    with open(os.path.join(DATA, fname), encoding="ascii") as fin:
        head = fin.readline().split()[1:]
        for _ in range(3):
            next(fin)
        rows = [[float(x) for x in line.split()] for line in fin if line.strip()]
    arr = np.array(rows)
    names, seen = [], set()
    for name in head:
        names.append(f"{name}.1" if name in seen else name)
        seen.add(name)
    return int(arr[0, 0]), {n: arr[:, i + 1] for i, n in enumerate(names)}


GASES = _read_gases()
EM_Y0, EM_BASE = _read_table("emis.txt")
CONC_Y0, CONC_BASE = _read_table("conc.txt")
EM_BASE["CO2_FF"] = EM_BASE.pop("CO2")
EM_BASE["CO2_AFOLU"] = EM_BASE.pop("CO2.1")

MAIN = ["CO2", "CH4", "N2O"]
VANILLA = [g for g, row in GASES.items() if row[1] != "-" and g not in MAIN]
# names of gases that are not in any of the gas tables that come with the model
# but that users add with the usual naming conventions
EXTRA_GASES = {
    "CFC-13": ("Gg", "ppt", 17.9, 0.000278, 640.0, 0.0, 0.0, 0.0, 1.0),
    "HCFC-124": ("Gg", "ppt", 23.3, 0.000207, 5.9, 0.0, 0.0, 0.0, 1.0),
    "HCFC-225ca": ("Gg", "ppt", 34.7, 0.00022, 1.9, 0.0, 0.0, 0.0, 1.0),
    "HCFC-21": ("Gg", "ppt", 17.6, 0.00015, 1.7, 0.0, 0.0, 0.0, 1.0),
    "H-1201": ("Gg", "ppt", 22.4, 0.00015, 5.2, 0.0, 0.0, 0.0, 1.0),
    "H-2311": ("Gg", "ppt", 33.7, 0.00013, 1.0, 0.0, 0.0, 0.0, 1.0),
    "CH2Br2": ("Gg", "ppt", 29.7, 0.00001, 0.4, 0.0, 0.0, 0.0, 1.0),
    "C2Cl4": ("Gg", "ppt", 28.4, 0.00005, 0.3, 0.0, 0.0, 0.0, 1.0),
    "C2HCl3": ("Gg", "ppt", 22.5, 0.00006, 0.1, 0.0, 0.0, 0.0, 1.0),
}
VANILLA_ALL = VANILLA + list(EXTRA_GASES)
FIXED = [g for g, row in GASES.items() if row[1] == "-"]
NEEDED_EMIS = ["SO2", "NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_BC", "BMB_AEROS_OC", "BC", "OC"]

# atoms of chlorine and bromine per molecule, from the chemical formulas
CL_ATOMS = {
    "CFC-11": 3,
    "CFC-12": 2,
    "CFC-113": 3,
    "CFC-114": 2,
    "CFC-115": 1,
    "CCl4": 4,
    "CH3CCl3": 3,
    "HCFC-22": 1,
    "HCFC-141b": 2,
    "HCFC-123": 2,
    "HCFC-142b": 1,
    "H-1211": 1,
    "CH2Cl2": 2,
    "CHCl3": 3,
    "CH3Cl": 1,
    "CFC-13": 1,
    "HCFC-124": 1,
    "HCFC-225ca": 2,
    "HCFC-21": 2,
    "H-2311": 1,
    "C2Cl4": 4,
    "C2HCl3": 3,
}
BR_ATOMS = {
    "CH3Br": 1,
    "H-1211": 1,
    "H-1301": 1,
    "H-2402": 2,
    "H-1202": 2,
    "H-1201": 1,
    "H-2311": 1,
    "CH2Br2": 2,
}


def made_gas(spec):
    """
    Name and atoms of a gas made of [kind, carbon, hydrogen, fluorine, halogen, suffix, double bonds]

    kind is CFC, HCFC, H (halon, halogen is [chlorine, bromine]), Cl, Br or ClBr (halogen as for H)
    """
    kind, carb, hydr, fluo, halo, suffix = spec[:6]
    double = spec[6] if len(spec) > 6 else 0
    if kind in ("CFC", "HCFC"):
        number = f"{double}{carb - 1}{hydr + 1}{fluo}".lstrip("0")
        return f"{kind}-{number}{suffix}", 2 * carb + 2 - 2 * double - hydr - fluo, 0
    if kind == "H":
        return f"H-{carb}{fluo}{halo[0]}{halo[1]}", halo[0], halo[1]
    name = f"C{count(carb)}"
    if hydr:
        name += f"H{count(hydr)}"
    first = f"F{count(fluo)}" if fluo else ""
    if kind == "ClBr":
        parts = {"F": first, "Cl": f"Cl{count(halo[0])}", "Br": f"Br{count(halo[1])}"}
        return name + "".join(parts[p] for p in suffix), halo[0], halo[1]
    if fluo and suffix != "F last":
        name += first
    name += f"{kind}{count(halo)}"
    if suffix == "F last":
        name += first
    return (name, halo, 0) if kind == "Cl" else (name, 0, halo)


def count(num):
    """Number in a formula"""
    return num if num > 1 else ""


@st.composite
def made_gas_specs(draw):
    """A gas with a name made by the naming rules for halocarbons"""
    kind = draw(st.sampled_from(["CFC", "HCFC", "HCFC", "H", "H", "Cl", "Br", "ClBr"]))
    carb = draw(st.integers(1, 3))
    room = 2 * carb + 2
    suffix = ""
    double = 0
    if kind in ("CFC", "HCFC") and carb > 1 and draw(st.integers(0, 2)) == 0:
        double = 1
        room -= 2
    if kind == "CFC":
        hydr, halo = 0, 0
        fluo = draw(st.integers(0, room - 1))
    elif kind == "HCFC":
        hydr = draw(st.integers(1, room - 2))
        fluo = draw(st.integers(1, room - 1 - hydr))
        halo = 0
        suffix = draw(st.sampled_from(["", "", "a", "b", "ca", "cb", "zd"]))
    elif kind == "H":
        hydr = 0
        brom = draw(st.integers(1, 3))
        chlo = draw(st.integers(0, min(3, room - brom)))
        fluo = draw(st.integers(0, room - brom - chlo))
        halo = [chlo, brom]
    elif kind == "ClBr":
        chlo = draw(st.integers(1, min(room - 1, 9)))
        brom = draw(st.integers(1, min(room - chlo, 9)))
        fluo = draw(st.one_of(st.just(0), st.integers(0, room - chlo - brom)))
        hydr = room - chlo - brom - fluo
        halo = [chlo, brom]
        suffix = draw(st.sampled_from([["Br", "F", "Cl"], ["F", "Cl", "Br"], ["Cl", "Br", "F"], ["Br", "Cl", "F"]]))
    else:
        halo = draw(st.integers(1, min(room, 9)))
        fluo = draw(st.one_of(st.just(0), st.integers(0, room - halo)))
        hydr = room - halo - fluo
        # elements in any order
        suffix = draw(st.sampled_from(["", "F last"])) if fluo else ""
    return [kind, carb, hydr, fluo, halo, suffix, double]


def rng_for(seed, label):
    return np.random.default_rng([seed, zlib.crc32(label.encode())])


def eruptions(rng, amp, num, cols):
    """Volcanic forcing all the time, or now and then, or the same for whole years"""
    out = -amp * rng.uniform(0, 1, (num, cols)) ** 3
    how = rng.integers(0, 6)
    if how == 0:
        # some months only
        out = out * (rng.uniform(0, 1, (num, cols)) < 0.3)
    elif how == 1:
        # some years only
        out = out * (rng.uniform(0, 1, (num, 1)) < 0.4)
    elif how == 2:
        # from some month on
        out = out * (np.arange(cols) >= rng.integers(0, cols, (num, 1)))
    elif how == 3:
        out = np.repeat(out[:, :1], cols, axis=1)
    return out


class Inputs:
    """Plain arrays of a scenario, and the cfg for the code under test"""

    # pylint: disable=too-many-instance-attributes

    def __init__(self, case):
        self.case = case
        self.ny0 = case["ny0"]
        self.nyears = case["nyears"]
        self.nyend = self.ny0 + self.nyears - 1
        self.years = list(range(self.ny0, self.nyend + 1))
        self.emstart = self.ny0 + case["em_off"]
        self.idtm = case["idtm"]
        self.conc_run = case["conc_run"]
        self.ref_yr = case.get("emi", {}).get("ref_yr", 2010)
        pad_lo, pad_hi = case.get("pad", [0, 0])
        refs = [self.ref_yr, *case.get("refs", [])]
        self.t0 = min(self.ny0, 2000, *refs) - pad_lo
        self.t1 = max(self.nyend, 2000, *refs) + pad_hi
        self.tab_years = list(range(self.t0, self.t1 + 1))
        self._make_gases()
        self._make_emissions()
        self._make_concentrations()
        self._make_natural()
        self._make_forcings()
        self._perturb()

    # -- inputs ------------------------------------------------------------
    def _make_gases(self):
        case = self.case
        names = [
            g
            for g in list(GASES) + list(EXTRA_GASES)
            if g in MAIN or g in FIXED or g in case["gases"]
        ]
        self.cl_atoms, self.br_atoms = dict(CL_ATOMS), dict(BR_ATOMS)
        made = []
        for spec in case.get("made", []):
            name, chlo, brom = made_gas(spec)
            if name not in names:
                names.append(name)
                made.append(name)
            for atoms, num in ((self.cl_atoms, chlo), (self.br_atoms, brom)):
                atoms.pop(name, None)
                if num:
                    atoms[name] = num
        if case.get("gas_shuffle"):
            rng_for(case["gas_shuffle"], "order").shuffle(names)
        self.gas = {}
        amp = case["gas_amp"]
        for name in names:
            if name in made:
                row = dict(zip(GAS_COLS, EXTRA_GASES["CFC-13"]))
            else:
                row = dict(zip(GAS_COLS, GASES.get(name) or EXTRA_GASES[name]))
            fac = np.exp(amp * rng_for(case["seed"], "gas" + name).uniform(-1, 1, 7))
            row["SARF_TO_ERF"] = row["SARF_TO_ERF"] * fac[3]
            if name not in FIXED:
                for i, key in enumerate(["BETA", "ALPHA", "TAU1"]):
                    row[key] = row[key] * fac[i]
                row["TAU2"] = row["TAU2"] * fac[4]
                row["TAU3"] = row["TAU3"] * fac[5]
                if name in ("CH4", "N2O"):
                    row["NAT_EM"] = row["NAT_EM"] * fac[6]
                elif name == "CO2":
                    row["NAT_EM"] = case.get("nat_co2", 0.0)
                else:
                    row["NAT_EM"] = amp * 20.0 * (fac[6] - 0.5) if amp else 0.0
            self.gas[name] = row
        if case.get("whole"):
            for row in self.gas.values():
                row["NAT_EM"] = float(np.round(row["NAT_EM"]))
        for name, alpha in case.get("aero_alpha", {}).items():
            self.gas[name]["ALPHA"] = alpha
        if case.get("twins"):
            one, two = case["twins"]
            self.gas[two] = dict(self.gas[one])
        for base, alphas in case.get("regional", {}).items():
            for reg, alpha in alphas.items():
                row = dict(self.gas[base])
                row["ALPHA"] = alpha
                self.gas[f"{base}_{reg}"] = row
        self.vanilla = [
            g for g, row in self.gas.items() if row["CONC_UNIT"] != "-" and g not in MAIN
        ]

    def em_components(self):
        comps = ["CO2_FF", "CO2_AFOLU", "CH4", "N2O"] + self.vanilla + NEEDED_EMIS
        for base, alphas in self.case.get("regional", {}).items():
            comps += [f"{base}_{reg}" for reg in alphas]
        return comps

    def _series(self, base, y_base, name, amp, label):
        idx = np.clip(np.array(self.tab_years) - y_base, 0, None)
        if base is None:
            vals = 1.0 + 0.02 * (np.array(self.tab_years) - 1900.0)
        else:
            vals = base[np.minimum(idx, len(base) - 1)].copy()
        if amp:
            rng = rng_for(self.case["seed"], label + name)
            vals = vals * np.exp(amp * rng.uniform(-1, 1, len(vals)))
            vals = vals + amp * np.mean(np.abs(vals)) * rng.uniform(0, 1)
        return vals

    def _special(self, vals, kind):
        """Series with exact zeros or repeated values, which noise never gives"""
        if kind is None:
            return vals
        half = (self.nyears // 2 + self.ny0) - self.t0
        vals = vals.copy()
        if kind == "zero":
            vals[:] = 0.0
        elif kind == "constant":
            vals[:] = vals[half]
        elif kind == "stop":
            vals[half:] = 0.0
        elif kind == "start":
            vals[:half] = 0.0
        elif kind == "steps":
            vals = vals[3 * (np.arange(len(vals)) // 3)]
        elif kind == "gaps":
            vals[np.arange(len(vals)) % 3 == 1] = 0.0
        elif kind == "tiny":
            vals *= 1e-8
        elif kind == "grow":
            vals[:half] *= 1e-8
        elif kind == "negative":
            vals[half::2] *= -0.3
        elif kind == "sink":
            # more than natural emissions bring, for a year in four
            vals[half::4] *= -8.0
        return vals

    def _make_emissions(self):
        case = self.case
        self.emis = {}
        for comp in self.em_components():
            base = EM_BASE.get(comp)
            if base is None and "_" in comp:
                base = EM_BASE.get(comp.split("_")[0])
                if base is not None:
                    base = 0.2 * base
            vals = self._series(base, EM_Y0, comp, case["em_amp"], "em")
            vals = self._special(vals, case.get("em_special", {}).get(comp))
            if comp in ("CO2_FF", "CO2_AFOLU"):
                vals = vals * case["co2_scale"] + case["co2_off"]
            self.emis[comp] = np.round(vals) if case.get("whole") else vals
        if case.get("twins"):
            one, two = case["twins"]
            self.emis[two] = self.emis[one].copy()
        if case.get("co2_zero"):
            # whole numbers whose sum from the first year of the run comes back to zero
            first, now = self.ny0 - self.t0, self.ny0 - self.t0 + case["co2_zero"] % self.nyears
            self.emis["CO2_FF"] = np.round(self.emis["CO2_FF"])
            self.emis["CO2_AFOLU"] = np.zeros(len(self.tab_years))
            self.emis["CO2_AFOLU"][now] = -np.sum(self.emis["CO2_FF"][first : now + 1])

    def _make_concentrations(self):
        case = self.case
        self.conc_in = {}
        for comp in MAIN + self.vanilla:
            vals = self._series(CONC_BASE.get(comp), CONC_Y0, comp, case["conc_amp"], "conc")
            if CONC_BASE.get(comp) is None:
                vals = np.abs(vals)
            if comp in MAIN and case.get("main_wide"):
                # anything from ice ages to far beyond the highest scenarios
                low, high = {"CO2": (150.0, 2500.0), "CH4": (300.0, 6000.0), "N2O": (180.0, 700.0)}[comp]
                draws = rng_for(case["seed"], "wide" + comp).uniform(0, 1, len(vals))
                vals = low * (high / low) ** draws
            kind = case.get("conc_special", {}).get(comp)
            if kind and not (comp in MAIN and kind != "constant" and kind != "steps"):
                vals = self._special(vals, kind)
            self.conc_in[comp] = np.round(vals) if case.get("whole") else vals
        if case.get("twins"):
            one, two = case["twins"]
            self.conc_in[two] = self.conc_in[one].copy()

    def _make_natural(self):
        self.nat = {}
        for comp, base in (("CH4", 275.0), ("N2O", 9.5)):
            if self.case["nat"]:
                rng = rng_for(self.case["seed"], "nat" + comp)
                self.nat[comp] = base * np.exp(
                    self.case["nat"] * rng.uniform(-1, 1, self.nyears)
                )
                if self.case.get("whole"):
                    self.nat[comp] = np.round(self.nat[comp])
            else:
                self.nat[comp] = np.full(self.nyears, self.gas[comp]["NAT_EM"])

    def _make_forcings(self):
        case = self.case
        rng = rng_for(case["seed"], "luc")
        self.luc = case["luc"] * rng.uniform(-1, 0.3, self.nyears)
        cols = case["volc_cols"]
        self.sun = np.zeros(self.nyears)
        self.volc_n = np.zeros((self.nyears, 12))
        self.volc_s = np.zeros((self.nyears, 12))
        self.sun_in = case["sun"] * rng.uniform(-1, 1, self.nyears)
        self.volc_n_in = eruptions(rng, case["volc"], self.nyears, cols)
        cols_s = case.get("volc_cols_s") or cols
        self.volc_s_in = eruptions(rng, case["volc"], self.nyears, cols_s)
        if case.get("whole"):
            self.luc, self.sun_in, self.volc_n_in, self.volc_s_in = (
                np.round(v) for v in (self.luc, self.sun_in, self.volc_n_in, self.volc_s_in)
            )
        if case["volc_same"]:
            self.volc_s_in = self.volc_n_in.copy()
        if case["sunvolc"]:
            self.sun, self.volc_n, self.volc_s = self.sun_in, self.volc_n_in, self.volc_s_in

    def _perturb(self):
        """Emission perturbations are part of the emissions of the run"""
        self.emis_given = {k: v.copy() for k, v in self.emis.items()}
        for comp, off, val in self.case.get("pert_em", []):
            name = "CO2_FF" if comp == "CO2" else comp
            self.emis[name][self.pert_year(off) - self.t0] += val

    # -- access for the reference model ------------------------------------
    def em(self, comp, year):
        return float(self.emis[comp][year - self.t0])

    def cin(self, comp, year):
        return float(self.conc_in[comp][year - self.t0])

    def win(self, table, comp):
        """Values in the years of the run"""
        arr = getattr(self, table)[comp]
        return np.array(arr[self.ny0 - self.t0 : self.nyend - self.t0 + 1])

    # -- tables for the code under test ------------------------------------
    def gaspam_df(self):
        table = pd.DataFrame(
            {col: [row[col] for row in self.gas.values()] for col in GAS_COLS},
            index=list(self.gas),
        )
        return self._integers(table)

    def emissions_df(self):
        return self._table(self.emis_given)

    def concentrations_df(self):
        return self._table(self.conc_in)

    def _table(self, series):
        return self._integers(pd.DataFrame({k: v.copy() for k, v in series.items()}, index=self.tab_years))

    def _integers(self, table):
        """Whole numbers are integers in the table, as if read from a file without decimals"""
        if not self.case.get("whole"):
            return table
        numbers = [c for c in table.columns if table[c].dtype == float]
        return table.astype({c: int for c in numbers if (table[c] % 1 == 0).all()})

    def nat_df(self, comp):
        return self._integers(pd.DataFrame({comp: self.nat[comp].copy()}, index=self.years))

    def forcing_df(self, values):
        return self._integers(pd.DataFrame(np.array(values), index=self.years))

    def pert_df(self, which):
        rows = self.case.get(which, [])
        val = "emission" if which == "pert_em" else "forcing"
        return self._integers(
            pd.DataFrame(
                [[c, "unit", "src", self.pert_year(off), v] for c, off, v in rows],
                columns=["component", "unit", "source", "year", val],
            )
        )

    def pert_year(self, off):
        first_ref = self.case.get("refs", [self.ref_yr])[0]
        return {"ref": first_ref, "2000": 2000}[off] if isinstance(off, str) else self.ny0 + off

    def cfg(self):
        """New cfg with all inputs as data"""
        case = self.case
        cfg = {
            "nystart": self.ny0,
            "nyend": self.nyend,
            "emstart": self.emstart,
            "idtm": self.idtm,
            "conc_run": self.conc_run,
            "sunvolc": 1 if case["sunvolc"] else 0,
            "thermal_model": case["thermal"],
            "carbon_cycle_model": case["carbon_model"],
            "gaspam_data": self.gaspam_df(),
            "emissions_data": self.emissions_df(),
            "concentrations_data": self.concentrations_df(),
            "rf_luc_data": self.forcing_df(self.luc),
        }
        if case["nat"]:
            cfg["nat_ch4_data"] = self.nat_df("CH4")
            cfg["nat_n2o_data"] = self.nat_df("N2O")
        if case["sunvolc"]:
            cfg["rf_sun_data"] = self.forcing_df(self.sun_in)
            if case["volc_same"]:
                cfg["rf_volc_data"] = self.forcing_df(self.volc_n_in)
            else:
                cfg["rf_volc_n_data"] = self.forcing_df(self.volc_n_in)
                cfg["rf_volc_s_data"] = self.forcing_df(self.volc_s_in)
        if case.get("pert_em"):
            cfg["perturb_em_data"] = self.pert_df("pert_em")
        if case.get("pert_forc"):
            cfg["perturb_forc_data"] = self.pert_df("pert_forc")
        return cfg

    def pams(self):
        """New parameter dictionaries for the run"""
        case = self.case
        return {
            "pamset_udm": dict(case.get("udm", {})),
            "pamset_emiconc": dict(case.get("emi", {})),
            "pamset_carbon": {
                k: ({kk: list(vv) for kk, vv in v.items()} if isinstance(v, dict) else v)
                for k, v in case.get("carbon", {}).items()
            },
        }


def run_model(case, carbon_outputs=True, extra_cfg=None):
    """Inputs and results of one run of the code under test with a new instance"""
    from ciceroscm import CICEROSCM

    from .core import sut

    inp = Inputs(case)
    cfg = inp.cfg()
    if extra_cfg:
        cfg.update(extra_cfg)
    cscm = sut(CICEROSCM, cfg)
    sut(
        cscm._run,  # pylint: disable=protected-access
        {"results_as_dict": True, "carbon_cycle_outputs": carbon_outputs},
        **inp.pams(),
    )
    return inp, cscm.results


# --------------------------------------------------------------------------
# Strategies
# --------------------------------------------------------------------------


def fl(lo, hi):
    """Floats with few digits: they shrink and print well"""
    return st.floats(lo, hi, allow_nan=False, width=64).map(
        lambda x: 0.0 if abs(x) < 1e-7 else float(f"{x:.5g}")
    )


def maybe(default, strat):
    return st.one_of(st.just(default), strat)


SPECIALS = ["zero", "constant", "stop", "start", "steps", "gaps", "tiny", "grow", "negative", "sink"]
# values at which terms vanish or branches meet
EDGES = {
    "beto": (0.0,),
    "W": (0.0,),
    "cpi": (0.0, 1.0),
    "akapa": (0.0,),
    "ocean_efficacy": (1.0,),
    "delta_lambda_aero": (0.0,),
    "ebbeta": (0.0,),
    "foan": (0.61, 0.7),
    "foas": (0.81, 0.7),
    "k": (0.0,),
    "qbmb": (0.0,),
    "qdirso2": (0.0, 0.003),
    "qindso2": (0.0, 0.009),
    "qbc": (0.0, -0.01),
    "qoc": (0.0,),
    "qh2o_ch4": (0.0,),
    "qnmvoc": (0.0,),
    "qnh3": (0.0,),
    "qnox": (0.0,),
    "beta_f": (0.0,),
    "ml_fracmax": (0.0,),
    "solubility_sens": (0.0,),
    "land_temp_sensitivity": (0.0,),
    "soil_respiration_rate": (0.0,),
    "ocean_exchange_rate": (0.0,),
    "vegetation_to_soil_fraction": (0.0, 1.0),
    "ocean_solubility_base": (0.0,),
    "ocean_solubility_temp_coeff": (0.0,),
}


def value_of(name, bounds):
    """Value of a parameter: mostly within the bounds, sometimes an edge"""
    if name not in EDGES:
        return fl(*bounds)
    return st.one_of(fl(*bounds), fl(*bounds), st.sampled_from(EDGES[name]))


UDM_RANGES = {
    "rlamdo": (5.0, 25.0),
    "akapa": (0.06, 0.8),
    "cpi": (0.161, 0.569),
    "W": (0.55, 2.55),
    "beto": (0.0, 7.0),
    "lambda": (0.5, 2.1),
    "mixed": (25.0, 325.0),
    "foan": (0.3, 0.8),
    "foas": (0.5, 0.95),
    "ocean_efficacy": (0.8, 1.3),
    "delta_lambda_aero": (-0.7, 3.0),
    "ebbeta": (0.0, 3.0),
}


@st.composite
def some_of(draw, ranges):
    """Names of the parameters to set: any subset, now and then all of them"""
    if draw(st.integers(0, 6)) == 3:
        return draw(st.permutations(sorted(ranges)))
    return draw(st.lists(st.sampled_from(sorted(ranges)), unique=True))


@st.composite
def udm_pams(draw, ldtime=None, all_pams=True):
    """Parameters of the upwelling diffusion model, the defaults left out"""
    pams = {}
    names = draw(some_of(UDM_RANGES) if all_pams else st.just([]))
    complete = len(names) == len(UDM_RANGES)
    for name in names:
        pams[name] = draw(value_of(name, UDM_RANGES[name]))
    if "mixed" in pams:
        pams["mixed"] = draw(
            st.one_of(st.just(pams["mixed"]), st.sampled_from([50.0, 75, 100.0, 200, 300.0]))
        )
    pams["ldtime"] = draw(st.sampled_from(ldtime or [1, 2, 3, 4, 6, 12, 12, 24]))
    if complete or draw(st.booleans()):
        pams["threstemp"] = draw(st.sampled_from([0, 0.0, 7.0, 3.5, 20.0]))
    if complete or draw(st.booleans()):
        pams["lm"] = draw(st.sampled_from([8, 10, 17, 25, 40, 41, 60]))
    return pams


TWO_RANGES = {
    "lambda": (0.5, 3.0),
    "mixed": (20.0, 900.0),
    "deep": (200.0, 4000.0),
    "k": (0.05, 1.5),
    "ocean_efficacy": (0.7, 2.0),
    "foan": (0.3, 0.8),
    "foas": (0.5, 0.95),
    "delta_lambda_aero": (-0.4, 3.0),
}


@st.composite
def two_pams(draw):
    """Parameters of the two-layer model"""
    pams = {}
    for name in draw(some_of(TWO_RANGES)):
        pams[name] = draw(value_of(name, TWO_RANGES[name]))
    return pams


EMI_RANGES = {
    "qbmb": (-0.5, 2.0),
    "qo3": (0.2, 0.8),
    "qdirso2": (-0.006, -0.001),
    "qindso2": (-0.03, -0.005),
    "qbc": (0.004, 0.05),
    "qoc": (-0.008, 0.002),
    "qh2o_ch4": (0.02, 0.15),
    "qnmvoc": (-0.01, 0.01),
    "qnh3": (-0.01, 0.01),
    "qnox": (-0.01, 0.01),
}


@st.composite
def emi_pams(draw, modes=True):
    pams = {}
    for name in draw(some_of(EMI_RANGES)):
        pams[name] = draw(value_of(name, EMI_RANGES[name]))
    if modes and draw(st.booleans()):
        pams["lifetime_mode"] = draw(
            st.sampled_from(["TAR", "WIGLEY", "CONSTANT_12", "CONSTANT"])
        )
    if draw(st.booleans()):
        pams["ref_yr"] = draw(st.sampled_from([2010, 2005, 1995, 2014]))
    return pams


CARBON_RANGES = {
    "beta_f": (0.1, 0.6),
    "mixed_carbon": (25.0, 150.0),
    "ml_w_sigmoid": (1.0, 6.0),
    "ml_fracmax": (0.1, 0.9),
    "ml_t_half": (-0.5, 3.0),
    "t_half": (0.1, 2.0),
    "w_sigmoid": (2.0, 12.0),
    "t_threshold": (1.0, 8.0),
    "w_threshold": (2.0, 12.0),
    "solubility_sens": (-0.05, 0.08),
    "solubility_limit": (0.01, 0.8),
    "ml_depth_min": (5.0, 90.0),
}
BOX_RANGES = {
    "beta_f": (0.1, 20.0),
    "land_temp_sensitivity": (-2.0, 60.0),
    "soil_respiration_rate": (0.0, 0.1),
    "ocean_exchange_rate": (0.0, 0.7),
    "vegetation_to_soil_fraction": (0.0, 1.5),
    "ocean_solubility_base": (0.0, 0.2),
    "ocean_solubility_temp_coeff": (-0.1, 0.1),
}


@st.composite
def rs_function(draw):
    num = draw(st.integers(1, 4))
    return {
        "coeffs": draw(st.lists(fl(0.02, 1.0), min_size=num + 1, max_size=num + 1)),
        "timescales": draw(st.lists(fl(0.3, 300.0), min_size=num, max_size=num)),
    }


@st.composite
def rb_function(draw):
    num = draw(st.integers(1, 4))
    return {
        "coeffs": draw(st.lists(fl(0.02, 1.0), min_size=num, max_size=num)),
        "timescales": draw(st.lists(fl(0.5, 200.0), min_size=num, max_size=num)),
    }


@st.composite
def carbon_pams(draw, model="default", functions=True):
    ranges = CARBON_RANGES if model == "default" else BOX_RANGES
    pams = {}
    for name in draw(some_of(ranges)):
        pams[name] = draw(value_of(name, ranges[name]))
    if model != "default" and len(pams) == len(ranges):
        pams["ocean_mixed_layer_depth"] = draw(fl(10.0, 100.0))
    if functions and model == "default":
        if draw(st.integers(0, 3)) == 0:
            pams["rs_function"] = draw(rs_function())
        if draw(st.integers(0, 3)) == 0:
            pams["rb_function"] = draw(rb_function())
    return pams


PERT_COMPS_FORC = ["CO2", "CH4", "N2O", "SO2", "SO4_IND", "BC", "TROP_O3", "LANDUSE", "OTHER"]


def regional_aerosols(regions=("ASIA", "OECD", "X_1")):
    """Factors of the regions of some aerosols"""
    return st.dictionaries(
        st.sampled_from(["SO2", "BC", "OC"]),
        st.dictionaries(st.sampled_from(regions), fl(-0.02, 0.02).filter(bool), min_size=1),
        min_size=1,
    )


def repeat(draw, rows):
    """Now and then the same row once more"""
    if rows and draw(st.integers(0, 4)) == 0:
        rows.append(list(rows[0]))


@st.composite
def scenario(
    draw,
    thermal=("default", "twolayer"),
    carbon=("default", "box"),
    conc_run=(False, False, True),
    min_years=4,
    max_years=24,
    perturb=True,
    max_gases=6,
    emi=True,
    aero_alpha=True,
):
    """A full scenario"""
    seed = draw(st.integers(0, 10**6))
    ny0 = draw(st.one_of(st.sampled_from([1990, 1995, 1750, 1850, 2000]), st.integers(1700, 2200)))
    # a few runs of centuries
    long_run = max_years >= 8 and draw(st.integers(0, 39)) == 39
    nyears = draw(st.integers(60, 250) if long_run else st.integers(min_years, max_years))
    gases = draw(st.lists(st.sampled_from(VANILLA_ALL), unique=True, min_size=1, max_size=max_gases))
    thermal_model = draw(st.sampled_from(thermal))
    carbon_model = draw(st.sampled_from(carbon))
    sunvolc = draw(st.booleans())
    case = {
        "seed": seed,
        "ny0": ny0,
        "nyears": nyears,
        "em_off": draw(
            st.one_of(st.integers(-3, nyears + 1), st.sampled_from([-50, 0, 1, nyears - 1]))
        ),
        "idtm": draw(st.sampled_from([4, 3, 2] if long_run else [24, 12, 6, 4, 3, 2])),
        "conc_run": draw(st.sampled_from(conc_run)),
        "pad": draw(st.sampled_from([[0, 0], [3, 2], [0, 1], [1, 0]])),
        "gases": sorted(gases),
        "gas_shuffle": draw(st.sampled_from([0, 0, 1, 2, 3])),
        "gas_amp": draw(st.sampled_from([0.0, 0.1, 0.3])),
        "nat_co2": draw(maybe(0.0, fl(-2.0, 3.0))),
        "em_amp": draw(st.sampled_from([0.0, 0.05, 0.3, 1.0])),
        "conc_amp": draw(st.sampled_from([0.0, 0.01, 0.1, 0.4])),
        "co2_scale": draw(maybe(1.0, fl(-0.5, 6.0))),
        "co2_off": draw(maybe(0.0, fl(-4.0, 20.0))),
        "nat": draw(st.sampled_from([0.0, 0.1, 0.4])),
        "luc": draw(maybe(0.0, fl(0.0, 1.0))),
        "sunvolc": sunvolc,
        "sun": draw(maybe(0.0, fl(0.0, 1.0))),
        "volc": draw(maybe(0.0, fl(0.0, 4.0))),
        "volc_cols": draw(st.sampled_from([12, 12, 1, 4])),
        "volc_cols_s": draw(st.sampled_from([None, None, None, 12, 1])),
        "volc_same": draw(st.booleans()),
        "thermal": thermal_model,
        "carbon_model": carbon_model,
        "udm": draw(udm_pams(ldtime=[1, 2, 2, 3, 4, 12]) if thermal_model == "default" else two_pams()),
        "emi": draw(emi_pams()) if emi else {},
        "carbon": draw(carbon_pams(model=carbon_model)),
    }
    if perturb:
        pert_comps = ["CO2", "CO2_FF", "CO2_AFOLU", "CH4", "N2O", "SO2", "NOx", "BC"] + case["gases"][:2]
        case["pert_em"] = draw(
            st.lists(
                st.tuples(
                    st.sampled_from(pert_comps),
                    st.one_of(st.integers(0, nyears - 1), st.sampled_from([0, nyears - 1, "ref", "2000"])),
                    fl(-3.0, 5.0),
                ).map(list),
                max_size=4,
            )
        )
        repeat(draw, case["pert_em"])
        forc_comps = PERT_COMPS_FORC + ["STRAT_O3"] + case["gases"][:2]
        case["pert_forc"] = draw(
            st.lists(
                st.tuples(
                    st.sampled_from(forc_comps),
                    st.one_of(st.integers(0, nyears - 1), st.sampled_from([0, nyears - 1, -1, nyears])),
                    fl(-2.0, 2.0),
                ).map(list),
                max_size=4,
            )
        )
        repeat(draw, case["pert_forc"])
    if draw(st.integers(0, 2)) == 0:
        comps = ["CO2_FF", "CO2_AFOLU", "CH4", "N2O", *NEEDED_EMIS, *case["gases"]]
        case["em_special"] = draw(st.dictionaries(st.sampled_from(comps), st.sampled_from(SPECIALS), max_size=4))
    if draw(st.integers(0, 3)) == 0:
        comps = [*MAIN, *case["gases"]]
        case["conc_special"] = draw(
            st.dictionaries(st.sampled_from(comps), st.sampled_from(SPECIALS[:-2]), max_size=4)
        )
    if draw(st.integers(0, 7)) == 0:
        case["whole"] = True
        if draw(st.booleans()):
            for name in ("pert_em", "pert_forc"):
                case[name] = [[comp, year, float(round(val))] for comp, year, val in case.get(name, [])]
    if len(case["gases"]) > 1 and draw(st.integers(0, 4)) == 0:
        # two gases with the same properties, emissions and concentrations
        case["twins"] = draw(st.permutations(case["gases"]))[:2]
    if aero_alpha and draw(st.integers(0, 3)) == 0:
        case["aero_alpha"] = draw(
            st.dictionaries(
                st.sampled_from(["SO2", "BC", "OC", "NOx", "NH3", "NMVOC", "BMB_AEROS_BC", "BMB_AEROS_OC"]),
                fl(-0.02, 0.03).filter(lambda x: x != 0),
                max_size=3,
            )
        )
    return case
