"""Generated forcing runs: forcing series in all the ways they can be given"""

import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import sut

from . import thermal

OTHERS = ["CO2", "CH4", "N2O", "TROP_O3", "STRAT_O3", "LANDUSE", "CFC-11", "STRAT_H2O", "OTHER", "SO2F2", "HFC-125"]
AEROSOLS = ["SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "NOx", "NH3", "NMVOC", "SO2_NAM", "BC_EAS", "OC_RBU", "SO4_DIR"]
ARRAYS = ["array", "text"]
TABLES = ["table", "csv"]
LAYOUTS = ["total", "hemispheres", "all", "components", "components and hemispheres", "components and total"]


class Forcing:
    """Forcing of a case and the ways to give it"""

    def __init__(self, case):
        self.case = case
        self.ny0, self.nyears = case["ny0"], case["nyears"]
        self.years = np.arange(self.ny0, self.ny0 + self.nyears)
        lo, hi = case["pad"]
        self.t0 = self.ny0 - lo
        self.all_years = np.arange(self.t0, self.ny0 + self.nyears + hi)
        num = len(self.all_years)
        lay = case["layout"]
        rng = scen.rng_for(case["seed"], "forcing")
        self.comp = {}
        if lay.startswith("components"):
            for name in case["comps"]:
                vals = thermal.series(rng, case["shape"], num, case["amp"] * rng.uniform(-1, 1), case["at"])
                self.comp[name] = vals * (rng.uniform(0, 1, num) > case["gaps"])
        given = thermal.series(rng, case["shape"], num, case["amp"], case["at"])
        north = thermal.series(rng, case["shape"], num, case["amp_s"], case["at"] + 2)
        south = thermal.series(rng, case["shape"], num, case["amp"], case["at"] + 1)
        if case.get("whole"):
            # numbers in tables that are read as integers
            given, north, south = (np.round(v) for v in (given, north, south))
            self.comp = {name: np.round(vals) for name, vals in self.comp.items()}
        if lay in ("total", "components and total"):
            self.total, self.north, self.south = given, given, given
        elif lay == "all":
            self.total, self.north, self.south = given, north, south
        elif lay in ("hemispheres", "components and hemispheres"):
            self.total, self.north, self.south = 0.5 * (north + south), north, south
        else:
            self.total = np.sum(list(self.comp.values()), axis=0)
            self.north = self.south = self.total
        self.w_given = None
        if case["w_aero"]:
            self.w_given = case["w_aero"] * rng.uniform(0, 1, num) * (rng.uniform(0, 1, num) > case["gaps"])
        self.sun_in = case["sun"] * rng.uniform(-1, 1, self.nyears)
        cols = case["volc_cols"]
        self.volc_in = [scen.eruptions(rng, case["volc"], self.nyears, cols) for _ in range(2)]
        if case["volc_same"]:
            self.volc_in[1] = self.volc_in[0]
        self.sun = self.sun_in if case["sunvolc"] else np.zeros(self.nyears)
        self.volc = self.volc_in if case["sunvolc"] else [np.zeros((self.nyears, 12))] * 2

    def win(self, arr):
        """The years of the run"""
        return np.asarray(arr)[self.ny0 - self.t0 :][: self.nyears]

    def share(self):
        """Aerosol share in the years of the run"""
        if self.case["how"] in ARRAYS:
            return np.zeros(self.nyears)
        if self.w_given is not None:
            return self.win(self.w_given)
        if self.case["how"] == "table" or not self.comp:
            return np.zeros(self.nyears)  # only files have components
        aero = np.sum([np.abs(v) for k, v in self.comp.items() if k in AEROSOLS], axis=0) * np.ones(len(self.all_years))
        tot = np.sum([np.abs(v) for v in self.comp.values()], axis=0)
        return self.win([a / t if t > 0 else 0.0 for a, t in zip(aero, tot)])

    def hemispheres(self):
        return self.win(self.north) + self.sun, self.win(self.south) + self.sun

    def reported(self):
        """Total forcing in the results"""
        return self.win(self.total) + self.sun

    def number(self, values):
        """Integers if the case is one of whole numbers"""
        values = np.array(values)
        return values.astype(int) if self.case.get("whole") and np.all(values % 1 == 0) else values

    def table(self):
        """All that a csv file has; every column for a table"""
        lay, how = self.case["layout"], self.case["how"]
        cols = {}
        if how == "csv":
            cols.update(self.comp)
        if how == "table" or lay in ("total", "all", "components and total"):
            cols["total"] = self.total
        if how == "table" or lay in ("hemispheres", "all", "components and hemispheres"):
            cols["FORC_NH"], cols["FORC_SH"] = self.north, self.south
        if self.w_given is not None:
            cols["w_aero"] = self.w_given
        names = list(cols)
        scen.rng_for(self.case["seed"], "columns").shuffle(names)
        table = pd.DataFrame({k: self.number(cols[k]) for k in names}, index=self.all_years)
        if self.case.get("rows") == "falling":
            return table.iloc[::-1]
        if self.case.get("rows") == "mixed":
            return table.sample(frac=1, random_state=self.case["seed"])
        return table

    def add_forcing(self, cfg, folder):
        """Put the forcing into cfg in the way of the case"""
        how = self.case["how"]
        if how == "array":
            cfg["forc_data"] = self.number(self.win(self.total))
        elif how == "table":
            cfg["forc_data"] = self.table()
        elif how == "text":
            cfg["forc_file"] = os.path.join(folder, "forcing.txt")
            with open(cfg["forc_file"], "w", encoding="ascii") as fout:
                for val in self.number(self.win(self.total)):
                    fout.write(f"{val.item()!r}\n")
        else:
            cfg["forc_file"] = os.path.join(folder, "forcing.csv")
            table = self.table()
            with open(cfg["forc_file"], "w", encoding="ascii") as fout:
                fout.write(",".join([self.case["year_name"], *table.columns]) + "\n")
                for k, year in enumerate(table.index):
                    fout.write(",".join([str(int(year))] + [repr(table[c].iloc[k].item()) for c in table]) + "\n")
        return cfg

    def base_cfg(self):
        case = self.case
        cfg = {
            "nystart": int(self.ny0),
            "nyend": int(self.ny0 + self.nyears - 1),
            "emstart": int(self.ny0),
            "sunvolc": 1 if case["sunvolc"] else 0,
            "thermal_model": case["thermal"],
            "rf_luc_data": pd.DataFrame({0: np.zeros(self.nyears)}, index=self.years),
        }
        if case["sunvolc"]:
            cfg["rf_sun_data"] = pd.DataFrame({0: self.sun_in.copy()}, index=self.years)
            if case["volc_same"]:
                cfg["rf_volc_data"] = pd.DataFrame(self.volc_in[0].copy(), index=self.years)
            else:
                cfg["rf_volc_n_data"] = pd.DataFrame(self.volc_in[0].copy(), index=self.years)
                cfg["rf_volc_s_data"] = pd.DataFrame(self.volc_in[1].copy(), index=self.years)
        return cfg

    def cfg(self, folder):
        return self.add_forcing(self.base_cfg(), folder)

    def reference(self, pams=None):
        """Reference results, None when they leave the valid domain"""
        north, south = self.hemispheres()
        return thermal.reference(
            self.case["thermal"], self.case["udm"] if pams is None else pams, (north, south, *self.volc), self.share()
        )


def run(cfg, pams, run_cfg=None):
    """Results of a forcing run of the code under test"""
    from ciceroscm import CICEROSCM

    cscm = sut(CICEROSCM, cfg)
    sut(cscm._run, run_cfg or {"results_as_dict": True}, pamset_udm=dict(pams))  # pylint: disable=protected-access
    return cscm.results


@st.composite
def forcing_runs(draw, how=("array", "text", "table", "csv", "csv", "csv"), max_years=20, delta=False):
    ways = draw(st.sampled_from(how))
    if ways in ARRAYS:
        layout = "total"
    elif ways == "table":
        layout = draw(st.sampled_from(["total", "hemispheres", "all"]))
    else:
        layout = draw(st.sampled_from(LAYOUTS))
    model = draw(st.sampled_from(["default", "twolayer"]))
    pams = draw(scen.udm_pams(ldtime=[1, 2, 3, 4, 12]) if model == "default" else scen.two_pams())
    if delta:
        pams["delta_lambda_aero"] = draw(scen.fl(-0.4, 3.0))
    return {
        "seed": draw(st.integers(0, 10**6)),
        "ny0": draw(st.one_of(st.sampled_from([1750, 1850, 2000]), st.integers(1700, 2300))),
        "nyears": draw(st.integers(1, max_years)),
        "pad": draw(st.sampled_from([[0, 0], [3, 2], [0, 4], [5, 0]])),
        "how": ways,
        "layout": layout,
        "rows": draw(st.sampled_from(["rising"] * 4 + ["falling", "mixed"])),
        "year_name": draw(st.sampled_from(["year", "Year", "YEAR", "Years", "year_ce"])),
        "comps": draw(st.lists(st.sampled_from(OTHERS + AEROSOLS), unique=True, min_size=1, max_size=7)),
        "gaps": draw(st.sampled_from([0.0, 0.0, 0.5])),
        "shape": draw(st.sampled_from(thermal.SHAPES)),
        "amp": draw(scen.fl(-6.0, 8.0)),
        "amp_s": draw(scen.fl(-6.0, 8.0)),
        "at": draw(st.integers(0, 20)),
        "w_aero": draw(st.one_of(st.just(0.0), st.just(0.0), scen.fl(0.01, 1.0))) if ways in TABLES else 0.0,
        "thermal": model,
        "udm": pams,
        "sunvolc": draw(st.booleans()),
        "sun": draw(scen.maybe(0.0, scen.fl(0.0, 1.0))),
        "volc": draw(scen.maybe(0.0, scen.fl(0.0, 4.0))),
        "volc_cols": draw(st.sampled_from([12, 12, 1, 4])),
        "volc_same": draw(st.booleans()),
        "whole": draw(st.integers(0, 4)) == 0,
    }


def labels(case):
    return [
        f"{case['how']}: {case['layout']}",
        f"thermal {case['thermal']}",
        "sun and volcanoes" if case["sunvolc"] else "no sun and volcanoes",
        f"table longer by {case['pad']}",
        f"years {case['rows']}",
    ] + (["w_aero column"] if case["w_aero"] else [])


def compare(forcing, res, want):
    """Results of a run against reference, all that a forcing run reports"""
    from pbt.core import close

    close("total forcing", res["Total_forcing"], forcing.reported())
    close("solar forcing", res["Solar_forcing"], forcing.sun)
    close("volcanic forcing north", res["Volcanic_forcing_NH"], np.mean(forcing.volc[0], axis=1))
    close("volcanic forcing south", res["Volcanic_forcing_SH"], np.mean(forcing.volc[1], axis=1))
    for key in ref.thermal_out(forcing.case["thermal"]):
        close(key, res[key], want[key])
