"""Regional aerosol emissions are counted once"""

import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, identical, need, sut

from .common import TRIVIAL, compare_full, forc_name, scenario_classes

DEFAULT_MAP = {"ASIA": "EAS", "LAM": "SAM", "MAF": "NAF", "OECD": "NAM", "REF": "RBU"}
PAM = {"SO2": "qdirso2", "BC": "qbc", "OC": "qoc"}
# some are part of the name of others
REGIONS = ["ASIA", "EASIA", "WASIA", "OECD", "LAM", "REF", "X_1", "1", "X"]
FORCING_REGIONS = ["EAS", "SAM", "NAF", "NAM", "RBU", "EUR", "SAS"]


def factors(case):
    """Factors per forcing region and aerosol, in the units of the forcing data"""
    rng = scen.rng_for(case["seed"], "factors")
    table = pd.DataFrame(index=case["rows"], columns=case["aerosols"], dtype=float)
    for col in case["aerosols"]:
        table[col] = rng.uniform(-0.02, 0.02, len(case["rows"])) / case["conversion"]
        if case["seed"] % 3 == 0:
            table.loc[rng.uniform(0, 1, len(table)) < 0.3, col] = 0.0
        elif case["seed"] % 7 == 0:
            table[col] = table[col].iloc[0]
    return table


def same_table(name, got, want):
    need(list(got.columns) == list(want.columns), f"{name}: columns changed")
    for row in want.index:
        for col in want.columns:
            one, two = got.loc[row, col], want.loc[row, col]
            same = one == two if isinstance(two, str) else np.isclose(float(one), float(two), rtol=1e-12, atol=0)
            need(same, f"{name}: {col} of {row} is {one!r} instead of {two!r}")


def check_table(case):
    """The gas table that is made"""
    from ciceroscm.pub_utils import make_regional_aerosol_gaspamdata

    inp = scen.Inputs(case["scenario"])
    gases = inp.gaspam_df()
    table = factors(case)
    given, given_f = gases.copy(deep=True), table.copy(deep=True)
    args = {}
    mapping = DEFAULT_MAP if case["mapping"] is None else case["mapping"]
    if case["mapping"] is not None:
        args["reg_mapping"] = dict(case["mapping"])
    if case["conversion"] != 1e9 or case["spell_out"]:
        args["unit_conversion"] = case["conversion"]
    got = sut(make_regional_aerosol_gaspamdata, gases, table, **args)
    again = sut(make_regional_aerosol_gaspamdata, gases, table, **args)
    same_table("input table", gases, given)
    need(list(gases.index) == list(given.index), "rows of the input table changed")
    identical("factor table", table.to_numpy(), given_f.to_numpy())
    new = [f"{aero}_{reg}" for aero in case["aerosols"] for reg in mapping]
    need(
        sorted(got.index) == sorted([*given.index, *new]),
        f"rows {sorted(set(got.index) ^ set([*given.index, *new]))} too many or missing",
    )
    same_table("rows of the given table", got, given)
    for aero in case["aerosols"]:
        for reg, row in mapping.items():
            name = f"{aero}_{reg}"
            for col in given.columns:
                want = given.loc[aero, col]
                if col == "ALPHA":
                    want = given_f.loc[row, aero] * case["conversion"]
                    close(f"ALPHA of {name}", got.loc[name, col], want, atol=0)
                else:
                    need(got.loc[name, col] == want, f"{col} of {name} is {got.loc[name, col]!r} not {want!r}")
    need(list(again.index) == list(got.index), "different rows when made again")
    same_table("made again", again, got)
    return {
        "nontrivial": bool(new),
        "classes": [f"{len(mapping)} regions", "default regions" if case["mapping"] is None else "given regions"]
        + [f"aerosol {a}" for a in case["aerosols"]],
    }


@st.composite
def table_cases(draw):
    own = draw(st.booleans())
    mapping = None
    if own:
        mapping = draw(
            st.dictionaries(
                st.sampled_from(["ASIA", "OECD", "R1", "R2", "R12", "north_sea", "sea", "X_1", "EAS", "WASIA", "EASIA"]),
                st.sampled_from(FORCING_REGIONS),
                min_size=1,
                max_size=5,
            )
        )
    rows = list(FORCING_REGIONS)
    scen.rng_for(draw(st.integers(0, 99)), "rows").shuffle(rows)
    return {
        "seed": draw(st.integers(0, 10**6)),
        "scenario": draw(scen.scenario(min_years=2, max_years=2, perturb=False)),
        "aerosols": draw(st.lists(st.sampled_from(["SO2", "BC", "OC", "NH3", "NOx"]), unique=True, min_size=1, max_size=4)),
        "mapping": mapping,
        "rows": rows,
        "conversion": draw(st.sampled_from([1e9, 1e9, 1.0, 1e3, 2.5])),
        "spell_out": draw(st.booleans()),
    }


def check_runs(case):
    """Runs with a table with regional components, several with the same model object"""
    from ciceroscm import CICEROSCM
    from ciceroscm.pub_utils import make_regional_aerosol_gaspamdata

    inp = scen.Inputs(case)
    if ref.try_full_run(inp) is None:
        return TRIVIAL
    cfg = inp.cfg()
    if case["made_table"]:
        plain = copy.deepcopy(case)
        plain["regional"] = {}
        regions = sorted({r for alphas in case["regional"].values() for r in alphas})
        full = all(sorted(alphas) == regions for alphas in case["regional"].values())
        if full:
            table = pd.DataFrame(case["regional"]) / 1e9
            cfg["gaspam_data"] = sut(
                make_regional_aerosol_gaspamdata,
                scen.Inputs(plain).gaspam_df(),
                table.loc[regions],
                {r: r for r in regions},
            )
    cscm = sut(CICEROSCM, cfg)
    aerosol_max = 0.0
    for number, emi in enumerate([case["emi"], *case["more"]]):
        this = copy.deepcopy(case)
        # the period of the tables goes with the reference year
        this["emi"] = {k: v for k, v in emi.items() if k != "ref_yr"}
        if "ref_yr" in case["emi"]:
            this["emi"]["ref_yr"] = case["emi"]["ref_yr"]
        now = scen.Inputs(this)
        expected = ref.try_full_run(now)
        if expected is None:
            continue
        sut(cscm._run, {"results_as_dict": True}, **now.pams())  # pylint: disable=protected-access
        res = cscm.results
        compare_full(now, res, expected)
        for base, alphas in case["regional"].items():
            for reg, alpha in alphas.items():
                em = now.win("emis", f"{base}_{reg}")
                got = res["forcing"][f"{base}_{reg}"].to_numpy()
                close(f"run {number}: {base}_{reg}", got, alpha * (em - em[0]))
                aerosol_max = max(aerosol_max, float(np.max(np.abs(got))))
            if not now.gas[base]["ALPHA"]:
                close(f"run {number}: global {base}", res["forcing"][forc_name(base)].to_numpy(), np.zeros(now.nyears), atol=0)
    return {
        "nontrivial": inp.nyears > 1 and aerosol_max > 1e-6,
        "classes": scenario_classes(case)
        + [f"regions of {b}" for b in case["regional"]]
        + [f"{1 + len(case['more'])} runs"],
    }


@st.composite
def run_cases(draw):
    case = draw(scen.scenario(min_years=2, max_years=9, max_gases=3))
    case["pert_em"] = case["pert_em"][:1]
    case["pert_forc"] = []
    same = draw(st.booleans())
    regs = draw(st.lists(st.sampled_from(REGIONS), unique=True, min_size=1, max_size=3))
    alpha = scen.fl(-0.02, 0.02).filter(bool)
    bases = draw(st.lists(st.sampled_from(["SO2", "BC", "OC"]), unique=True, min_size=1))
    case["regional"] = {
        base: {r: draw(alpha) for r in (regs if same else draw(st.lists(st.sampled_from(REGIONS), unique=True, min_size=1, max_size=4)))}
        for base in bases
    }
    # the global component with a factor of its own is a different thing
    case["aero_alpha"] = {k: v for k, v in case.get("aero_alpha", {}).items() if k not in bases}
    case["made_table"] = same
    for base in bases:
        if draw(st.booleans()):
            case["emi"][PAM[base]] = draw(scen.fl(*scen.EMI_RANGES[PAM[base]]))
    case["carbon"] = {}
    case["more"] = draw(st.lists(scen.emi_pams(), max_size=2))
    return case


PROPERTY = {
    "id": "C29",
    "rule": (
        "Gas tables made from drawn factors, regions, mappings and conversions, checked row by row; runs with "
        "drawn regional components (also of tables made by the library) with the forcing parameters of the "
        "aerosols given or not, up to three with the same model object, against the reference model. "
        "Non-trivial: new rows; forcing of at least one region is not zero."
    ),
    "subs": [
        Sub("tables", table_cases, check_table, 300, 8000),
        Sub("runs", run_cases, check_runs, 350, 12000),
    ],
}
