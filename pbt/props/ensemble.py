"""Generated ensembles and what they should give"""

import copy
import os

import numpy as np
from hypothesis import strategies as st

from pbt import reader, ref, scen
from pbt.core import close, need, sut

from . import files

HEAD = ["climate_model", "model", "run_id", "scenario", "region", "variable", "unit"]


def run_name(case, num):
    """Name of a configuration, some have the same, some are numbers"""
    num = num // case.get("same_names", 1)
    if case.get("falling"):
        num = 20 - num
    return num if case.get("numbers") else f"{case.get('prefix', '')}{num}"


def scen_name(case, num):
    return case.get("scen_names", SCEN_NAMES)[num]


SCEN_NAMES = ["scen0", "scen1", "scen2", "scen10", "SSP", "ssp585", "a-b", "2C", "Überall"]


def build(case, folder=None):
    """
    Scenario dictionaries, configurations and Inputs per scenario and configuration

    Some scenarios have the gas table as a file, if there is a folder for it
    """
    scens, cfgs, inputs = [], [], {}
    for i, sub in enumerate(case["scens"]):
        inp = scen.Inputs(sub)
        cfg = inp.cfg()
        path = None
        if folder is not None and sub["seed"] % 3 == 0:
            path = os.path.join(folder, f"gases{i}.txt")
            files.write_gaspam(inp, path, old_names=sub["seed"] % 2 == 0)
            del cfg["gaspam_data"]
            cfg["gaspam_file"] = path
        cfg["scenname"] = scen_name(case, i)
        scens.append(cfg)
        for j, pams in enumerate(case["cfgs"]):
            full = dict(sub, udm=pams["udm"], emi=pams["emi"], carbon=pams["carbon"])
            inputs[i, j] = scen.Inputs(full)
            inputs[i, j].gas_file = path
    for j, pams in enumerate(case["cfgs"]):
        cfg = {
            "pamset_udm": dict(pams["udm"]),
            "pamset_emiconc": dict(pams["emi"]),
            "pamset_carbon": copy.deepcopy(pams["carbon"]),
            "Index": run_name(case, j),
        }
        for key in pams.get("leave_out", []):
            if not cfg[key]:
                del cfg[key]
        cfgs.append(cfg)
    return scens, cfgs, inputs


def in_domain(inputs):
    return all(ref.try_full_run(inp) is not None for inp in inputs.values())


def single(inp):
    """Results of one run with a fresh model"""
    from ciceroscm import CICEROSCM

    cfg = inp.cfg()
    if inp.gas_file:
        del cfg["gaspam_data"]
        cfg["gaspam_file"] = inp.gas_file
    cscm = sut(CICEROSCM, cfg)
    sut(
        cscm._run,  # pylint: disable=protected-access
        {"results_as_dict": True, "carbon_cycle_outputs": True},
        **inp.pams(),
    )
    return cscm.results


def expected_rows(case, inputs, variables):
    """Rows in order: scenario, configuration, variable"""
    rows = []
    for i in range(len(case["scens"])):
        for j in range(len(case["cfgs"])):
            inp = inputs[i, j]
            res = single(inp)
            for variable in variables:
                want = reader.expected(inp, res, variable)
                if want is None:
                    continue
                head = [
                    "CICERO-SCM-PY",
                    scen_name(case, i),
                    str(run_name(case, j)),
                    scen_name(case, i),
                    "World",
                    variable,
                    want[1],
                ]
                rows.append((head, inp.years, np.asarray(want[0], dtype=float)))
    return rows


def compare(table, rows):
    """The ensemble table has exactly the expected rows"""
    need(
        len(table) == len(rows), f"{len(table)} rows in the ensemble instead of {len(rows)}"
    )
    for col in HEAD:
        need(col in table.columns, f"no column {col} in the ensemble")
    all_years = sorted({y for _, years, _ in rows for y in years})
    got_years = sorted(int(c) for c in table.columns if c not in HEAD)
    need(got_years == all_years, "the years of the ensemble are not those of its scenarios")
    records = [[str(table[col].iloc[k]) for col in HEAD] for k in range(len(table))]
    vals = table[all_years].to_numpy(dtype=float)
    for k, (head, years, want) in enumerate(rows):
        need(records[k] == head, f"row {records[k]} instead of {head}")
        full = np.full(len(all_years), np.nan)
        full[[all_years.index(y) for y in years]] = want
        close(f"{head[2:4] + head[5:6]}", vals[k], full, rtol=1e-10)


@st.composite
def ensembles(draw, max_scens=3, max_cfgs=5, max_years=6):
    scens = [
        draw(scen.scenario(carbon=("default",), min_years=1, max_years=max_years, emi=False))
        for _ in range(draw(st.integers(1, max_scens)))
    ]
    # one thermal model for all, as they share the configurations
    thermal = draw(st.sampled_from(["default", "default", "twolayer"]))
    for sub in scens:
        sub["thermal"] = thermal
    ny0 = scens[0]["ny0"]
    for sub in scens[1:]:
        if draw(st.booleans()):
            sub["ny0"], sub["nyears"] = ny0, scens[0]["nyears"]
            sub["pert_em"] = [p for p in sub["pert_em"] if isinstance(p[1], str) or p[1] < sub["nyears"]]
    # tables with the reference year of all members
    ref_yr = draw(st.sampled_from([None, None, 2005, 1995, 2014]))
    if ref_yr:
        for sub in scens:
            sub["refs"] = [2010, ref_yr]
    cfgs = []
    for _ in range(draw(st.integers(1, max_cfgs))):
        emi = draw(scen.emi_pams())
        if emi.pop("ref_yr", None) and ref_yr:
            emi["ref_yr"] = ref_yr
        cfgs.append(
            {
                "udm": draw(
                    st.one_of(
                        st.just({"ldtime": 2} if thermal == "default" else {}),
                        scen.udm_pams(ldtime=[1, 2]) if thermal == "default" else scen.two_pams(),
                    )
                ),
                "emi": emi,
                "carbon": draw(st.one_of(st.just({}), scen.carbon_pams())),
                "leave_out": draw(
                    st.lists(st.sampled_from(["pamset_udm", "pamset_emiconc", "pamset_carbon"]), unique=True)
                ),
            }
        )
    return {
        "scen_names": draw(st.permutations(SCEN_NAMES))[: len(scens)],
        "numbers": draw(st.integers(0, 3)) == 0,
        "falling": draw(st.booleans()),
        "scens": scens,
        "cfgs": cfgs,
        "prefix": draw(st.sampled_from(["", "run_", "10"])),
        "same_names": draw(st.sampled_from([1, 1, 1, 2, 3])),
        "var_seed": draw(st.integers(0, 10**6)),
    }


def pick_variables(case, inputs, num):
    """Variables that all scenarios have, in drawn order"""
    common = None
    for inp in inputs.values():
        have = reader.names(inp)
        common = have if common is None else [v for v in common if v in have]
    rng = scen.rng_for(case["var_seed"], "vars")
    rng.shuffle(common)
    chosen = [str(v) for v in common[:num]]
    for _ in range(rng.integers(0, 3)):
        chosen.insert(int(rng.integers(0, len(chosen) + 1)), str(rng.choice(reader.UNKNOWN)))
    return chosen
