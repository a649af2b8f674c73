"""Perturbations add exactly what they say, where they say"""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need, sut

from .common import TRIVIAL, check_years, forc_of, perturbation_of


def run(inp, cfg):
    from ciceroscm import CICEROSCM

    cscm = sut(CICEROSCM, cfg)
    sut(
        cscm._run,  # pylint: disable=protected-access
        {"results_as_dict": True, "carbon_cycle_outputs": True},
        **inp.pams(),
    )
    return cscm.results


def same_results(what, got, want, rtol=1e-9):
    need(set(got) == set(want), f"{what}: other results: {sorted(set(got) ^ set(want))}")
    for key, val in want.items():
        if isinstance(val, pd.DataFrame):
            need(
                sorted(got[key].columns) == sorted(val.columns),
                f"{what}: columns of {key} differ",
            )
            for col in val.columns:
                close(f"{what}: {key} {col}", got[key][col].to_numpy(), val[col].to_numpy(), rtol)
        else:
            close(f"{what}: {key}", got[key], val, rtol)


def check_emissions(case):
    inp = scen.Inputs(case)
    if ref.try_full_run(inp) is None:
        return TRIVIAL
    perturbed = run(inp, inp.cfg())
    check_years(inp, perturbed)
    edited = inp.cfg()
    del edited["perturb_em_data"]
    edited["emissions_data"] = pd.DataFrame(
        {k: v.copy() for k, v in inp.emis.items()}, index=inp.tab_years
    )
    same_results("perturbed against edited emissions", perturbed, run(inp, edited))
    shuffled = inp.cfg()
    order = scen.rng_for(case["order"], "rows").permutation(len(case["pert_em"]))
    shuffled["perturb_em_data"] = shuffled["perturb_em_data"].iloc[order]
    same_results("order of perturbations", run(inp, shuffled), perturbed)
    # the emissions in the results are the perturbed ones, and only these changed
    for comp in inp.em_components():
        if comp not in ("CO2_FF", "CO2_AFOLU"):
            close(f"emissions of {comp}", perturbed["emissions"][comp].to_numpy(), inp.win("emis", comp))
    total = inp.win("emis", "CO2_FF") + inp.win("emis", "CO2_AFOLU")
    close("emissions of CO2", perturbed["emissions"]["CO2"].to_numpy(), total)
    inside = [p for p in case["pert_em"] if inp.ny0 <= inp.pert_year(p[1]) <= inp.nyend and p[2]]
    return {
        "nontrivial": len(inside) > 0,
        "classes": [f"{len(case['pert_em'])} rows"] + sorted({p[0] for p in inside}),
    }


@st.composite
def emission_cases(draw):
    case = draw(scen.scenario(thermal=("twolayer", "twolayer", "default"), min_years=2, max_years=10))
    nyears = case["nyears"]
    comps = ["CO2", "CO2_FF", "CO2_AFOLU", "CH4", "N2O", *scen.NEEDED_EMIS, *case["gases"]]
    case["pert_em"] = draw(
        st.lists(
            st.tuples(
                st.sampled_from(comps),
                st.one_of(st.integers(0, nyears - 1), st.sampled_from(["ref", "2000"])),
                scen.fl(-3.0, 6.0),
            ).map(list),
            min_size=1,
            max_size=8,
        )
    )
    if draw(st.booleans()):
        case["pert_em"].append([*case["pert_em"][0][:2], draw(scen.fl(-2, 2))])
    case["order"] = draw(st.integers(0, 1000))
    return case


def check_forcing(case):
    inp = scen.Inputs(case)
    plain_case = dict(case, pert_forc=[])
    if ref.try_full_run(inp) is None or ref.try_full_run(scen.Inputs(plain_case)) is None:
        return TRIVIAL
    perturbed = run(inp, inp.cfg())
    check_years(inp, perturbed)
    plain = run(inp, scen.Inputs(plain_case).cfg())
    got, base, pert = forc_of(inp, perturbed), forc_of(inp, plain), perturbation_of(inp)
    feedback = set() if inp.conc_run else {"CO2", "N2O"}
    for gas in inp.gas:
        if gas not in feedback:
            close(
                f"forcing of {gas} with perturbation",
                got[gas],
                base[gas] + pert[gas],
                scale=max(1.0, float(np.max(np.abs(base[gas])))),
            )
    total = np.sum(list(got.values()), axis=0)
    if not case["emi"].get("just_one"):
        close("total forcing", perturbed["Total_forcing"], total)
    if inp.conc_run and not case["emi"].get("just_one"):
        close(
            "change of total forcing",
            perturbed["Total_forcing"] - plain["Total_forcing"],
            np.sum(list(pert.values()), axis=0),
            scale=10.0,
        )
        for name in ("emissions", "concentrations"):
            for col in plain[name].columns:
                close(f"{name} of {col}", perturbed[name][col].to_numpy(), plain[name][col].to_numpy())
    shuffled = inp.cfg()
    order = scen.rng_for(case["order"], "rows").permutation(len(case["pert_forc"]))
    shuffled["perturb_forc_data"] = shuffled["perturb_forc_data"].iloc[order]
    same_results("order of perturbations", run(inp, shuffled), perturbed)
    inside = [p for p in case["pert_forc"] if 0 <= p[1] < inp.nyears and p[0] in inp.gas]
    if not inside and not inp.conc_run:
        same_results("perturbations out of the run", perturbed, plain)
    return {
        "nontrivial": len(inside) > 0,
        "classes": ["concentration run" if inp.conc_run else "emission run"]
        + sorted({p[0] for p in inside}),
    }


@st.composite
def forcing_cases(draw):
    case = draw(
        scen.scenario(thermal=("twolayer", "twolayer", "default"), conc_run=(True, False), min_years=1, max_years=10)
    )
    nyears = case["nyears"]
    comps = [*scen.MAIN, *scen.FIXED, *case["gases"], *case["gases"], "not_there"]
    comps = [c for c in comps if c not in ("OTHER_GAS",)]
    case["pert_forc"] = draw(
        st.lists(
            st.tuples(
                st.sampled_from(comps),
                st.one_of(st.integers(0, nyears - 1), st.integers(-2, nyears + 1)),
                scen.fl(-2.0, 3.0),
            ).map(list),
            min_size=1,
            max_size=8,
        )
    )
    if draw(st.booleans()):
        case["pert_forc"].append([*case["pert_forc"][0][:2], draw(scen.fl(-2, 2))])
    case["order"] = draw(st.integers(0, 1000))
    return case


PROPERTY = {
    "id": "C07",
    "rule": (
        "1-9 perturbation rows (also repeated rows, any component, years in and out of the run) in "
        "drawn scenarios, against edited tables, unperturbed runs and shuffled rows; non-trivial when "
        "a row with a value lies within the run."
    ),
    "subs": [
        Sub("emissions", emission_cases, check_emissions, 480, 20000),
        Sub("forcing", forcing_cases, check_forcing, 640, 25000),
    ],
}
