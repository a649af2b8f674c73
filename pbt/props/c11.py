"""Stratospheric ozone loss follows chlorine and bromine"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need, sut

from .common import TRIVIAL, check_years, conc_of, forc_of, perturbation_of, run_in_domain

NO_HALOGEN = [g for g in [*scen.GASES, *scen.EXTRA_GASES] if g not in scen.CL_ATOMS and g not in scen.BR_ATOMS]


def check(case):
    got = run_in_domain(case, carbon_outputs=False)
    if got is None:
        return TRIVIAL
    inp, res, _ = got
    check_years(inp, res)
    conc, pert = conc_of(inp, res), perturbation_of(inp)
    want = ref.strat_o3_forcing(inp, conc)
    got_forc = forc_of(inp, res)["STRAT_O3"] - pert["STRAT_O3"]
    scale = max(np.max(np.abs(want)), 1e-3)
    # small differences of large concentrations
    for gas in inp.vanilla:
        if gas in inp.br_atoms:
            scale = max(scale, 1e-3 * inp.br_atoms[gas] * np.max(np.abs(conc[gas])))
        if gas in inp.cl_atoms:
            scale = max(scale, 1e-6 * (inp.cl_atoms[gas] * np.max(np.abs(conc[gas]))) ** 1.7)
    close("forcing of STRAT_O3", got_forc, want, scale=scale)
    need(np.all(np.abs(got_forc[:3]) < 1e-12), "forcing of STRAT_O3 in the first three years")
    halogens = [g for g in inp.vanilla if g in inp.cl_atoms or g in inp.br_atoms]
    return {
        "nontrivial": np.max(np.abs(want)) > 1e-6,
        "classes": [
            f"{min(len(halogens), 5)} halogen gases",
            "falling" if any(conc[g][-1] < conc[g][0] for g in halogens) else "not falling",
        ],
    }


@st.composite
def cases(draw):
    case = draw(scen.scenario(thermal=("twolayer",), min_years=3, max_years=18, max_gases=4))
    halogens = sorted({*scen.CL_ATOMS, *scen.BR_ATOMS})
    case["gases"] = sorted({*case["gases"], *draw(st.lists(st.sampled_from(halogens), max_size=6, unique=True))})
    case["made"] = draw(st.lists(scen.made_gas_specs(), max_size=3))
    case["conc_amp"] = draw(st.sampled_from([0.0, 0.1, 0.4]))
    return case


def check_names(case):
    from ciceroscm.pub_utils import make_cl_and_br_dictionaries

    names, chlor, brom = [], {}, {}
    for item in case["items"]:
        if isinstance(item, str):
            name, num_cl, num_br = item, scen.CL_ATOMS.get(item, 0), scen.BR_ATOMS.get(item, 0)
        else:
            name, num_cl, num_br = scen.made_gas(item)
        if name in names:
            continue
        names.append(name)
        if num_cl:
            chlor[name] = num_cl
        if num_br:
            brom[name] = num_br
    got_cl, got_br = sut(make_cl_and_br_dictionaries, names)
    got_cl = {k: v for k, v in got_cl.items() if v != 0}
    got_br = {k: v for k, v in got_br.items() if v != 0}
    need(dict(got_cl) == chlor, f"chlorine atoms {got_cl} instead of {chlor}")
    need(dict(got_br) == brom, f"bromine atoms {got_br} instead of {brom}")
    return {"nontrivial": bool(chlor or brom), "classes": [f"{min(len(names), 6)} names"]}


def name_cases():
    known = st.sampled_from([*scen.GASES, *scen.EXTRA_GASES])
    return st.fixed_dictionaries(
        {"items": st.lists(st.one_of(known, scen.made_gas_specs(), scen.made_gas_specs()), min_size=1, max_size=12)}
    )


PROPERTY = {
    "id": "C11",
    "rule": (
        "Scenarios of 3-18 years with up to 13 halocarbons, among them gases composed of drawn numbers of "
        "atoms and named by the conventions; non-trivial when the forcing exceeds 1e-6 W/m2. Names alone: "
        "non-trivial when any has chlorine or bromine."
    ),
    "subs": [
        Sub("forcing", cases, check, 1100, 40000),
        Sub("names", name_cases, check_names, 3200, 100000),
    ],
}
