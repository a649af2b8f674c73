"""Names, units and values of the variables of an ensemble"""

from hypothesis import strategies as st

from pbt.core import Sub, scratch_dir, sut

from . import ensemble
from .common import TRIVIAL


def check(case):
    with scratch_dir() as folder:
        return check_in(case, folder)


def check_in(case, folder):
    from ciceroscm.parallel.cscmparwrapper import run_ciceroscm_parallel

    scens, cfgs, inputs = ensemble.build(case, folder)
    if not ensemble.in_domain(inputs):
        return TRIVIAL
    variables = ensemble.pick_variables(case, inputs, 200)
    rows = ensemble.expected_rows(case, inputs, variables)
    table = sut(run_ciceroscm_parallel, scens, cfgs, variables, 1)
    ensemble.compare(table, rows)
    sub = case["scens"][0]
    return {
        "nontrivial": len(rows) > 30,
        "classes": ["concentration run" if sub["conc_run"] else "emission run", sub["thermal"]],
    }


@st.composite
def cases(draw):
    case = draw(ensemble.ensembles(max_scens=1, max_cfgs=2, max_years=8))
    sub = case["scens"][0]
    more = ["CFC-11", "HFC134a", "SF6", "H-1211", "HCFC-22", "cC4F8", "CF4", "NF3", "SO2F2", "CH3Br", "HFC4310mee"]
    sub["gases"] = sorted(set(sub["gases"]) | set(draw(st.lists(st.sampled_from(more), unique=True, max_size=8))))
    sub["conc_amp"] = draw(st.sampled_from([0.01, 0.1]))
    return case


PROPERTY = {
    "id": "C27",
    "rule": (
        "Ensembles of one scenario and 1-2 configurations asked for all variables that the gas "
        "table allows (in drawn order); non-trivial when more than 30 rows are compared."
    ),
    "subs": [Sub("variables", cases, check, 320, 12000)],
}
