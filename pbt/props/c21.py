"""Inputs from files and from data"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need, scratch_dir, sut

from . import files
from .common import TRIVIAL, scenario_classes

RTOL = 1e-9  # files are parsed to within a rounding error


def run(cfg, inp, carbon):
    from ciceroscm import CICEROSCM

    cscm = sut(CICEROSCM, cfg)
    sut(
        cscm._run,  # pylint: disable=protected-access
        {"results_as_dict": True, "carbon_cycle_outputs": carbon},
        **inp.pams(),
    )
    return cscm.results


def compare(got, want, rtol=RTOL):
    need(set(got) == set(want), f"results {sorted(set(got) ^ set(want))} only in one of the runs")
    for key, val in want.items():
        if isinstance(val, np.ndarray):
            close(key, got[key], val, rtol)
            continue
        need(set(got[key].columns) == set(val.columns), f"columns of {key} differ")
        close(f"years of {key}", np.array(got[key].index, dtype=float), np.array(val.index, dtype=float))
        for col in val.columns:
            close(f"{col} of {key}", got[key][col].to_numpy(dtype=float), val[col].to_numpy(dtype=float), rtol)


def check(case):
    if ref.try_full_run(scen.Inputs(case)) is None:
        return TRIVIAL
    inp = scen.Inputs(case)
    # carbon cycle outputs of concentration runs come from a search with a tolerance
    carbon = not case["conc_run"]
    want = run(inp.cfg(), inp, carbon)
    inp = scen.Inputs(case)
    with scratch_dir() as folder:
        cfg = inp.cfg()
        done = files.to_files(inp, cfg, folder, case["as_files"], case["sep"], case["extra"])
        if case["overridden"] and case["sunvolc"] and case["volc_same"]:
            # hemispheric volcanic files count only without a file for both
            for hem in "ns":
                path = f"{folder}/other_{hem}.txt"
                files.write_rows(path, [[55.0]] * (inp.nyend - 1750 + 1 if inp.ny0 >= 1750 else inp.nyears))
                cfg[f"rf_volc_{hem}_file"] = path
        got = run(cfg, inp, carbon)
    compare(got, want)
    return {
        "nontrivial": bool(done) and inp.nyears > 1,
        "classes": scenario_classes(case) + [f"{d} file" for d in done],
    }


@st.composite
def cases(draw):
    case = draw(scen.scenario(min_years=2, max_years=14, max_gases=4))
    which = draw(st.lists(st.sampled_from(files.CHOICES), unique=True, min_size=1))
    case["as_files"] = [c for c in files.CHOICES if c in which]
    case["sep"] = draw(st.sampled_from(["\t", " ", "  ", " \t "]))
    case["extra"] = draw(st.sampled_from([0, 1, 5]))
    case["overridden"] = draw(st.booleans())
    return files.fits_files(case, set(which))


PROPERTY = {
    "id": "C21",
    "rule": (
        "Drawn scenarios run once with all inputs as data and once with a drawn subset of the inputs as files "
        "(columns shuffled, different separators, tables longer than the run, rows from 1750); all results "
        "compared. Periods with emission or concentration files contain the reference years, as such files are "
        "cut to the period. Non-trivial: at least one input is a file and the run has more than a year."
    ),
    "subs": [Sub("mix", cases, check, 700, 25000)],
}
