"""Forcing runs use the forcing they are given"""

import numpy as np
from hypothesis import strategies as st

from pbt import ref
from pbt.core import Sub, identical, scratch_dir

from . import forcrun
from .common import TRIVIAL


def check_reference(case):
    forcing = forcrun.Forcing(case)
    want = forcing.reference()
    if want is None:
        return TRIVIAL
    with scratch_dir() as folder:
        res = forcrun.run(forcing.cfg(folder), case["udm"])
    forcrun.compare(forcing, res, want)
    return {
        "nontrivial": case["nyears"] > 1 and np.max(np.abs(want["dT_glob"])) > 0.01,
        "classes": forcrun.labels(case),
    }


def check_formats(case):
    """The same forcing given in all ways that can hold it gives the same run"""
    forcing = forcrun.Forcing(case)
    if forcing.reference() is None:
        return TRIVIAL
    ways = [("csv", "total"), ("csv", "all"), ("table", "total"), ("csv", "hemispheres")]
    if case["layout"] == "total":
        ways += [("array", "total"), ("text", "total")]
    first = None
    for how, layout in ways:
        same = forcrun.Forcing(dict(case, how=how, layout=layout))
        same.total, same.north, same.south = forcing.total, forcing.north, forcing.south
        if layout == "total" and how == "csv" and case["layout"] != "total":
            continue
        if layout == "hemispheres" and case["layout"] == "all":
            continue
        with scratch_dir() as folder:
            res = forcrun.run(same.cfg(folder), case["udm"])
        if first is None:
            first = res
            continue
        for key in [*ref.thermal_out(case["thermal"]), *(k for k in res if "forcing" in k)]:
            identical(f"{key} from {how} {layout}", res[key], first[key])
    return {"nontrivial": case["nyears"] > 1 and np.max(np.abs(first["dT_glob"])) > 0.01, "classes": forcrun.labels(case)}


@st.composite
def format_cases(draw):
    case = draw(forcrun.forcing_runs(how=("csv",), max_years=8))
    case["layout"] = draw(st.sampled_from(["total", "hemispheres", "all"]))
    case["w_aero"] = 0.0
    return case


PROPERTY = {
    "id": "C23",
    "rule": (
        "Forcing runs with drawn series given as array, table, single column file or csv file with total, "
        "hemispheres, components or mixtures (tables also longer than the run, any order of columns), drawn sun "
        "and volcanoes, both thermal models, against the reference thermal model; the same forcing given in "
        "different ways. Non-trivial: warming above 0.01 K over more than a year."
    ),
    "subs": [
        Sub("reference", forcrun.forcing_runs, check_reference, 800, 30000),
        Sub("formats", format_cases, check_formats, 250, 8000),
    ],
}
