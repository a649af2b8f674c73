"""Output files hold the results"""

import os

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, Violation, need, scratch_dir, sut

from . import forcrun
from .common import TRIVIAL, scenario_classes

TABLES = {"em": "emissions", "conc": "concentrations", "forc": "forcing", "carbon": "carbon cycle"}
COLUMNS = {
    "ohc": {"OHC700", "OHCTOT"},
    "rib": {"RIB_glob", "RIB_N", "RIB_S"},
    "temp": {
        "dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea", "dT_NH_sea", "dT_SHsea",
    },
    "sunvolc": {"Solar_forcing", "Volcanic_forcing_NH", "Volcanic_forcing_SH"},
}  # fmt: skip


def parse(path):
    """Columns of a file"""
    with open(path, encoding="utf8") as fin:
        lines = fin.read().split("\n")
    need(lines[-1] == "", f"{os.path.basename(path)} does not end with a line break")
    rows = [line.split("\t") for line in lines[:-1]]
    need(all(len(row) == len(rows[0]) for row in rows), f"{os.path.basename(path)} has rows of different length")
    need(len(set(rows[0])) == len(rows[0]), f"{os.path.basename(path)} has a column twice")
    try:
        vals = np.array([[float(x) if x else np.nan for x in row] for row in rows[1:]])
    except ValueError as exc:
        raise Violation(f"{os.path.basename(path)}: {exc}") from exc
    return {name: vals[:, i] for i, name in enumerate(rows[0])}


def same_printed(name, got, want):
    """Equal within half a unit of the last printed digit"""
    want = np.asarray(want, dtype=float)
    need(got.shape == want.shape, f"{name} has {got.shape[0]} rows instead of {want.shape[0]}")
    bad = ~((np.abs(got - want) <= 5.01e-6 * np.abs(want) + 1e-13) | (np.isnan(got) & np.isnan(want)))
    bad &= ~(got == want)
    if np.any(bad):
        i = int(np.argmax(bad))
        raise Violation(f"{name}: row {i} has {got[i]!r} for {want[i]!r}")


def check_folder(folder, prefix, res, years, tables):
    for short in ["ohc", "rib", "temp", "sunvolc", *tables]:
        cols = parse(os.path.join(folder, f"{prefix}_{short}.txt"))
        if short != "carbon" or "Year" in cols:
            need("Year" in cols, f"{short} has no years")
            same_printed(f"years of {short}", cols.pop("Year"), years)
        if short in COLUMNS:
            want = {k: res[k] for k in COLUMNS[short] if k in res}
        elif TABLES[short] in res:
            table = res[TABLES[short]]
            want = {c: table[c].to_numpy(dtype=float) for c in table.columns if c != "Year"}
        else:
            want = {"Total_forcing": res["Total_forcing"]}
        need(set(want) == set(cols), f"columns of {short} differ by {sorted(set(want) ^ set(cols))}")
        for name, vals in want.items():
            same_printed(f"{name} in {short}", cols[name], vals)


def file_list(folder):
    return sorted(
        os.path.relpath(os.path.join(base, name), folder) for base, _, names in os.walk(folder) for name in names
    )


def where(case, num, top):
    """Run configuration, folder and prefix of the run with this number"""
    run_cfg = {}
    folder, prefix = case["folders"][num], case["prefixes"][num]
    if folder is not None:
        run_cfg["output_folder"] = os.path.join(top, folder) if case["absolute"] else folder
    if prefix is not None:
        run_cfg["output_prefix"] = prefix
    folder = os.path.join(top, folder or "output")
    os.makedirs(folder, exist_ok=True)
    return run_cfg, folder, "output" if prefix is None else prefix


def run_and_compare(case, make, runs, years, tables):
    """
    make() gives a new model object and runs[i](object, cfg) runs it

    Two runs of one object to files, each file against the run that wrote it last
    """
    back = os.getcwd()
    with scratch_dir() as top:
        os.chdir(top)
        try:
            cscm = make()
            written = {}
            for num, run in enumerate(runs):
                data = {"carbon_cycle_outputs": True} if "carbon" in tables else {}
                other = make()
                run(other, {"results_as_dict": True, **data})
                run_cfg, folder, prefix = where(case, num, top)
                if case["explicit"]:
                    run_cfg["results_as_dict"] = False
                run(cscm, {**run_cfg, **data})
                written[(folder, prefix)] = other.results
            expected = []
            for (folder, prefix), res in written.items():
                names = [f"{prefix}_{s}.txt" for s in ["ohc", "rib", "temp", "sunvolc", *tables]]
                expected += [os.path.relpath(os.path.join(folder, n), top) for n in names]
            found = file_list(top)
            need(found == sorted(expected), f"files {sorted(set(found) ^ set(expected))} are missing or too many")
            for (folder, prefix), res in written.items():
                check_folder(folder, prefix, res, years, tables)
        finally:
            os.chdir(back)


def check_full(case):
    if ref.try_full_run(scen.Inputs(case)) is None:
        return TRIVIAL
    inp = scen.Inputs(case)
    from ciceroscm import CICEROSCM

    def run_with(factor):
        def run(cscm, run_cfg):
            pams = inp.pams()
            if factor != 1.0:
                pams["pamset_emiconc"]["qbc"] = 0.01 * factor
            sut(cscm._run, run_cfg, **pams)  # pylint: disable=protected-access

        return run

    tables = ["em", "conc", "forc"] + (["carbon"] if case["carbon_out"] else [])
    runs = [run_with(1.0), run_with(case["factor"])][: case["runs"]]
    run_and_compare(case, lambda: sut(CICEROSCM, inp.cfg()), runs, inp.years, tables)
    return {
        "nontrivial": inp.nyears > 1,
        "classes": scenario_classes(case) + labels(case) + (["carbon cycle file"] if case["carbon_out"] else []),
    }


def labels(case):
    return [
        f"{case['runs']} runs",
        "folder given" if case["folders"][0] else "default folder",
        "default prefix" if case["prefixes"][0] is None else "prefix given" if case["prefixes"][0] else "empty prefix",
    ]


def check_forcing(case):
    forcing = forcrun.Forcing(case)
    if forcing.reference() is None:
        return TRIVIAL
    from ciceroscm import CICEROSCM

    def run_with(factor):
        def run(cscm, run_cfg):
            pams = dict(case["udm"])
            pams["ocean_efficacy"] = pams.get("ocean_efficacy", 1.0) * factor
            sut(cscm._run, run_cfg, pamset_udm=pams)  # pylint: disable=protected-access

        return run

    with scratch_dir() as inputs:
        runs = [run_with(1.0), run_with(case["factor"])][: case["runs"]]
        run_and_compare(case, lambda: sut(CICEROSCM, forcing.cfg(inputs)), runs, forcing.years, ["forc"])
    return {"nontrivial": case["nyears"] > 1, "classes": forcrun.labels(case) + labels(case)}


FOLDERS = st.sampled_from([None, "output_test", "out/sub folder", "a.b", " c "])
PREFIXES = st.sampled_from([None, "", "run", "run 1", "ssp245.v2", "x_forc", " b", "tail ", "UPPER"])


@st.composite
def with_output(draw, base):
    case = draw(base)
    case["folders"] = [draw(FOLDERS), draw(FOLDERS)]
    case["prefixes"] = [draw(PREFIXES), draw(PREFIXES)]
    case["absolute"] = draw(st.booleans())
    case["explicit"] = draw(st.booleans())
    case["runs"] = draw(st.integers(1, 2))
    case["factor"] = draw(st.sampled_from([0.9, 1.1]))
    return case


@st.composite
def full_cases(draw):
    case = draw(with_output(scen.scenario(min_years=2, max_years=12, max_gases=4)))
    # the box model has no emissions calculated back in concentration runs
    case["carbon_out"] = draw(st.booleans()) and not (case["carbon_model"] == "box" and case["conc_run"])
    return case


def forcing_cases():
    return with_output(forcrun.forcing_runs(max_years=12))


PROPERTY = {
    "id": "C22",
    "rule": (
        "One or two runs of an object writing files to drawn folders with drawn prefixes in a scratch folder "
        "(second runs may write over the first), emission, concentration and forcing runs; all files read by an "
        "independent parser and compared with a run that hands out data; set of files. Non-trivial: more "
        "than a year."
    ),
    "subs": [
        Sub("full runs", full_cases, check_full, 300, 10000),
        Sub("forcing runs", forcing_cases, check_forcing, 250, 8000),
    ],
}
