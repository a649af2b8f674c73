"""Plots show the results of the run and change nothing"""

import contextlib
import os

import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, close, need, scratch_dir, sut

from . import c21, c22, forcrun
from .common import TRIVIAL, scenario_classes

LINES = {
    "ohc.png": ["OHC700", "OHCTOT"],
    "rib.png": ["RIB_glob", "RIB_N", "RIB_S"],
    "temp.png": sorted(c22.COLUMNS["temp"]),
}
# have no forcing of their own
NO_FORCING = {"NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"}


@contextlib.contextmanager
def recorded():
    """
    Stand-in for saving figures: panels (title, lines) by path

    Nothing is drawn, the file is left empty
    """
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    seen = {}
    save, layout = Figure.savefig, Figure.tight_layout

    def fake_save(self, fname, *_args, **_kwargs):
        path = os.path.realpath(fname)
        seen[path] = [
            (
                axes.get_title(),
                axes.get_ylabel(),
                [(line.get_label(), np.array(line.get_xdata()), np.array(line.get_ydata())) for line in axes.get_lines()],
            )
            for axes in self.axes
        ]
        with open(path, "w", encoding="ascii"):
            pass

    Figure.savefig = fake_save
    Figure.tight_layout = lambda self, *args, **kwargs: None
    try:
        yield seen
    finally:
        Figure.savefig, Figure.tight_layout = save, layout
        plt.close("all")


def same_lines(name, lines, want, years):
    """Lines in any order"""
    need(len(lines) == len(want), f"{name} has {len(lines)} lines instead of {len(want)}")
    for line in lines:
        close(f"years of {name}", line[1], years)
    left = [np.asarray(line[2], dtype=float) for line in lines]
    for series in want:
        hits = [k for k, vals in enumerate(left) if vals.shape == series.shape and np.allclose(vals, series, rtol=1e-9, atol=1e-12)]
        need(bool(hits), f"{name} has no line for one of its series")
        del left[hits[0]]


def check_thermal(seen, folder, res, years):
    for fname, keys in LINES.items():
        path = os.path.join(folder, "plots", fname)
        need(path in seen, f"{fname} was not saved")
        panels = seen[path]
        have = [k for k in keys if k in res]
        for key in have:
            labelled = [line for _, _, lines in panels for line in lines if line[0] == key]
            if fname == "ohc.png":
                labelled = [line for title, _, lines in panels for line in lines if title == key]
            need(bool(labelled), f"{fname} does not show {key}")
            for line in labelled:
                same_lines(f"{key} in {fname}", [line], [res[key]], years)
        shown = [line[0] if fname != "ohc.png" else title for title, _, lines in panels for line in lines]
        need(set(shown) == set(have), f"{fname} shows {sorted(set(shown) ^ set(have))} wrongly or not")


def check_tables(inp, seen, folder, res):
    for kind, table, unit in (("forc", "forcing", None), ("em", "emissions", "EM_UNIT"), ("conc", "concentrations", "CONC_UNIT")):
        data = res[table]
        names = [c for c in data.columns if c != "Year"]
        if unit is None:
            names = [c for c in names if c not in NO_FORCING]
        else:
            names = [c for c in names if not (c in inp.gas and inp.gas[c][unit] == "X")]
        shown = {}
        for path, panels in seen.items():
            if os.path.dirname(path) != os.path.join(folder, "plots") or not os.path.basename(path).startswith(f"{kind}_"):
                continue
            for title, label, lines in panels:
                if not lines:
                    continue
                title = "Total_forcing" if title == "Total anthropogenic" else title
                need(title not in shown, f"{title} is shown twice in plots of {table}")
                need(len(lines) == 1, f"{title} has {len(lines)} lines")
                shown[title] = (lines[0], label)
        need(set(shown) == set(names), f"plots of {table} differ by {sorted(set(shown) ^ set(names))}")
        for name, (line, label) in shown.items():
            same_lines(f"{name} in plots of {table}", [line], [data[name].to_numpy(dtype=float)], inp.years)
            if unit is not None and name in inp.gas:
                need(inp.gas[name][unit] in label, f"{name} in plots of {table} has the label {label}")


def run_plotted(case, make, pams, carbon):
    """Results without and with plots, files, and what was plotted"""
    back = os.getcwd()
    with scratch_dir() as top:
        top = os.path.realpath(top)
        os.chdir(top)
        try:
            data = {"carbon_cycle_outputs": True} if carbon else {}
            plain = make()
            sut(plain._run, {"results_as_dict": True, **data}, **pams())  # pylint: disable=protected-access
            run_cfg, folder, prefix = c22.where(case, 0, top)
            cscm = make()
            if case["earlier"]:
                # figures of an earlier run are there already
                with recorded():
                    other = cscm if case["earlier"] == "same object" else make()
                    sut(other._run, {**run_cfg, **data}, make_plot=True, **pams())  # pylint: disable=protected-access
                    for name in c22.file_list(folder):
                        if os.path.dirname(name) != "plots":
                            os.remove(os.path.join(folder, name))
            with recorded() as seen:
                if case["as_dict"]:
                    sut(cscm._run, {"results_as_dict": True, **run_cfg, **data}, make_plot=True, **pams())  # pylint: disable=protected-access
                else:
                    sut(cscm._run, {**run_cfg, **data}, make_plot=True, **pams())  # pylint: disable=protected-access
            if case["as_dict"]:
                c21.compare(cscm.results, plain.results, 1e-11)
            files = c22.file_list(top)
            plots = os.path.relpath(os.path.join(folder, "plots"), top)
            return plain.results, seen, folder, prefix, files, plots, parse_all(folder, prefix, plain.results, case, carbon)
        finally:
            os.chdir(back)


def parse_all(folder, prefix, res, case, carbon):
    if not case["as_dict"]:
        tables = ["forc"] if case.get("rf_run") else ["em", "conc", "forc"]
        years = np.arange(case["ny0"], case["ny0"] + case["nyears"]) if not case.get("rf_run") else case["years"]
        c22.check_folder(folder, prefix, res, years, tables + (["carbon"] if carbon else []))


def check_full(case):
    if ref.try_full_run(scen.Inputs(case)) is None:
        return TRIVIAL
    from ciceroscm import CICEROSCM

    inp = scen.Inputs(case)
    carbon = case["carbon_out"]
    res, seen, folder, prefix, files, plots, _ = run_plotted(case, lambda: sut(CICEROSCM, inp.cfg()), inp.pams, carbon)
    check_thermal(seen, folder, res, inp.years)
    others = [f for f in files if os.path.dirname(f) != plots]
    if case["as_dict"]:
        need(not others, f"files {others} besides the plots")
    else:
        check_tables(inp, seen, folder, res)
        need(all(os.path.basename(f).startswith(f"{prefix}_") for f in others), f"files {others} besides the plots")
    return {
        "nontrivial": inp.nyears > 1,
        "classes": scenario_classes(case) + [f"figures of {case['earlier'] or 'nothing'} there", "data" if case["as_dict"] else "files", f"{16 * (len(inp.gas) // 16)}+ components"],
    }


def check_forcing(case):
    forcing = forcrun.Forcing(case)
    if forcing.reference() is None:
        return TRIVIAL
    from ciceroscm import CICEROSCM

    case = dict(case, rf_run=True, years=forcing.years)
    with scratch_dir() as inputs:
        res, seen, folder, _, files, plots, _ = run_plotted(
            case,
            lambda: sut(CICEROSCM, forcing.cfg(inputs)),
            lambda: {"pamset_udm": dict(case["udm"])},
            False,
        )
    check_thermal(seen, folder, res, forcing.years)
    shown = sorted(os.path.basename(f) for f in files if os.path.dirname(f) == plots)
    need(shown == sorted(LINES), f"plots {shown}")
    return {"nontrivial": len(forcing.years) > 1, "classes": forcrun.labels(case) + [f"figures of {case['earlier'] or 'nothing'} there", "data" if case["as_dict"] else "files"]}


@st.composite
def full_cases(draw):
    case = draw(c22.with_output(scen.scenario(min_years=2, max_years=8, max_gases=28)))
    case["carbon_out"] = draw(st.booleans()) and not (case["carbon_model"] == "box" and case["conc_run"])
    case["as_dict"] = draw(st.integers(0, 3)) == 0
    case["earlier"] = draw(st.sampled_from(["", "", "same object", "other object"]))
    return case


@st.composite
def forcing_cases(draw):
    case = draw(c22.with_output(forcrun.forcing_runs(max_years=8)))
    case["as_dict"] = draw(st.booleans())
    case["earlier"] = draw(st.sampled_from(["", "same object", "other object"]))
    return case


PROPERTY = {
    "id": "C31",
    "rule": (
        "Runs of all kinds and both thermal models with plots, gas tables of drawn size; figures are recorded instead "
        "of saved, and their lines compared with the results of the same run without plots, as are data and files; "
        "figures of an earlier run may be there already. "
        "Non-trivial: more than a year."
    ),
    "subs": [
        Sub("full runs", full_cases, check_full, 80, 2000),
        Sub("forcing runs", forcing_cases, check_forcing, 60, 1500),
    ],
}
