"""Inputs that cannot be used are refused, and refusals leave nothing behind"""

import json
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Sub, Violation, quiet, raises, scratch_dir, sut

from . import c21, files
from .common import TRIVIAL, scenario_classes

LACKING = (KeyError, ValueError, IndexError)
ALWAYS_EM = ["CO2_FF", "CO2_AFOLU", "SO2", "NOx", "BC", "OC", "CO", "NMVOC", "NH3", "BMB_AEROS_OC"]
GAS_ROWS = ["CO2", "LANDUSE", "OTHER", "SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS"]
SPECIAL = ["LANDUSE", "OTHER", "SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS"]
FAULTS = [
    "missing input",
    "missing file",
    "unknown model",
    "emission units",
    "concentration units",
    "units with a species missing",
    "emissions without a year",
    "concentrations without a year",
    "natural emissions without a year",
    "forcing too short",
    "emissions without a component",
    "concentrations without a gas",
    "gas table without a component",
    "gas table without a column",
    "response function in cfg",
    "response function of the run",
]


def pick(seq, num):
    return seq[num % len(seq)]


def broken(inp, fault, num, folder):
    """
    cfg and parameters with a fault, the errors that are expected, a label

    None if this input has no such part
    """
    # pylint: disable=too-many-return-statements, too-many-branches, too-many-statements, too-many-locals
    case = inp.case
    cfg, pams = inp.cfg(), inp.pams()
    conc = inp.conc_run
    if fault == "missing input":
        name = pick(["gaspam", "emissions", "concentrations"], num)
        del cfg[f"{name}_data"]
        return cfg, pams, LACKING, name
    if fault == "missing file":
        names = [n for n in files.CHOICES if f"{n}_data" in cfg]
        name = pick(names, num)
        del cfg[f"{name}_data"]
        cfg[f"{name}_file"] = os.path.join(folder, "does_not_exist.txt")
        return cfg, pams, FileNotFoundError, name
    if fault == "unknown model":
        key = pick(["thermal_model", "carbon_cycle_model"], num)
        cfg[key] = pick(["udm", "Default", "", "two layer", "box2", "none"], num // 2)
        return cfg, pams, ValueError, key
    if fault in ("emission units", "concentration units", "units with a species missing"):
        if fault == "concentration units" or fault.startswith("units") and num % 2:
            table, col = "concentrations", "CONC_UNIT"
            gas = pick([*scen.MAIN, *inp.vanilla], num)
        else:
            table, col = "emissions", "EM_UNIT"
            gas = pick([g for g in inp.gas if g not in SPECIAL], num)
        unit = inp.gas[gas][col]
        near = [unit.lower(), unit.upper(), unit[:-1], unit + "r", unit.replace("_", "")]
        other = pick([u for u in ["Pg_C", "Tg", "Gg", "ppt", "ppb", "ppm", "kg", "Tg_N", "-", *near] if u and u != unit], num)
        units = {gas: other}
        if num // 7 % 3 == 0:
            # exchanged with those of another component
            names = [*scen.MAIN, *inp.vanilla] if table == "concentrations" else [g for g in inp.gas if g not in SPECIAL]
            names = [g for g in names if inp.gas[g][col] != unit]
            if names:
                second = pick(names, num // 21)
                units = {gas: inp.gas[second][col], second: unit}
        if fault.startswith("units"):
            # the emission file lacks a component that the run does not need emissions of
            gaspam = cfg["gaspam_data"]
            extra = gaspam.loc[[pick([g for g in inp.gas if g != gas and g not in SPECIAL + scen.MAIN], num)]]
            extra.index = ["XX-77"]
            cfg["gaspam_data"] = pd.concat([gaspam, extra])
        for name in ("emissions", "concentrations"):
            path = os.path.join(folder, f"{name}.txt")
            write = files.write_emissions if name == "emissions" else files.write_concentrations
            write(inp, path, units=units if name == table else None)
            del cfg[f"{name}_data"]
            cfg[f"{name}_file"] = path
        return cfg, pams, ValueError, f"{table}, exchanged" if len(units) > 1 else table
    if fault == "emissions without a year":
        year = pick(inp.years, num)
        cfg["emissions_data"] = cfg["emissions_data"].drop(index=year)
        return cfg, pams, LACKING, "in between" if inp.ny0 < year < inp.nyend else "first or last"
    if fault == "concentrations without a year":
        years = [y for y in inp.years if conc or y < inp.emstart or y == inp.ny0]
        cfg["concentrations_data"] = cfg["concentrations_data"].drop(index=pick(years, num))
        return cfg, pams, LACKING, "concentration run" if conc else "emission run"
    if fault == "natural emissions without a year":
        years = [y for y in inp.years if y >= inp.emstart]
        if conc or not years or not case["nat"]:
            return None
        name = pick(["nat_ch4_data", "nat_n2o_data"], num)
        cfg[name] = cfg[name].drop(index=pick(years, num // 2))
        return cfg, pams, LACKING, name
    if fault == "forcing too short":
        names = [n for n in cfg if n.startswith("rf_")]
        name = pick(names, num)
        cfg[name] = cfg[name].iloc[: pick(range(inp.nyears), num // len(names))]
        return cfg, pams, LACKING, name
    if fault == "emissions without a component":
        names = ALWAYS_EM + ([] if conc or inp.emstart > inp.nyend else ["CH4", "N2O", *inp.vanilla])
        name = pick(names, num)
        cfg["emissions_data"] = cfg["emissions_data"].drop(columns=name)
        return cfg, pams, LACKING, "vanilla" if name in inp.vanilla else name
    if fault == "concentrations without a gas":
        names = scen.MAIN + inp.vanilla
        if not conc:
            # the others are only needed until emissions start
            names = [n for n in names if n != "CO2"]
            if inp.emstart <= inp.ny0:
                names = ["CH4", "N2O"]
        name = pick(names, num)
        cfg["concentrations_data"] = cfg["concentrations_data"].drop(columns=name)
        return cfg, pams, LACKING, "vanilla" if name in inp.vanilla else name
    if fault == "gas table without a component":
        name = pick(GAS_ROWS, num)
        cfg["gaspam_data"] = cfg["gaspam_data"].drop(index=name)
        return cfg, pams, LACKING, name
    if fault == "gas table without a column":
        names = ["ALPHA", "SARF_TO_ERF", "CONC_UNIT"]
        if not conc and inp.emstart <= inp.nyend:
            names += ["BETA", "TAU1", "NAT_EM"]
        name = pick(names, num)
        cfg["gaspam_data"] = cfg["gaspam_data"].drop(columns=name)
        return cfg, pams, LACKING, name
    if case["carbon_model"] != "default":
        return None
    kind = pick(["rs", "rb"], num)
    extra = 1 if kind == "rs" else 0
    func = {"coeffs": [0.3] * (2 + extra), "timescales": [3.0, 40.0]}
    how = pick(["short", "long", "negative", "zero", "coefficient"], num // 2)
    if how == "short":
        func["timescales"] = func["timescales"][:1]
    elif how == "long":
        func["timescales"].append(400.0)
    elif how == "negative":
        func["timescales"][num % 2] *= -1
    elif how == "zero":
        func["timescales"][num % 2] = 0.0
    else:
        func["coeffs"][num % 2] = -0.2
    if fault == "response function in cfg":
        cfg[f"{kind}_function"] = func
        return cfg, pams, (ValueError, TypeError), how
    pams["pamset_carbon"] = {f"{kind}_function": func}
    return cfg, pams, (ValueError, TypeError), how


def attempt(cfg, pams, folder):
    from ciceroscm import CICEROSCM

    cscm = CICEROSCM(cfg)
    cscm._run(  # pylint: disable=protected-access
        {"output_folder": folder, "output_prefix": "refused"}, **pams
    )


def check(case):
    from ciceroscm import CICEROSCM

    inp = scen.Inputs(case)
    if ref.try_full_run(inp) is None:
        return TRIVIAL
    carbon = not case["conc_run"]
    cscm = sut(CICEROSCM, inp.cfg())
    run_cfg = {"results_as_dict": True, "carbon_cycle_outputs": carbon}
    sut(cscm._run, dict(run_cfg), **inp.pams())  # pylint: disable=protected-access
    want = cscm.results
    labels = []
    with scratch_dir() as folder:
        out = os.path.join(folder, "out")
        os.mkdir(out)
        for fault, num in case["faults"]:
            # spread small drawn numbers over all places
            got = broken(inp, fault, int(scen.rng_for(num, fault).integers(10**6)), folder)
            if got is None:
                continue
            cfg, pams, excs, label = got
            if fault == "response function of the run":
                # same model object as the valid runs
                with quiet():
                    raises(excs, cscm._run, {"results_as_dict": True}, **pams)  # pylint: disable=protected-access
            else:
                try:
                    raises(excs, attempt, cfg, pams, out)
                except Violation as exc:
                    raise Violation(f"{fault} ({label}): {exc}") from exc
            if os.listdir(out):
                raise Violation(f"{fault} ({label}): refused run wrote {os.listdir(out)}")
            labels.append(f"{fault}: {label}")
    sut(cscm._run, dict(run_cfg), **inp.pams())  # pylint: disable=protected-access
    c21.compare(cscm.results, want, 1e-12)
    c21.compare(c21.run(inp.cfg(), inp, carbon), want, 1e-12)
    return {"nontrivial": bool(labels), "classes": scenario_classes(case) + labels}


@st.composite
def cases(draw):
    case = draw(scen.scenario(min_years=2, max_years=8, max_gases=3))
    case["faults"] = draw(
        st.lists(
            st.tuples(st.sampled_from(FAULTS), st.integers(0, 9999)).map(list), min_size=1, max_size=9
        )
    )
    return case


def check_files(case):
    """Emission and concentration files that lack a year or a component that the run needs"""
    inp = scen.Inputs(case)
    if ref.try_full_run(inp) is None:
        return TRIVIAL
    conc = inp.conc_run
    carbon = not conc
    want = c21.run(inp.cfg(), inp, carbon)
    labels = []
    with scratch_dir() as folder:
        out = os.path.join(folder, "out")
        os.mkdir(out)

        def with_files(em=None, con=None):
            cfg = inp.cfg()
            for name, opts in (("emissions", em), ("concentrations", con)):
                cfg[f"{name}_file"] = os.path.join(folder, f"{name}.txt")
                del cfg[f"{name}_data"]
                write = files.write_emissions if name == "emissions" else files.write_concentrations
                write(inp, cfg[f"{name}_file"], **(opts or {}))
            return cfg

        as_files = c21.run(with_files(), inp, carbon)
        c21.compare(as_files, want)
        for kind, num in case["lack"]:
            num = int(scen.rng_for(num, kind).integers(10**6))
            if kind == "emissions year":
                # any year of the run, and the reference years even if the run does not reach them
                years = inp.years if num % 3 else [inp.ny0, inp.nyend, *inp.years[1:2]]
                cfg = with_files(em={"skip": [pick(years, num // 3)]})
            elif kind == "concentrations year":
                years = [y for y in inp.years if conc or y < inp.emstart or y == inp.ny0]
                cfg = with_files(con={"skip": [pick(years, num)]})
            elif kind == "emissions component":
                names = ["SO2", "NOx", "BC", "OC", "CO", "NMVOC", "NH3", "BMB_AEROS_OC"]
                names += [] if conc or inp.emstart > inp.nyend else ["CH4", "N2O", *inp.vanilla]
                cfg = with_files(em={"without": pick(names, num)})
            else:
                names = ["CH4", "N2O"]
                if conc:
                    names += ["CO2", *inp.vanilla]
                elif inp.emstart > inp.ny0:
                    names += inp.vanilla
                cfg = with_files(con={"without": pick(names, num)})
            try:
                raises(LACKING, attempt, cfg, inp.pams(), out)
            except Violation as exc:
                raise Violation(f"file without {kind}: {exc}") from exc
            if os.listdir(out):
                raise Violation(f"file without {kind}: refused run wrote {os.listdir(out)}")
            labels.append(f"file without {kind}")
        c21.compare(c21.run(with_files(), inp, carbon), as_files, 1e-12)
    return {"nontrivial": bool(labels), "classes": scenario_classes(case) + labels}


@st.composite
def file_cases(draw):
    case = draw(scen.scenario(min_years=2, max_years=8, max_gases=3))
    case = files.fits_files(case, {"emissions", "concentrations"})
    case["lack"] = draw(
        st.lists(
            st.tuples(
                st.sampled_from(["emissions year", "concentrations year", "emissions component", "concentrations gas"]),
                st.integers(0, 9999),
            ).map(list),
            min_size=1,
            max_size=5,
        )
    )
    return case


def check_config(case):
    """Configuration files, scenarios and forcing files"""
    from ciceroscm import CICEROSCM
    from ciceroscm.parallel.distributionrun import DistributionRun

    text = case["text"]
    try:
        parsed = json.loads(text)
        valid = isinstance(parsed, list) or isinstance(parsed, dict) and "configurations" in parsed
    except ValueError:
        valid = False
    with scratch_dir() as folder:
        path = os.path.join(folder, "cfgs.json")
        with open(path, "w", encoding="utf-8") as fout:
            fout.write(text)
        if not valid:
            raises(ValueError, DistributionRun, None, path)
        years = case["years"]
        num = case["rows"]
        forc = np.linspace(0.1, 2.0, max(num, 1))[:num]
        cfg = {"nystart": 1900, "nyend": 1900 + years - 1, "thermal_model": case["thermal"]}
        if case["how"] == "no file":
            cfg["forc_file"] = os.path.join(folder, "no.txt")
            excs = FileNotFoundError
        elif case["how"] == "text file":
            cfg["forc_file"] = os.path.join(folder, "f.txt")
            np.savetxt(cfg["forc_file"], forc)
            excs = LACKING
        else:
            table = pd.DataFrame(
                {"total": forc, "FORC_NH": forc, "FORC_SH": forc}, index=range(1900, 1900 + num)
            )
            if case["how"] == "column":
                table = table.drop(columns=["FORC_NH", "FORC_SH"][num % 2])
            cfg["forc_data"] = table
            excs = LACKING
        too_short = num < years or case["how"] in ("no file", "column")
        if too_short:
            def attempt_forcing():
                cscm = CICEROSCM(cfg)
                cscm._run({"results_as_dict": True})  # pylint: disable=protected-access

            raises(excs, attempt_forcing)
    return {
        "nontrivial": not valid or too_short,
        "classes": (["valid json"] if valid else ["invalid json"]) + ([f"forcing {case['how']}"] if too_short else []),
    }


@st.composite
def config_cases(draw):
    good = json.dumps(
        draw(
            st.one_of(
                st.just([{"Index": "1", "pamset_udm": {}, "pamset_emiconc": {}}]),
                st.just({"configurations": [], "meta_info": {}}),
                st.dictionaries(st.sampled_from(["meta_info", "cfgs", "Configurations", "config"]), st.integers(0, 3)),
                st.integers(),
                st.floats(allow_nan=False),
                st.text(max_size=5),
                st.none(),
                st.booleans(),
            )
        )
    )
    cut = draw(st.integers(0, 3))
    text = good[: max(len(good) - cut, 0)] if draw(st.booleans()) else good
    years = draw(st.integers(1, 30))
    return {
        "text": text,
        "years": years,
        "rows": draw(st.integers(1, years + 1)),
        "how": draw(st.sampled_from(["no file", "text file", "table", "column"])),
        "thermal": draw(st.sampled_from(["default", "twolayer"])),
    }


PROPERTY = {
    "id": "C28",
    "rule": (
        "Valid drawn scenarios with one of 16 kinds of fault at a drawn place (inputs or files that are missing, "
        "models that do not exist, files in other units, tables without a needed year, component or column, "
        "broken response functions), and emission and concentration files without a year or a component: refused with an error of the expected kind, nothing written, and the valid "
        "scenario gives the same results before and after; broken configuration files and forcings that are "
        "too short. Non-trivial: at least one fault was refused."
    ),
    "subs": [
        Sub("faults", cases, check, 1000, 25000),
        Sub("files", file_cases, check_files, 120, 4000),
        Sub("configurations", config_cases, check_config, 250, 5000),
    ],
}
