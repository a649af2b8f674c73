"""Writing the inputs of a scenario to files"""

import os

from pbt import scen

CHOICES = [
    "gaspam", "emissions", "concentrations", "nat_ch4", "nat_n2o", "rf_luc", "rf_sun", "rf_volc", "rf_volc_n",
    "rf_volc_s", "perturb_em", "perturb_forc",
]  # fmt: skip


def num(val):
    return repr(float(val))


def em_order(inp, label):
    """Columns of the emission file: all components of the gas table that have emissions"""
    names = [n for n in inp.emis if n not in ("CO2_FF", "CO2_AFOLU")]
    scen.rng_for(inp.case["seed"], label).shuffle(names)
    return names


def write_gaspam(inp, path, old_names=True):
    head = {"TAU1": "TAU1(YEARS)", "NAT_EM": "NATURAL_EMISSIONS"} if old_names else {}
    with open(path, "w", encoding="ascii") as fout:
        fout.write("\t".join(["GAS"] + [head.get(c, c) for c in scen.GAS_COLS]) + "\n")
        for gas, row in inp.gas.items():
            vals = [row[c] if isinstance(row[c], str) else num(row[c]) for c in scen.GAS_COLS]
            fout.write("\t".join([gas, *vals]) + "\n")


def write_table(path, heads, units, years, cols, sep, skip=()):
    with open(path, "w", encoding="ascii") as fout:
        for name, row in (
            ("Component", heads),
            ("Unit", units),
            ("Description", ["total"] * len(heads)),
            ("Reference", ["made_up"] * len(heads)),
        ):
            fout.write(sep.join([name, *row]) + "\n")
        for i, year in enumerate(years):
            if year in skip:
                continue
            fout.write(sep.join([str(int(year))] + [num(c[i]) for c in cols]) + "\n")


def write_emissions(inp, path, sep="\t", units=None, skip=(), without=None):
    names = [n for n in em_order(inp, "emcols") if n != without]
    cols = [inp.emis_given["CO2_FF"], inp.emis_given["CO2_AFOLU"]] + [inp.emis_given[n] for n in names]
    unit = {n: inp.gas[n]["EM_UNIT"] for n in names}
    unit["CO2"] = inp.gas["CO2"]["EM_UNIT"]
    unit.update(units or {})
    # CO2 anywhere, fossil before land use
    heads = ["CO2", "CO2", *names]
    write_table(path, heads, [unit[h] for h in heads], inp.tab_years, cols, sep, skip)


def write_concentrations(inp, path, sep="\t", units=None, skip=(), without=None):
    names = [n for n in inp.conc_in if n != without]
    scen.rng_for(inp.case["seed"], "conccols").shuffle(names)
    unit = {n: inp.gas[n]["CONC_UNIT"] for n in names}
    unit.update(units or {})
    write_table(path, names, [unit[n] for n in names], inp.tab_years, [inp.conc_in[n] for n in names], sep, skip)


def padded(arr, first, last):
    """Rows from 1750 on: something else outside the run"""
    def gen():
        for year in range(1750, last + 1):
            inside = first <= year < first + len(arr)
            yield arr[year - first] if inside else [77.0 + 0.1 * (year % 10)] * (len(arr[0]))
    return list(gen())


def write_rows(path, rows, sep="\t"):
    with open(path, "w", encoding="ascii") as fout:
        for row in rows:
            fout.write(sep.join(num(x) for x in row) + "\n")


def write_perturbation(inp, which, path):
    val = "emission" if which == "pert_em" else "forcing"
    heads = ["component", "unit", "source", "year", val]
    rng = scen.rng_for(inp.case["seed"], "pertcols")
    if rng.random() < 0.6:
        # columns have names, units and sources are for the reader
        rng.shuffle(heads)
        heads = [h for h in heads if h not in ("unit", "source") or rng.random() < 0.7]
    with open(path, "w", encoding="ascii") as fout:
        fout.write(",".join(heads) + "\n")
        for comp, off, value in inp.case.get(which, []):
            row = {"component": comp, "unit": "unit", "source": "src", "year": str(inp.pert_year(off)), val: num(value)}
            fout.write(",".join(row[h] for h in heads) + "\n")


def to_files(inp, cfg, folder, which, sep="\t", extra=0):
    """
    Replace the data for the inputs in which by files; return names of those replaced

    extra is the number of rows that files with a row per year go beyond the run
    """
    done = []
    for name in which:
        if f"{name}_data" not in cfg:
            continue
        path = os.path.join(folder, f"{name}.txt")
        last = min(inp.nyend + extra, 2500)
        if name == "gaspam":
            write_gaspam(inp, path, old_names=extra % 2 == 0)
        elif name == "emissions":
            write_emissions(inp, path, sep)
        elif name == "concentrations":
            write_concentrations(inp, path, sep)
        elif name in ("nat_ch4", "nat_n2o"):
            write_rows(path, padded([[x] for x in inp.nat[name[4:].upper()]], inp.ny0, 2500))
        elif name.startswith("rf_"):
            write_rows(path, padded(cfg[f"{name}_data"].to_numpy(), inp.ny0, last), sep)
        else:
            write_perturbation(inp, "pert_em" if name == "perturb_em" else "pert_forc", path)
        del cfg[f"{name}_data"]
        cfg[f"{name}_file"] = path
        done.append(name)
    return done


def fits_files(case, which):
    """Change the period of the case so that the inputs in which can be files"""
    if which & {"emissions", "concentrations"}:
        refs = [case["emi"].get("ref_yr", 2010), *case.get("refs", [])]
        case["ny0"] = min(case["ny0"], 2000, *refs)
        if case["ny0"] < 1750 or case["ny0"] < 1980 and case["seed"] % 4:
            case["ny0"] = 1985 + case["seed"] % 11
        need = max(2000, *refs) - case["ny0"] + 1
        if case["nyears"] < need:
            case["nyears"] = need + case["nyears"] % 3
    if case["ny0"] < 1750 and any(w.startswith(("rf_", "nat")) for w in which):
        case["ny0"] = 1750 + case["ny0"] % 7
    return case
