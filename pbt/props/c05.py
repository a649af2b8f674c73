"""Configurations survive being saved and loaded"""

import copy
import glob
import json
import os

from hypothesis import strategies as st

from pbt import scen
from pbt.core import Sub, need, scratch_dir, sut

from . import c04, ensemble
from .common import TRIVIAL

META = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-5, 5), scen.fl(-5, 5), st.text(max_size=6)),
    lambda inner: st.one_of(
        st.lists(inner, max_size=3), st.dictionaries(st.text(max_size=5), inner, max_size=3)
    ),
    max_leaves=6,
)
METAS = st.one_of(st.none(), st.dictionaries(st.text(max_size=8), META, max_size=4))


class NoDistro:  # pylint: disable=too-few-public-methods
    """Must not be asked for configurations"""

    def make_config_lists(self, *args, **kwargs):
        raise AssertionError("configurations made although the file exists")


def load(path):
    from ciceroscm.parallel.distributionrun import DistributionRun

    return sut(DistributionRun, NoDistro(), json_file_name=path)


def plain(obj):
    """Without numpy types, for comparison"""
    if isinstance(obj, dict):
        return {k: plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    return obj.item() if hasattr(obj, "item") else obj


def same_cfgs(name, got, want):
    need(plain(got) == plain(want), f"{name} are not the configurations that were saved")


def check_made(case):
    """Samples written to file(s) while they are made"""
    from ciceroscm.parallel.distributionrun import DistributionRun

    distro = c04.make(case)
    with scratch_dir() as tmp:
        path = os.path.join(tmp, case["fname"])
        lists = sut(
            distro.make_config_lists,
            case["num"],
            json_fname=path,
            indexer_pre=case["prefix"],
            max_chunk_size=case["chunk"],
            meta_info=copy.deepcopy(case["meta"]),
        )
        parts = [lists] if case["chunk"] is None or case["chunk"] > case["num"] else lists
        files = sorted(
            glob.glob(os.path.join(tmp, "*")),
            key=lambda f: (len(f), f),
        )
        need(len(files) == len(parts), f"{len(files)} files for {len(parts)} lists of configurations")
        loaded = []
        for number, fname in enumerate(files):
            run = load(fname)
            same_cfgs(f"configurations in file {number}", run.cfgs, parts[number])
            need(run.meta_info == case["meta"], f"meta information is {run.meta_info}")
            with open(fname, encoding="utf-8") as fin:
                raw = json.load(fin)
            if case["meta"] is not None:
                need(raw["meta_info"] == case["meta"], "meta information in the file")
            loaded.extend(run.cfgs)
        same_cfgs("configurations of all files", loaded, [c for part in parts for c in part])
        # a run object made from the distribution, written and read
        run = sut(DistributionRun, distro, os.path.join(tmp, "none.json"), case["prefix"], case["num"])
        need(len(run.cfgs) == case["num"], f"{len(run.cfgs)} configurations instead of {case['num']}")
        out = os.path.join(tmp, "out.json")
        sut(run.write_configs_to_json, out, meta_info=copy.deepcopy(case["meta"]))
        again = load(out)
        same_cfgs("configurations of a run", again.cfgs, run.cfgs)
        need(again.meta_info == case["meta"], f"meta information of a run is {again.meta_info}")
    return {
        "nontrivial": case["num"] > 1,
        "classes": ["with meta" if case["meta"] is not None else "without meta", f"{min(len(parts), 3)} files"],
    }


@st.composite
def made_cases(draw):
    case = draw(c04.cases(st.integers(1, 26)))
    case["meta"] = draw(METAS)
    case["fname"] = draw(st.sampled_from(["c.json", "my_cfgs.json"]))
    return case


# -- histories of writing and loading ----------------------------------------


def check_history(case):
    """Load and write again several times, with and without new meta information"""
    with scratch_dir() as tmp:
        path = os.path.join(tmp, "f0.json")
        cfgs = case["cfgs"]
        meta = case["meta"]
        with open(path, "w", encoding="utf-8") as fout:
            if case["form"] == "list":
                meta = None
                json.dump(cfgs, fout)
            elif case["form"] == "no_meta":
                meta = None
                json.dump({"configurations": cfgs}, fout)
            else:
                json.dump({"meta_info": meta, "configurations": cfgs}, fout)
        run = load(path)
        for number, (new, same_file) in enumerate(case["steps"]):
            same_cfgs(f"configurations after {number} steps", run.cfgs, cfgs)
            need(run.meta_info == meta, f"meta information is {run.meta_info} instead of {meta}")
            if not same_file:
                path = os.path.join(tmp, f"f{number + 1}.json")
            sut(run.write_configs_to_json, path, meta_info=copy.deepcopy(new))
            meta = meta if new is None else new
            run = load(path)
        same_cfgs("configurations in the end", run.cfgs, cfgs)
        need(run.meta_info == meta, f"meta information is {run.meta_info} instead of {meta}")
    return {"nontrivial": len(cfgs) > 0, "classes": [case["form"], f"{len(case['steps'])} steps"]}


PAMS = st.dictionaries(
    st.sampled_from([*c04.THERMAL, *c04.EMI]), st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.integers(-9, 99)), max_size=3
)


@st.composite
def histories(draw):
    cfgs = []
    for i in range(draw(st.integers(0, 5))):
        cfg = {"pamset_udm": draw(PAMS), "pamset_emiconc": draw(PAMS), "Index": draw(st.sampled_from([str(i), f"x{i}", f"run_{9 - i}"]))}
        if draw(st.booleans()):
            cfg["pamset_carbon"] = {"rb_function": draw(scen.rb_function()), "beta_f": draw(st.floats(0, 1))}
        cfgs.append(cfg)
    return {
        "cfgs": cfgs,
        "meta": draw(METAS),
        "form": draw(st.sampled_from(["list", "no_meta", "meta"])),
        "steps": draw(st.lists(st.tuples(METAS, st.booleans()).map(list), min_size=1, max_size=4)),
    }


# -- runs ---------------------------------------------------------------------


def check_runs(case):
    scens, cfgs, inputs = ensemble.build(case)
    if not ensemble.in_domain(inputs):
        return TRIVIAL
    variables = ensemble.pick_variables(case, inputs, 3)
    rows = ensemble.expected_rows(case, inputs, variables)
    if not rows:
        return TRIVIAL
    with scratch_dir() as tmp:
        first, second = os.path.join(tmp, "a.json"), os.path.join(tmp, "b.json")
        with open(first, "w", encoding="utf-8") as fout:
            json.dump(cfgs, fout)
        sut(load(first).write_configs_to_json, second, meta_info={"a": 1} if case["workers"] == 1 else None)
        run = load(second)
    table = sut(run.run_over_distribution, scens, variables, max_workers=case["workers"])
    ensemble.compare(table, rows)
    return {"nontrivial": len(cfgs) > 1, "classes": [f"{case['workers']} workers"]}


@st.composite
def run_cases(draw):
    case = draw(ensemble.ensembles(max_scens=2, max_cfgs=3, max_years=5))
    case["workers"] = draw(st.sampled_from([1, 1, 2]))
    return case


PROPERTY = {
    "id": "C05",
    "rule": (
        "Sampled configurations (1-26, in one file or chunks, with drawn meta information) and "
        "hand-written ones, written and loaded 1-4 times in drawn order, and ensembles run from loaded "
        "files; non-trivial when there is more than one (history: at least one) configuration."
    ),
    "subs": [
        Sub("made", made_cases, check_made, 800, 30000),
        Sub("history", histories, check_history, 1200, 50000),
        Sub("runs", run_cases, check_runs, 96, 4000),
    ],
}
