"""Sampled configurations follow the distribution asked for"""

import numpy as np
from hypothesis import strategies as st

from pbt import scen
from pbt.core import Sub, need, sut

THERMAL = (
    "rlamdo akapa cpi W beto lambda mixed ocean_efficacy delta_lambda_aero threstemp lm ldtime "
    "foan foas ebbeta k deep"
).split()
CARBON = (
    "beta_f mixed_carbon ml_w_sigmoid ml_fracmax ml_t_half t_half w_sigmoid t_threshold "
    "w_threshold solubility_sens solubility_limit ml_depth_min"
).split()
EMI = "qbmb qo3 qdirso2 qindso2 qbc qoc qh2o_ch4 qnmvoc qnh3 qnox".split()
FLAT = [f"r{x}_{y}{n}" for x in "bs" for y in ("coef", "tim") for n in range(4)]
SETS = ("pamset_udm", "pamset_emiconc", "pamset_carbon")


def home(pam):
    """Parameter set that the model takes a parameter from"""
    if pam in THERMAL:
        return "pamset_udm"
    if pam in CARBON or pam.startswith(("rb_", "rs_")):
        return "pamset_carbon"
    return "pamset_emiconc"


def make(case):
    from ciceroscm.parallel._configdistro import _ConfigDistro

    options = {}
    if case["forc"] is not None:
        options["forc"] = case["forc"]
    if case["method"] is not None:
        options["method"] = case["method"]
    if not options and case["none_options"]:
        options = None
    return sut(
        _ConfigDistro,
        distro_dict={k: list(v) for k, v in case["distro"].items()},
        setvalues=dict(case["setvalues"]),
        options=options,
    )


def flatten(case, lists):
    """List of configurations from what is returned, checking the chunks"""
    chunk, num = case["chunk"], case["num"]
    if chunk is None or chunk > num:
        return lists
    sizes = [len(part) for part in lists]
    need(all(0 < s <= chunk for s in sizes), f"chunks of {sizes} with at most {chunk}")
    need(sum(sizes) == num, f"chunks of {sizes} for {num} configurations")
    need(
        sizes == [chunk] * (num // chunk) + ([num % chunk] if num % chunk else []),
        f"chunks of {sizes} for {num} configurations in chunks of {chunk}",
    )
    return [cfg for part in lists for cfg in part]


def sampled(case):
    return {
        pam: rng
        for pam, rng in case["distro"].items()
        if pam not in case["setvalues"] and not (case["forc"] and pam not in THERMAL)
    }


def check_structure(case, cfgs):
    need(len(cfgs) == case["num"], f"{len(cfgs)} configurations instead of {case['num']}")
    names = [cfg["Index"] for cfg in cfgs]
    need(len(set(names)) == len(names), f"names of configurations are not unique: {names[:10]}")
    need(
        all(str(n).startswith(case["prefix"]) for n in names),
        f"names of configurations do not start with the prefix: {names[:5]}",
    )
    want = {s: set() for s in SETS}
    for pam in [*sampled(case), *case["setvalues"]]:
        want[home(pam)].add(pam)
    for cfg in cfgs:
        for which in SETS:
            got = set(cfg.get(which, {}))
            need(
                got == want[which],
                f"parameters {sorted(got ^ want[which])} are missing in or do not belong to {which}",
            )
        for pam, val in case["setvalues"].items():
            need(cfg[home(pam)][pam] == val, f"{pam} is {cfg[home(pam)][pam]} instead of {val}")


def columns(case, cfgs):
    return {
        pam: np.array([cfg[home(pam)][pam] for cfg in cfgs], dtype=float) for pam in sampled(case)
    }


def check_latin(case, cols):
    num = case["num"]
    for pam, vals in cols.items():
        lo, hi = case["distro"][pam]
        unit = (vals - lo) / (hi - lo)
        need(
            bool(np.all(unit > -1e-9) and np.all(unit < 1 + 1e-9)),
            f"{pam} has values outside of {lo}..{hi}: {vals.min()}..{vals.max()}",
        )
        # one value per part; values at the border of two parts may count for either
        ordered = np.sort(unit) * num
        i = np.arange(num)
        need(
            bool(np.all(ordered >= i - 1e-6) and np.all(ordered <= i + 1 + 1e-6)),
            f"{pam}: not one value in each of the {num} parts of its range",
        )


def check_gauss(case, cols):
    num = case["num"]
    for pam, vals in cols.items():
        lo, hi = case["distro"][pam]
        mean, std = (lo + hi) / 2, (hi - lo) / 2
        need(
            abs(np.mean(vals) - mean) < 8 * std / np.sqrt(num),
            f"{pam}: mean {np.mean(vals)} instead of {mean}",
        )
        need(
            bool(np.all(np.abs(vals - mean) < 9 * std)), f"{pam}: value more than 9 sigma off"
        )
        if num >= 100:
            need(
                abs(np.std(vals) / std - 1) < 8 / np.sqrt(2 * num),
                f"{pam}: standard deviation {np.std(vals)} instead of {std}",
            )
            inside = np.mean(np.abs(vals - mean) < std)
            need(abs(inside - 0.6827) < 8 * 0.4655 / np.sqrt(num), f"{pam}: not normal: {inside} within 1 sigma")


def check(case):
    distro = make(case)
    lists = sut(
        distro.make_config_lists,
        case["num"],
        indexer_pre=case["prefix"],
        max_chunk_size=case["chunk"],
    )
    cfgs = flatten(case, lists)
    check_structure(case, cfgs)
    cols = columns(case, cfgs)
    if case["method"] == "gaussian":
        check_gauss(case, cols)
    else:
        check_latin(case, cols)
    names = list(cols)
    for i, one in enumerate(names):
        for two in names[:i]:
            if case["num"] >= 60:
                corr = abs(np.corrcoef(cols[one], cols[two])[0, 1])
                need(
                    corr < 9 / np.sqrt(case["num"]) and corr < 0.97,
                    f"{one} and {two} are not sampled independently (correlation {corr})",
                )
    # a second sample is another sample of the same distribution
    again = flatten(case, sut(distro.make_config_lists, case["num"], indexer_pre=case["prefix"], max_chunk_size=case["chunk"]))
    check_structure(case, again)
    if cols:
        other = columns(case, again)
        need(
            any(not np.array_equal(cols[p], other[p]) for p in cols),
            "two samples are the same sample",
        )
    return {
        "nontrivial": len(cols) > 1 and case["num"] > 2,
        "classes": [
            case["method"] or "latin",
            "forcing" if case["forc"] else "all",
            "chunks" if case["chunk"] and case["chunk"] <= case["num"] else "one list",
        ],
    }


@st.composite
def ranges(draw):
    """From a low to a high value, also around and next to zero"""
    kind = draw(st.sampled_from(["any", "any", "any", "around zero", "from zero", "to zero", "small", "large"]))
    width = draw(scen.fl(0.01, 30.0))
    if kind == "any":
        low = draw(scen.fl(-10.0, 50.0))
        return [low, float(f"{low + width:.6g}")]
    return {
        "around zero": [-width, width],
        "from zero": [0.0, width],
        "to zero": [-width, 0.0],
        "small": [width * 1e-6, width * 3e-6],
        "large": [width * 1e5, width * 4e5],
    }[kind]


@st.composite
def cases(draw, nums=None):
    pool = [*THERMAL, *CARBON, *EMI, *FLAT]
    names = draw(st.lists(st.sampled_from(pool), unique=True, min_size=1, max_size=10))
    forc = draw(st.sampled_from([None, False, False, True]))
    if forc and not set(names) & set(THERMAL):
        names.append("rlamdo")
    order = draw(st.permutations(names))
    distro = {}
    for name in order:
        distro[name] = draw(ranges())
    setv = {
        n: draw(st.one_of(scen.fl(-5, 5), st.integers(0, 60)))
        for n in draw(st.lists(st.sampled_from(pool), unique=True, max_size=5))
    }
    if not [n for n in names if n not in setv and not (forc and n not in THERMAL)]:
        setv = {}
    num = draw(nums) if nums is not None else draw(st.integers(1, 40))
    return {
        "distro": distro,
        "setvalues": setv,
        "forc": forc,
        "method": draw(st.sampled_from(["latin", "latin", "gaussian", None])),
        "none_options": draw(st.booleans()),
        "num": num,
        "chunk": draw(st.one_of(st.none(), st.integers(1, num + 2))),
        "prefix": draw(st.sampled_from(["", "run", "a_1_"])),
    }


def check_defaults(case):
    """Leaving out distribution and set values means the documented priors and set values"""
    from ciceroscm.parallel import _configdistro as module

    kwargs = {}
    full = {"distro": module.prior_flat, "setvalues": module.set_values_default, "forc": case["forc"]}
    if case["give"] == "distro":
        full["distro"] = {"beta_f": [0.2, 0.3], "qbmb": [0.0, 1.0], "lambda": [0.5, 1.0]}
        kwargs["distro_dict"] = dict(full["distro"])
    elif case["give"] == "setvalues":
        full["setvalues"] = {"W": 3.0, "beta_f": 0.1}
        kwargs["setvalues"] = dict(full["setvalues"])
    full = {k: (dict(v) if isinstance(v, dict) else v) for k, v in full.items()}
    full.update(num=case["num"], chunk=None, prefix="", method="latin")
    options = {"forc": True} if case["forc"] else None
    distro = sut(module._ConfigDistro, options=options, **kwargs)  # pylint: disable=protected-access
    cfgs = sut(distro.make_config_lists, case["num"])
    check_structure(full, cfgs)
    check_latin(full, columns(full, cfgs))
    return {"nontrivial": case["num"] > 2, "classes": [f"default except {case['give']}"]}


def default_cases():
    return st.fixed_dictionaries(
        {
            "give": st.sampled_from(["nothing", "distro", "setvalues"]),
            "forc": st.booleans(),
            "num": st.integers(1, 30),
        }
    )


PROPERTY = {
    "id": "C04",
    "rule": (
        "Distributions over 1-10 parameters of all parameter sets with drawn ranges, fixed values, "
        "options, chunk sizes and 1-40 (or 60-400) samples; non-trivial with more than two samples of "
        "more than one parameter. Statistical bounds are at least 8 standard errors wide."
    ),
    "subs": [
        Sub("sample", cases, check, 2400, 100000),
        Sub("large", lambda: cases(st.sampled_from([100, 150, 200, 400])), check, 240, 8000),
        Sub("defaults", default_cases, check_defaults, 160, 3000),
    ],
}
