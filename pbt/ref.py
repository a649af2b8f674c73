"""
Reference model: the equations of the model written down independently of the
code under test, as plain as possible, and without any state that outlives a call.
"""

# pylint: disable=too-many-locals, too-many-arguments, too-many-branches, invalid-name

import math

import numpy as np

from .scen import MAIN

YEAR_S = 365.0 * 86400.0

# --------------------------------------------------------------------------
# Thermal models
# --------------------------------------------------------------------------

UDM_DEFAULTS = {
    "rlamdo": 15.0,
    "akapa": 0.66,
    "cpi": 0.21,
    "W": 2.2,
    "beto": 6.9,
    "threstemp": 7.0,
    "lambda": 0.61,
    "mixed": 107.0,
    "foan": 0.61,
    "foas": 0.81,
    "ebbeta": 0.0,
    "lm": 40,
    "ldtime": 12,
    "ocean_efficacy": 1.0,
    "delta_lambda_aero": 0.0,
}

UDM_OUT = [
    "RIB_glob",
    "RIB_N",
    "RIB_S",
    "dT_glob",
    "dT_NH",
    "dT_SH",
    "dT_glob_air",
    "dT_NH_air",
    "dT_SH_air",
    "dT_glob_sea",
    "dT_NH_sea",
    "dT_SHsea",
    "OHC700",
    "OHCTOT",
]


class UDM:
    """Upwelling diffusion energy balance model, one step() per year"""

    def __init__(self, pams):
        self.p = {**UDM_DEFAULTS, **pams}
        lm = int(self.p["lm"])
        self.d = np.full(lm, 100.0)
        self.d[0] = self.p["mixed"]
        self.T = [np.zeros(lm), np.zeros(lm)]  # north, south
        self.f_prev = [0.0, 0.0]

    def matrix(self, w, g):
        """Implicit vertical diffusion and upwelling of one hemisphere"""
        p, d = self.p, self.d
        lm = len(d)
        kap = 2.0 * 1.0e-4 * p["akapa"] * (YEAR_S / p["ldtime"])
        A = np.zeros((lm, lm))
        up = kap / (d[0] * d[1]) * p["ocean_efficacy"]
        A[0, 1] = -up
        A[0, 0] = 1.0 + up + g - w / d[0]
        A[1, 0] = -kap / d[1] ** 2 + w / d[1]
        for i in range(1, lm - 1):
            A[i, i + 1] = -kap / (d[i] * (d[i] + d[i + 1])) - w / d[i]
            A[i + 1, i] = -kap / (d[i + 1] * (d[i] + d[i + 1]))
        for i in range(1, lm - 1):
            A[i, i] = 1.0 - A[i, i - 1] - A[i, i + 1]
        A[lm - 1, lm - 1] = 1.0 - A[lm - 1, lm - 2] + w / d[lm - 1]
        return A

    def step(self, f, volc, w_aero=0.0):
        """
        One year with hemispheric forcing f = (north, south) at the end of the year
        and volcanic forcing volc = (north, south) per part of the year
        """
        p, d = self.p, self.d
        n = int(p["ldtime"])
        dt = YEAR_S / n
        c1 = 1.03 * 0.955 * 0.485 * 100.0 * 86400.0  # heat capacity per metre
        lam = 1.0 / p["lambda"] + p["delta_lambda_aero"] * w_aero
        fo = [p["foan"], p["foas"]]
        lo, eb = p["rlamdo"], p["ebbeta"]
        b = eb / lo
        gam = [fo[0] + lam / lo + b, fo[1] + lam / lo + b]
        det = gam[0] * gam[1] - b * b
        h = dt / (c1 * d[0])
        # exchange between the hemispheres conserves heat: the factor for the south is
        # scaled with the ratio of the ocean areas
        ex = [p["beto"], p["beto"] * fo[0] / fo[1]]
        start = [self.T[0].copy(), self.T[1].copy()]
        warm = [0.0, 0.0]
        acc = {k: np.zeros(2) for k in ("all", "air", "sea")}
        for m in range(n):
            part = (m + 1.0) / n
            q = []
            for hem in (0, 1):
                v = volc[hem][m % len(volc[hem])]
                q.append(part * f[hem] + (1.0 - part) * self.f_prev[hem] + v)
            new = []
            for hem in (0, 1):
                oth = 1 - hem
                T, To = self.T[hem], self.T[oth]
                w = p["W"] / YEAR_S * dt
                if p["threstemp"] != 0:
                    w = w * (1.0 - 0.3 * warm[hem] / p["threstemp"])
                g = lo * (1.0 - fo[hem] * gam[oth] / det) * h
                rhs = np.empty_like(T)
                rhs[0] = (
                    (1.0 - p["cpi"] * w / d[0] - ex[hem] * h) * T[0]
                    + (ex[hem] + fo[oth] * eb / det) * h * To[0]
                    + gam[oth] / det * h * q[hem]
                    + b / det * h * q[oth]
                )
                mix = ex[hem] * dt / (c1 * d[1:])
                rhs[1:] = T[1:] + mix * (To[1:] - T[1:])
                rhs[-1] += w * p["cpi"] / d[-1] * T[0]
                new.append(np.linalg.solve(self.matrix(w, g), rhs))
            self.T = new
            warm = [new[0][0], new[1][0]]
            # air temperature over land and ocean from the energy balance of the atmosphere
            x = [lam + fo[0] * lo + eb, lam + fo[1] * lo + eb]
            s = [q[0] + fo[0] * lo * warm[0], q[1] + fo[1] * lo * warm[1]]
            dd = x[0] * x[1] - eb * eb
            air = [(x[1] * s[0] + eb * s[1]) / dd, (x[0] * s[1] + eb * s[0]) / dd]
            for hem in (0, 1):
                acc["air"][hem] += air[hem] / n
                acc["sea"][hem] += warm[hem] / n
                acc["all"][hem] += (fo[hem] * warm[hem] + (1 - fo[hem]) * air[hem]) / n
        self.f_prev = list(f)
        uptake = (
            4184.0
            * 1000.0
            * np.sum(
                (d * ((self.T[0] - start[0]) * fo[0] + (self.T[1] - start[1]) * fo[1]))[1:]
            )
            / YEAR_S
        )
        anom = (p["ocean_efficacy"] - 1.0) * uptake
        rib = [f[i] + np.mean(volc[i]) - lam * acc["all"][i] - anom for i in (0, 1)]
        heat = 1030.0 * 3.997e-19 * 2.55e14 * (self.T[0] * fo[0] + self.T[1] * fo[1])
        bottom = np.cumsum(d)
        top = bottom - d
        thick700 = np.clip(np.minimum(bottom, 700.0) - top, 0.0, None)
        return {
            "RIB_glob": (rib[0] + rib[1]) / 2,
            "RIB_N": rib[0],
            "RIB_S": rib[1],
            "dT_glob": np.mean(acc["all"]),
            "dT_NH": acc["all"][0],
            "dT_SH": acc["all"][1],
            "dT_glob_air": np.mean(acc["air"]),
            "dT_NH_air": acc["air"][0],
            "dT_SH_air": acc["air"][1],
            "dT_glob_sea": np.mean(acc["sea"]),
            "dT_NH_sea": acc["sea"][0],
            "dT_SHsea": acc["sea"][1],
            "OHC700": float(np.sum(heat * thick700)),
            "OHCTOT": float(np.sum(heat * d)),
        }


TWO_DEFAULTS = {
    "lambda": 3.74 / 3,
    "mixed": 50,
    "deep": 1200,
    "k": 0.5,
    "ocean_efficacy": 1,
    "foan": 0.61,
    "foas": 0.81,
    "delta_lambda_aero": 0.0,
}

TWO_OUT = [
    "RIB_glob",
    "dT_glob",
    "OHC_MIXED",
    "OHC_DEEP",
    "OHC700",
    "OHCTOT",
    "dT_fast",
    "dT_slow",
]


class TwoLayer:
    """Two-layer energy balance model with a time step of a year"""

    def __init__(self, pams):
        self.p = {**TWO_DEFAULTS, **pams}
        self.fast = 0.0
        self.slow = 0.0

    def step(self, f, volc, w_aero=0.0):
        p = self.p
        forc = 0.5 * (f[0] + f[1]) + 0.5 * (np.mean(volc[0]) + np.mean(volc[1]))
        lam = p["lambda"] + p["delta_lambda_aero"] * w_aero
        cap = 1000.0 * 4184.0 / YEAR_S  # per metre of water
        flux = p["k"] * (self.fast - self.slow)
        fast = self.fast + (forc - lam * self.fast - p["ocean_efficacy"] * flux) / (
            cap * p["mixed"]
        )
        slow = self.slow + flux / (cap * p["deep"])
        self.fast, self.slow = fast, slow
        ocean = 0.5 * (p["foan"] + p["foas"])
        to_ohc = cap * YEAR_S * 3.61e14 / 1e22
        mixed, deep = fast * p["mixed"] * to_ohc, slow * p["deep"] * to_ohc
        in_mixed = min(p["mixed"], 700.0) / p["mixed"]
        in_deep = min(max(700.0 - p["mixed"], 0.0), p["deep"]) / p["deep"]
        return {
            "RIB_glob": forc
            - lam * fast
            - (p["ocean_efficacy"] - 1) * p["k"] * (fast - slow),
            "dT_glob": ocean * fast + (1 - ocean) * forc / lam,
            "OHC_MIXED": mixed,
            "OHC_DEEP": deep,
            "OHC700": mixed * in_mixed + deep * in_deep,
            "OHCTOT": mixed + deep,
            "dT_fast": fast,
            "dT_slow": slow,
        }


def thermal(model, pams):
    return UDM(pams) if model == "default" else TwoLayer(pams)


def thermal_out(model):
    return UDM_OUT if model == "default" else TWO_OUT


def run_thermal(model, pams, fn, fs, volc_n, volc_s, w_aero=None):
    """Series of all outputs for series of forcing"""
    mod = thermal(model, pams)
    out = {k: [] for k in thermal_out(model)}
    for i, f in enumerate(zip(fn, fs)):
        w = 0.0 if w_aero is None else w_aero[i]
        for key, val in mod.step(f, (volc_n[i], volc_s[i]), w).items():
            out[key].append(val)
    return {k: np.array(v) for k, v in out.items()}


# --------------------------------------------------------------------------
# Carbon cycle models
# --------------------------------------------------------------------------

CARBON_DEFAULTS = {
    "beta_f": 0.287,
    "mixed_carbon": 75.0,
    "ml_w_sigmoid": 3.0,
    "ml_fracmax": 0.5,
    "ml_t_half": 0.5,
    "t_half": 0.5,
    "w_sigmoid": 7,
    "t_threshold": 4,
    "w_threshold": 7,
    "solubility_sens": 0.02,
    "solubility_limit": 0.5,
    "ml_depth_min": 10.0,
}
PG_C_PER_PPM = 2.123
EXCHANGE_YEARS = 9.06  # 1 / (ocean area * gas exchange coefficient)
OCEAN_AREA_CARBON = 3.62e14
UMOL = 1.722e17


def sigmoid(x, centre, width):
    return 1.0 / (1.0 + math.exp(-(x - centre) / width))


def rs_values(times, func=None):
    """Mixed layer pulse response at times in years"""
    times = np.asarray(times, dtype=float)
    if func is None:
        early = 0.12935 + sum(
            c * np.exp(-times / t)
            for c, t in (
                (0.21898, 0.034569),
                (0.17003, 0.26936),
                (0.24071, 0.96083),
                (0.24093, 4.9792),
            )
        )
        late = 0.022936 + sum(
            c * np.exp(-times / t)
            for c, t in (
                (0.24278, 1.2679),
                (0.13963, 5.2528),
                (0.089318, 18.601),
                (0.03782, 68.736),
                (0.035549, 232.3),
            )
        )
        return np.where(times < 2.0, early, late)
    tot = float(np.sum(func["coeffs"]))
    res = np.full(times.shape, func["coeffs"][0] / tot)
    for c, t in zip(func["coeffs"][1:], func["timescales"]):
        res = res + c / tot * np.exp(-times / t)
    return res


def rb_values(times, func=None):
    """Decay function of the biosphere at times in years"""
    times = np.asarray(times, dtype=float)
    if func is None:
        return (
            0.70211 * np.exp(-0.35 * times)
            + 13.4141e-3 * np.exp(-times / 20.0)
            - 0.71846 * np.exp(-55.0 / 120.0 * times)
            + 2.9323e-3 * np.exp(-times / 100.0)
        )
    tot = float(np.sum(func["coeffs"]))
    res = np.zeros(times.shape)
    for c, t in zip(func["coeffs"], func["timescales"]):
        res = res + c / tot * times / t**2 * np.exp(-times / t)
    return res


def pco2_ocean(z):
    """Partial pressure change (ppm) for added inorganic carbon z (umol/kg)"""
    coef = (1.3021, 3.7929e-3, 9.1193e-6, 1.488e-8, 1.2425e-10)
    zmax = 293.5
    if z <= zmax:
        return sum(c * z ** (i + 1) for i, c in enumerate(coef))
    val = sum(c * zmax ** (i + 1) for i, c in enumerate(coef))
    slope = sum((i + 1) * c * zmax**i for i, c in enumerate(coef))
    return val + slope * zmax * math.log(z / zmax)


class Carbon:
    """Default carbon cycle: one step() per year"""

    def __init__(self, pams, idtm, nyears, co2_0):
        self.p = {**CARBON_DEFAULTS, **pams}
        self.idtm, self.co2_0 = idtm, co2_0
        times = np.arange(idtm * nyears) / idtm
        self.rs = rs_values(times, self.p.get("rs_function"))
        self.rb = rb_values(times, self.p.get("rb_function"))
        self.flux = []  # air-sea difference (ppm) per time step
        self.npp = []  # additional net primary production per time step
        self.net_em = []  # emissions minus biospheric sink (ppm/yr)
        self.sink = []  # biospheric sink (Pg C/yr)
        self.conc = co2_0
        self.pco2 = 0.0
        self.zmax = 0.0  # largest added carbon so far

    def fnpp(self, dtemp):
        p = self.p

        def shape(x):
            return sigmoid(x, p["t_half"], p["w_sigmoid"]) * (
                1.0 - sigmoid(x, p["t_threshold"], p["w_threshold"])
            )

        return 60.0 * shape(dtemp) / shape(0.0)

    def solubility(self, dtemp):
        p = self.p
        return min(math.exp(-p["solubility_sens"] * dtemp), 1.0 + p["solubility_limit"])

    def depth(self, dtemp):
        p = self.p

        def shape(x):
            return 1.0 - p["ml_fracmax"] * sigmoid(x, p["ml_t_half"], p["ml_w_sigmoid"])

        return max(p["mixed_carbon"] * shape(dtemp) / shape(0.0), p["ml_depth_min"])

    def state(self):
        return (
            list(self.flux),
            list(self.npp),
            list(self.net_em),
            list(self.sink),
            self.conc,
            self.pco2,
        )

    def set_state(self, state):
        flux, npp, net, sink, self.conc, self.pco2 = state
        self.flux, self.npp, self.net_em, self.sink = list(flux), list(npp), list(net), list(sink)

    def step(self, emissions, dtemp=0.0):
        p, dt = self.p, 1.0 / self.idtm
        fnpp, sol, depth = self.fnpp(dtemp), self.solubility(dtemp), self.depth(dtemp)
        tau = EXCHANGE_YEARS
        for _ in range(self.idtm):
            it = len(self.flux)
            if it == 0:
                npp, decay = 0.0, 0.0
            else:
                npp = fnpp * p["beta_f"] * math.log(self.conc / self.co2_0)
                # time step j of the past decays for it-1-j steps
                past = np.array(self.npp[1:it])
                decay = dt * float(np.dot(past, self.rb[: it - 1][::-1])) if it > 1 else 0.0
            sink = npp - decay
            em = (emissions - sink) / PG_C_PER_PPM
            # trapezoidal integral of (emissions - air-sea flux) over all time steps
            factor = dt / tau / (1.0 + dt / tau / 2.0)
            if it == 0:
                total = em * tau
            else:
                total = (
                    0.5 * self.net_em[0] * tau
                    + float(np.sum(self.net_em[:it])) * tau
                    - float(np.sum(self.flux))
                    + 0.5 * em * tau
                    - self.pco2 * tau / dt
                )
            flux = factor * total
            old = 0.0
            if it > 0:
                old = float(np.dot(self.flux[: it - 1], self.rs[1:it][::-1]))
            z = UMOL / (OCEAN_AREA_CARBON * tau) * dt / depth * (old + 0.5 * flux)
            self.zmax = max(self.zmax, z)
            pco2_prev = self.pco2
            self.pco2 = sol * pco2_ocean(z)
            self.conc = self.co2_0 + flux + 0.5 * (self.pco2 + pco2_prev)
            self.flux.append(flux)
            self.npp.append(npp)
            self.net_em.append(em)
            self.sink.append(sink)
        return self.conc

    def land_flux(self):
        return np.mean(np.array(self.sink).reshape(-1, self.idtm), axis=1)

    def ocean_flux(self):
        mean = np.mean(np.array(self.flux).reshape(-1, self.idtm), axis=1)
        return mean * PG_C_PER_PPM / EXCHANGE_YEARS


BOX_DEFAULTS = {
    "beta_f": 0.287,
    "land_temp_sensitivity": 0.1,
    "soil_respiration_rate": 0.02,
    "ocean_mixed_layer_depth": 25.0,
    "ocean_exchange_rate": 0.01,
    "vegetation_to_soil_fraction": 0.1,
    "ocean_solubility_base": 0.02,
    "ocean_solubility_temp_coeff": -0.01,
}


class Box:
    """Carbon cycle with explicit pools"""

    def __init__(self, pams, *_):
        self.p = {**BOX_DEFAULTS, **pams}
        self.conc, self.veg, self.soil, self.mixed, self.deep = 278.0, 600.0, 3000.0, 0.0, 0.0

    def npp_at(self, conc, dtemp):
        p = self.p
        return max(
            0.0,
            60.0 + p["beta_f"] * math.log(conc / 278.0) - p["land_temp_sensitivity"] * dtemp,
        )

    def uptake_at(self, conc, dtemp):
        p = self.p
        return (
            p["ocean_solubility_base"]
            * (1.0 + p["ocean_solubility_temp_coeff"] * dtemp)
            * (conc - 278.0)
        )

    def step(self, emissions, dtemp=0.0):
        p = self.p
        npp = self.npp_at(self.conc, dtemp)
        uptake = self.uptake_at(self.conc, dtemp)
        litter = self.veg * p["vegetation_to_soil_fraction"]
        resp = self.soil * p["soil_respiration_rate"]
        down = (self.mixed - self.deep) * p["ocean_exchange_rate"]
        self.veg += npp - litter
        self.soil += litter - resp
        self.mixed += uptake - down
        self.deep += down
        self.conc += (emissions + resp - npp - uptake) / PG_C_PER_PPM
        return self.conc


def carbon(inp, pams=None):
    pams = inp.case.get("carbon", {}) if pams is None else pams
    if inp.case["carbon_model"] == "box":
        return Box(pams)
    return Carbon(pams, inp.idtm, inp.nyears, inp.cin("CO2", inp.ny0))


def co2_conc(inp, dtemp):
    """CO2 concentrations for given global temperature of every year"""
    if inp.conc_run:
        return inp.win("conc_in", "CO2")
    cyc = carbon(inp)
    res = []
    for i, yr in enumerate(inp.years):
        em = inp.em("CO2_FF", yr) + inp.em("CO2_AFOLU", yr) + inp.gas["CO2"]["NAT_EM"]
        res.append(cyc.step(em, dtemp[i - 1] if i else 0.0))
    return np.array(res)


# --------------------------------------------------------------------------
# Concentrations of other gases
# --------------------------------------------------------------------------


def ch4_loss_rate(inp, conc_prev, yr):
    gas = inp.gas["CH4"]
    q = 1.0 / gas["TAU1"]
    mode = inp.case.get("emi", {}).get("lifetime_mode", "TAR")
    if mode == "TAR":
        oh = (
            -0.32 * math.log(conc_prev / 1751.0)
            + 0.0042 * (inp.em("NOx", yr) - inp.em("NOx", 2000))
            - 0.000105 * (inp.em("CO", yr) - inp.em("CO", 2000))
            - 0.000315 * (inp.em("NMVOC", yr) - inp.em("NMVOC", 2000))
        )
        q = q * (1.0 + oh)
    elif mode == "WIGLEY":
        q = q * (conc_prev / 1700.0) ** (-0.238)
    elif mode == "CONSTANT_12":
        q = 1.0 / 12.0
    return q + 1.0 / gas["TAU2"] + 1.0 / gas["TAU3"]


def gas_conc(inp, name):
    """Concentrations of any gas except CO2"""
    if inp.conc_run:
        return inp.win("conc_in", name)
    gas = inp.gas[name]
    res = []
    for i, yr in enumerate(inp.years):
        if yr < inp.emstart:
            res.append(inp.cin(name, yr))
            continue
        prev = res[-1] if res else inp.cin(name, inp.ny0)
        nat = inp.nat[name][i] if name in ("CH4", "N2O") else gas["NAT_EM"]
        q = ch4_loss_rate(inp, prev, yr) if name == "CH4" else 1.0 / gas["TAU1"]
        equil = (inp.em(name, yr) + nat) / gas["BETA"] / q
        res.append(equil + (prev - equil) * math.exp(-q))
    return np.array(res)


# --------------------------------------------------------------------------
# Forcing
# --------------------------------------------------------------------------

EMI_DEFAULTS = {
    "qbmb": 0.0,
    "qo3": 0.5,
    "qdirso2": -0.00308,
    "qindso2": -0.97 / 57.052577209999995,
    "qbc": 0.0279,
    "qoc": -0.00433,
    "qh2o_ch4": 0.091915,
    "ref_yr": 2010,
    "qnmvoc": 0.0,
    "qnh3": 0.0,
    "qnox": 0.0,
}

AERO_FROM = {
    "SO2": ("SO2", "qdirso2"),
    "SO4_IND": ("SO2", "qindso2"),
    "OC": ("OC", "qoc"),
    "BC": ("BC", "qbc"),
    "BMB_AEROS": ("BMB_AEROS_OC", "qbmb"),
    "NMVOC": ("NMVOC", "qnmvoc"),
    "NH3": ("NH3", "qnh3"),
    "NOx": ("NOx", "qnox"),
}
AEROS = [*AERO_FROM, "BMB_AEROS_BC", "BMB_AEROS_OC"]


def is_aerosol(inp, name):
    return inp.gas[name]["CONC_UNIT"] == "-" and (
        name in AEROS or name.split("_")[0] in ("SO2", "BC", "OC")
    )


def emi_pams(inp):
    pams = {**EMI_DEFAULTS, **inp.case.get("emi", {})}
    for base, key in (("SO2", "qdirso2"), ("BC", "qbc"), ("OC", "qoc")):
        if inp.case.get("regional", {}).get(base):
            pams[key] = 0.0
    return pams


def three_main_forcing(inp, conc):
    """Etminan et al. (2016)"""
    C, M, N = (np.asarray(conc[g], dtype=float) for g in MAIN)
    C0, M0, N0 = C[0], M[0], N[0]
    sarf = {
        "CO2": (-2.4e-7 * (C - C0) ** 2 + 7.2e-4 * np.abs(C - C0) - 2.1e-4 * (N + N0) / 2 + 5.36)
        * np.log(C / C0),
        "N2O": (-8.0e-6 * (C + C0) / 2 + 4.2e-6 * (N + N0) / 2 - 4.9e-6 * (M + M0) / 2 + 0.117)
        * (np.sqrt(N) - np.sqrt(N0)),
        "CH4": (-1.3e-6 * (M + M0) / 2 - 8.2e-6 * (N + N0) / 2 + 0.043)
        * (np.sqrt(M) - np.sqrt(M0)),
    }
    return {g: sarf[g] * inp.gas[g]["SARF_TO_ERF"] for g in MAIN}


def strat_o3_forcing(inp, conc):
    """Stratospheric ozone from chlorine and bromine three years before"""
    tot = np.zeros(inp.nyears)
    for gas in inp.vanilla:
        delta = np.asarray(conc[gas]) - conc[gas][0]
        if gas in inp.cl_atoms:
            tot += 0.000552 * np.sign(delta) * np.abs(inp.cl_atoms[gas] * delta) ** 1.7
        if gas in inp.br_atoms:
            tot += 3.048 * inp.br_atoms[gas] * delta
    lagged = np.zeros(inp.nyears)
    if inp.nyears > 3:
        lagged[3:] = tot[:-3]
    return -0.05 / 0.17377 * lagged / 1000.0 * inp.gas["STRAT_O3"]["SARF_TO_ERF"]


def trop_o3_conc(inp, conc):
    ref = emi_pams(inp)["ref_yr"]
    res = []
    for i, yr in enumerate(inp.years):
        res.append(
            30.0
            + 6.7 * math.log(conc["CH4"][i] / inp.cin("CH4", ref))
            + 0.17 * (inp.em("NOx", yr) - inp.em("NOx", ref))
            + 0.0014 * (inp.em("CO", yr) - inp.em("CO", ref))
            + 0.0042 * (inp.em("NMVOC", yr) - inp.em("NMVOC", ref))
        )
    return np.array(res)


def aerosol_forcing(inp, name):
    pams = emi_pams(inp)
    if inp.gas[name]["ALPHA"] != 0:
        em = inp.win("emis", name)
        return inp.gas[name]["ALPHA"] * (em - em[0])
    if name in AERO_FROM:
        species, key = AERO_FROM[name]
        em = inp.win("emis", species)
        return pams[key] * (em - em[0])
    return np.zeros(inp.nyears)


def forcing(inp, conc, perturbed=True):
    """Forcing of all components for given concentrations"""
    pams = emi_pams(inp)
    res = three_main_forcing(inp, conc)
    for name, gas in inp.gas.items():
        if name in MAIN:
            continue
        if name in inp.vanilla:
            res[name] = gas["ALPHA"] * gas["SARF_TO_ERF"] * (conc[name] - conc[name][0])
        elif is_aerosol(inp, name):
            res[name] = aerosol_forcing(inp, name)
        elif name == "LANDUSE":
            res[name] = np.array(inp.luc)
        elif name == "TROP_O3":
            o3 = trop_o3_conc(inp, conc)
            change = (o3 - o3[0]) / (30.0 - o3[0]) if o3[0] != 30.0 else np.zeros(inp.nyears)
            res[name] = pams["qo3"] * change * gas["SARF_TO_ERF"]
        elif name == "STRAT_O3":
            res[name] = strat_o3_forcing(inp, conc)
        elif name == "STRAT_H2O":
            res[name] = pams["qh2o_ch4"] * res["CH4"] * gas["SARF_TO_ERF"]
        else:  # CO, OTHER
            res[name] = np.zeros(inp.nyears)
    if perturbed:
        for comp, off, val in inp.case.get("pert_forc", []):
            if comp in res and 0 <= off < inp.nyears:
                res[comp] = np.array(res[comp])
                res[comp][off] += val
    return res


def north_factor(name):
    """Share of the northern hemisphere relative to the global mean"""
    if name in ("SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_OC", "BMB_AEROS_BC"):
        return 1.47
    if name == "TROP_O3":
        return 1.45
    if name == "LANDUSE":
        return 1.42
    return 1.0


def total_and_hemispheres(inp, forc, just_one=None):
    """Total forcing without sun and hemispheric forcing with sun"""
    names = [just_one] if just_one else list(forc)
    total = np.sum([forc[n] for n in names], axis=0)
    north = np.sum([north_factor(n) * forc[n] for n in names], axis=0) + inp.sun
    south = np.sum([(2 - north_factor(n)) * forc[n] for n in names], axis=0) + inp.sun
    return total, north, south


def aerosol_weight(inp, forc_clean, forc):
    """
    Fraction of the summed magnitudes due to aerosols. The simple well-mixed gases
    and stratospheric ozone do not count
    """
    names = [n for n in forc if n not in inp.vanilla and n != "STRAT_O3"]
    aero = np.sum([np.abs(forc_clean[n]) for n in names if is_aerosol(inp, n)], axis=0)
    tot = np.sum([np.abs(forc[n]) for n in names], axis=0)
    return np.array([a / t if t > 0 else 0.0 for a, t in zip(aero, tot)])


# --------------------------------------------------------------------------
# All together
# --------------------------------------------------------------------------


def full_run(inp, wiggle=0.0):
    """
    Whole coupled model, year by year

    With a wiggle, the state is nudged by that much (relatively) every year
    """
    noise = np.random.default_rng(1).uniform(-1.0, 1.0, (inp.nyears, 4)) * wiggle
    case = inp.case
    conc = {g: gas_conc(inp, g) for g in inp.gas if g == "CH4" or g == "N2O" or g in inp.vanilla}
    out_keys = thermal_out(case["thermal"])
    out = {k: np.zeros(inp.nyears) for k in out_keys}
    therm = thermal(case["thermal"], case.get("udm", {}))
    co2 = np.full(inp.nyears, np.nan)
    cyc = carbon(inp)
    prescribed = inp.win("conc_in", "CO2")
    series = {k: np.zeros(inp.nyears) for k in ("total", "north", "south", "w")}
    # forcing of everything but CO2, N2O does not depend on the temperature; the
    # overlap with CO2 makes it easiest to evaluate all of it again every year
    for i, yr in enumerate(inp.years):
        if inp.conc_run:
            co2[i:] = prescribed[i]
        else:
            em = inp.em("CO2_FF", yr) + inp.em("CO2_AFOLU", yr) + inp.gas["CO2"]["NAT_EM"]
            if wiggle and i:
                cyc.conc *= 1.0 + noise[i, 0]
                if hasattr(cyc, "pco2"):
                    cyc.pco2 += noise[i, 1] * cyc.conc
            co2[i:] = cyc.step(em + wiggle, out["dT_glob"][i - 1] if i else 0.0)
        conc["CO2"] = co2
        forc_clean = forcing(inp, conc, perturbed=False)
        forc = forcing(inp, conc)
        just_one = case.get("emi", {}).get("just_one")
        total, north, south = total_and_hemispheres(inp, forc, just_one)
        w = aerosol_weight(inp, forc_clean, forc)
        for key, arr in (("total", total), ("north", north), ("south", south), ("w", w)):
            series[key][i] = arr[i]
        pushed = (north[i] + noise[i, 2], south[i] + noise[i, 3])
        res = therm.step(pushed, (inp.volc_n[i], inp.volc_s[i]), w[i])
        for key in out_keys:
            out[key][i] = res[key]
    conc["TROP_O3"] = trop_o3_conc(inp, conc)
    return {"conc": conc, "forc": forc, "thermal": out, "series": series, "cycle": cyc}


def in_domain(result):
    """Whether a run stays where the equations mean anything (no runaway numbers)"""
    conc = result["conc"]
    vals = [result["thermal"]["dT_glob"], result["series"]["total"]]
    if not all(np.all(np.isfinite(v)) for v in vals + [conc[g] for g in conc]):
        return False
    if min(np.min(conc[g]) for g in MAIN) <= 1.0 or np.max(conc["CO2"]) > 1.0e4:
        return False
    return bool(np.max(np.abs(vals[0])) < 30.0)


def try_full_run(inp):
    """
    Result of full_run, or None where the scenario leaves the valid domain

    A run where a small nudge grows a thousandfold is outside as well: rounding
    errors grow in the same way there, so that no two ways of writing the same
    equations would agree.
    """
    try:
        with np.errstate(all="ignore"):
            result = full_run(inp)
            if not in_domain(result):
                return None
            nudged = full_run(inp, 1e-9)
    except (ValueError, OverflowError, ZeroDivisionError, np.linalg.LinAlgError):
        return None
    return result if well_behaved(result, nudged) else None


def well_behaved(result, nudged):
    """Whether two runs that differ by a nudge of 1e-9 stay close"""
    pairs = [(result["conc"]["CO2"], nudged["conc"]["CO2"])]
    for key, val in result["thermal"].items():
        pairs.append((val, nudged["thermal"][key]))
    for want, got in pairs:
        if not np.max(np.abs(got - want)) <= 1e-6 * (1.0 + np.max(np.abs(want))):
            return False
    return True
