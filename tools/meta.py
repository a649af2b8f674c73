#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json (run after a change of the lists below)"""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/ciceroscm/"
CEH = S + "concentrations_emissions_handler.py"
MAIN = S + "ciceroscm.py"
INP = S + "input_handler.py"
UDM = S + "thermal_model/upwelling_diffusion_model.py"
TWO = S + "thermal_model/two_layer_ocean.py"
THA = S + "thermal_model/abstract_thermal_model.py"
CCA = S + "carbon_cycle/carbon_cycle_abstract.py"
CCM = S + "carbon_cycle/carbon_cycle_mod.py"
CCB = S + "carbon_cycle/carbon_cycle_mod_box.py"
CCC = S + "carbon_cycle/common_carbon_cycle_functions.py"
RF = S + "carbon_cycle/rfuns.py"
PERT = S + "perturbations.py"
UT = S + "_utils.py"
PU = S + "pub_utils.py"
PW = S + "parallel/cscmparwrapper.py"
PP = S + "parallel/_parallel_process.py"
CD = S + "parallel/_configdistro.py"
DR = S + "parallel/distributionrun.py"
RES = S + "formattingtools/reformat_cscm_results.py"
FAC = S + "component_factory_functions.py"

I, H, C = "inputs", "histories", "configurations"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, oracle (for the manifest)
PROPS = [
    (
        "C01",
        "A run does not depend on the runs before it",
        "A run of a model object gives exactly the results that a newly made model object gives for the same inputs and parameters, whatever runs of this or other model objects came before it in the process (carbon-cycle parameters given to earlier runs of the same object count as given, everything else is forgotten). Results that were handed out for an earlier run keep their values when the object is run again. The same holds for thermal and carbon-cycle components used on their own.",
        [H, C],
        "every sequence of runs with any parameters over one or several model objects and components",
        "The tests run an object once or twice with one or two parameter sets; state that leaks only for a particular option in a particular order is not reached.",
        [MAIN, CEH, CCA, CCM, UDM, TWO],
        [("state is reset before each run", CEH + " reset_with_new_pams"), ("carbon cycle reset", CCM + " reset_co2_hold"), ("fresh output arrays", MAIN + " initialise_output_arrays")],
        "stateful histories, differential against fresh processes",
    ),
    (
        "C02",
        "What the user hands in is not modified",
        "Tables, arrays, dictionaries and lists that the user hands in (configuration and its data tables, parameter sets, perturbations, scenario and configuration lists, distributions) have the same values after making and running a model, an ensemble or a distribution as before. Entries may be added for omitted defaults, but no given value changes.",
        [I, C],
        "every input table, parameter set, perturbation and ensemble",
        "The tests load inputs from files again each time and never compare them after use.",
        [MAIN, CEH, INP, PERT, CD, DR, PW],
        [("tables are copied before they are changed", CEH + " __init__"), ("parameter sets are cut into new dictionaries", UT + " cut_and_check_pamset")],
        "deep copies before, comparison after",
    ),
    (
        "C03",
        "Ensembles run in parallel equal single runs",
        "An ensemble has, for any number of workers, exactly one row per scenario, configuration and requested variable, in the order of scenarios, configurations and variables, with the values that a single run of a new model object for that scenario and configuration gives. Neither the number of workers nor how jobs are split over them changes any value, row or order. Results of a list of parallel jobs come in the order of the jobs.",
        ["schedules", C, I],
        "every list of scenarios, configurations, variables, worker count and timing of the jobs",
        "The tests run a handful of fixed ensembles and look at few values.",
        [PW, PP, DR],
        [("jobs per scenario and chunk of configurations", PW + " run_ciceroscm_parallel"), ("order of futures", PP + " _parallel_process"), ("own model object per configuration", PW + " CSCMParWrapper.run_over_cfgs")],
        "differential: ensemble against single runs, generated worker counts and job timings",
    ),
    (
        "C04",
        "Sampled configurations follow the distribution asked for",
        "A sampled set of n configurations has n members with unique names; every distributed parameter gets values in its own range, with Latin hypercube sampling exactly one value in each of the n equal parts of the range, with Gaussian sampling values with the mean and standard deviation that the range stands for, and different parameters are sampled independently. Every parameter, distributed or set to a fixed value, ends up with its value in the parameter set that the model takes it from (thermal, emission-concentration or carbon cycle). Splitting into chunks partitions the set, and a restriction to forcing runs distributes only the parameters these use.",
        [C, "inputs"],
        "every choice of distributed parameters, ranges, fixed values, sample size, sampling method, chunk size and option",
        "The tests check lengths and a few ranges for fixed samples.",
        [CD],
        [("sampling", CD + " get_samples_from_distro_latin / _gaussian"), ("routing to parameter sets", CD + " make_config_lists"), ("orders and ranges", CD + " set_prior_and_check")],
        "validity predicate over generated samples (strata, ranges, moments, routing, partition)",
    ),
    (
        "C05",
        "Configurations survive being saved and loaded",
        "Configurations that are written to a file and loaded again are the same configurations in the same order, and ensembles run with them give the same results. This holds with and without meta information, which is kept in the file, for files written in chunks (which together hold every configuration once), and for lists written by hand.",
        [C, I, H],
        "every list of configurations, meta information and chunk size, and every sequence of writing and loading",
        "The tests write and read one or two small fixed files.",
        [DR, CD],
        [("writing", DR + " write_configs_to_json"), ("loading", DR + " __init__"), ("chunks", CD + " make_config_lists")],
        "round trip over generated configurations",
    ),
    (
        "C06",
        "Total and hemispheric forcing are the sums over components",
        "In emission and concentration runs the total forcing of every year is the sum of the forcings of all components, each counted once, perturbations included and solar and volcanic forcing not. The hemispheric forcing that drives the thermal model is the sum with each component's north-south weighting (aerosols, tropospheric ozone and land use are stronger in the north, everything else is even), plus solar and volcanic forcing. When a run is restricted to a single component, total and hemispheric forcing come from that component alone.",
        [I, C],
        "every gas table, scenario, perturbation and choice of a single component",
        "The tests compare a few totals for fixed scenarios with stored numbers and loose tolerances; which components enter depends on the gas table.",
        [CEH, PERT, MAIN],
        [("summing and splitting", CEH + " conc2forc"), ("hemispheric weights", PERT + " calculate_hemispheric_forcing"), ("vanilla gases added once", CEH + " _precalculate_vanilla_gases")],
        "reported components summed independently; temperatures against the reference thermal model driven with the recomputed hemispheric forcing",
    ),
    (
        "C07",
        "Perturbations add exactly what they say, where they say",
        "An emission perturbation has the same effect on a run as adding its value to the emission table for that component and year (CO2 goes to fossil emissions), and nothing else changes. A forcing perturbation adds its value to the forcing of its component in its year and to the total, and leaves the forcing of all other components and years as it was when temperature does not feed back on concentrations. The order of the rows does not matter, several rows for the same component and year add up, and rows for years outside the run or components the run does not have are without effect on forcing.",
        [I],
        "every set of perturbation rows, any component, year, sign and order, in any scenario",
        "The tests apply one or two fixed perturbation files to one scenario.",
        [PERT, CEH, INP],
        [("emissions", PERT + " perturb_emissions"), ("forcing", PERT + " ForcingPerturbation"), ("vanilla gases", PERT + " add_forcing_pert_for_vanilla")],
        "metamorphic: perturbed run against run with edited table, and difference of perturbed and unperturbed run",
    ),
    (
        "C08",
        "CO2, CH4 and N2O forcing follow their concentrations",
        "The forcing of CO2, CH4 and N2O in every year is the Etminan et al. (2016) expression, overlaps included, of the three concentrations in that year relative to the first year of the run, times the gas's adjustment factor from the gas table. It is zero in the first year and does not depend on how the concentrations came about.",
        [I, C],
        "all concentration pathways of the three gases (prescribed or calculated), all adjustment factors",
        "The tests compare stored numbers for one pathway.",
        [CEH],
        [("formulas", CEH + " calculate_forc_three_main")],
        "closed-form oracle evaluated on the concentrations in the results",
    ),
    (
        "C09",
        "Concentrations of other gases follow a one-box decay",
        "From the first year with emissions on, every gas except CO2 has in each year the concentration that one year of exponential decay towards equilibrium gives from the year before, with its lifetime, emission-to-concentration factor, emissions and natural emissions of that year; methane also has stratospheric and soil losses and the lifetime feedback of the chosen mode. Before the first year with emissions, and throughout concentration runs, concentrations are exactly those prescribed for the year. The forcing of simple gases is proportional to the change of concentration since the first year.",
        [I, C],
        "every gas table, emission and concentration table, natural emissions, start year of emissions (before, at, within, at the end of, after the run) and lifetime mode",
        "The tests follow a few gases of one scenario with one start year of emissions.",
        [CEH, INP],
        [("CH4 and N2O", CEH + " emi2conc"), ("methane lifetime", CEH + " methane_lifetime"), ("simple gases", CEH + " _precalculate_concentrations_vanilla_gases"), ("prescribed", CEH + " fill_one_row_conc")],
        "recurrence oracle on the concentrations in the results",
    ),
    (
        "C10",
        "Forcing of short-lived components follows emissions",
        "The forcing of each aerosol and precursor is its forcing factor times the change of the emissions it comes from since the first year, a factor in the gas table taking the place of the parameter. Tropospheric ozone follows methane and the emissions of NOx, CO and NMVOC relative to the reference year, stratospheric water vapour is a fixed fraction of the methane forcing, and land use forcing is the given series. None of them depends on any other component's emissions or parameters.",
        [I, C],
        "all emissions, gas tables, forcing parameters and reference years",
        "The tests use one gas table with the default parameters.",
        [CEH],
        [("aerosols", CEH + " conc2forc"), ("ozone", CEH + " tropospheric_ozone")],
        "closed-form oracle on generated emissions, tables and parameters",
    ),
    (
        "C11",
        "Stratospheric ozone loss follows chlorine and bromine",
        "The forcing of stratospheric ozone in a year follows from the changes of all chlorine and bromine bearing gases three years before relative to the first year (chlorine to the power 1.7 with the sign of the change, bromine linear), is zero in the first three years, and scales with its adjustment factor. Every gas in the gas table with a conventional halocarbon name counts with the number of chlorine and bromine atoms that its name stands for, no other gas counts.",
        [I, C],
        "every set of gases, including names that are not in the standard table, and every concentration pathway, rising or falling",
        "The tests know the gases of the standard table and one scenario.",
        [CEH, PU],
        [("forcing", CEH + " _add_precalculated_strat_o3, calculate_strat_quantities"), ("atoms from names", PU + " make_cl_and_br_dictionaries")],
        "closed-form oracle with atoms counted from generated chemical compositions",
    ),
    (
        "C12",
        "The default carbon cycle solves its equations",
        "The CO2 concentration of the default carbon cycle is, for any emission and temperature history and any parameters, the solution of its air-sea exchange, mixed-layer pulse-response and fertilised-biosphere equations in equal steps through the year, starting from the pre-industrial concentration. Temperature acts on biospheric production, ocean solubility and mixed-layer depth through the temperature of the year before, and has no effect when it does not change.",
        [I, C],
        "all emission pathways (also negative), temperature pathways, carbon parameters, response functions and numbers of steps a year",
        "The tests compare a few stored numbers for one pathway with default parameters.",
        [CCM, CCA, CEH],
        [("time stepping", CCM + " co2em2conc"), ("temperature dependence", CCM + " get_mixed_layer_depth, get_solubility, fnpp"), ("feedback values", MAIN + " _run")],
        "independent reference implementation, component and coupled",
    ),
    (
        "C13",
        "Pulse-response and decay functions are normalised and given freely",
        "A custom mixed-layer pulse-response or biosphere decay function acts in the same way however it is given: as coefficient and time-scale lists, as single numbered values, or in the model configuration. Only the ratios of the coefficients matter, the order of the terms does not, the pulse response starts at one and the decay function at zero. Lists that do not fit together, and time scales of zero, are rejected.",
        [I, C],
        "every number of terms, coefficients and time scales, and every way to give them",
        "The tests use one or two fixed functions.",
        [RF, CCA, CD],
        [("normalisation", RF + " rs_function_array, rb_function2"), ("single values to lists", CCA + " / " + UT), ("validation", RF)],
        "metamorphic relations and closed-form oracle",
    ),
    (
        "C14",
        "Emissions calculated back from concentrations reproduce them",
        "In a concentration run the emissions that are calculated back for each year, put into the same carbon cycle with the same parameters and temperatures, give the prescribed concentrations again within the tolerance of the search (a small fraction of a ppm). Calculating them does not change any other result.",
        [I, C],
        "all prescribed concentration pathways with changes up to several percent a year, all carbon parameters and steps a year",
        "The tests calculate emissions back for one pathway.",
        [CCA, CCM, CEH],
        [("search", CCA + " back_calculate_emissions, simplified_em_backward")],
        "round trip through the reference carbon cycle and through the code",
    ),
    (
        "C15",
        "Carbon fluxes and airborne fraction are consistent with the run",
        "The carbon cycle outputs of a run describe that run: land and ocean fluxes are yearly means of the fluxes the concentrations were calculated with, and the airborne fraction is the share of the emissions since the start of the run that is in the atmosphere. Mixed layer depth, solubility and biospheric production are those of the year's temperature. They are given if and only if they are asked for.",
        [I, C],
        "all emission and concentration pathways and carbon parameters",
        "The tests check presence and a few values.",
        [CCM, CCA, CCC, CEH],
        [("fluxes", CCM + " get_carbon_cycle_output"), ("airborne fraction", CCC + " calculate_airborne_fraction")],
        "reference model and closed-form relations between the outputs",
    ),
    (
        "C16",
        "The box carbon cycle conserves carbon",
        "In the box carbon cycle carbon only moves between atmosphere, vegetation, soil, mixed layer and deep ocean: at any time the changes of all pools add up to the cumulative emissions. Its concentrations and pools follow its documented fluxes for any emissions, temperatures and parameters.",
        [I, H, C],
        "all emission and temperature histories and parameters",
        "The tests run a few years with default parameters.",
        [CCB],
        [("fluxes", CCB + " co2em2conc")],
        "conservation invariant over the history, and reference implementation",
    ),
    (
        "C17",
        "The upwelling-diffusion model solves its energy balance",
        "For any hemispheric and volcanic forcing history and any parameters the temperatures of the upwelling-diffusion model are the solution of its implicit diffusion-upwelling equations in equal steps through the year, with forcing interpolated linearly within the year, heat exchange between hemispheres and air temperature from the atmospheric energy balance. Zero forcing gives zero change, and with constant upwelling the response is linear in the forcing.",
        [I, C, H],
        "all forcing histories, parameters, numbers of layers and steps a year",
        "The tests compare stored numbers for one forcing history and default parameters.",
        [UDM, THA],
        [("coefficients", UDM + " setup_ebud, coeff"), ("solver", UDM + " / " + PU + " _band"), ("year", UDM + " energy_budget")],
        "independent reference implementation with a dense solver, linearity and zero relations",
    ),
    (
        "C18",
        "Reported temperature, heat content and imbalance fit together",
        "In every year of every run global temperatures are the means of the hemispheres, blended temperatures are the ocean-area weighted means of air and sea temperatures, total ocean heat content is that of all layers and the upper-ocean content that of the top 700 m, and the radiative imbalance is forcing minus feedback (minus the part due to ocean efficacy). Without efficacy and exchange of heat between the hemispheres' atmospheres, the yearly change of ocean heat content is the mean over the steps of the year of forcing minus the feedback of the air temperature.",
        [I, C],
        "all runs with the upwelling-diffusion model",
        "The tests look at single numbers of one run.",
        [UDM],
        [("yearly means and diagnostics", UDM + " energy_budget"), ("heat content", UDM + " ocean_heat_content")],
        "invariants over the results and layer temperatures of the reference implementation",
    ),
    (
        "C19",
        "The two-layer model solves its equations and conserves energy",
        "For any forcing history and any parameters the two-layer model gives the temperatures, heat contents and imbalance of its two energy balance equations with yearly steps, driven by the mean of the hemispheric forcings plus the mean volcanic forcing of both hemispheres. Without ocean efficacy every yearly change of the total heat content is the forcing minus the feedback at the start of the year; heat content down to 700 m counts the layers down to that depth.",
        [I, C, H],
        "all forcing histories, volcanic series and parameters",
        "The tests check signs and monotonicity for a few steps.",
        [TWO, THA],
        [("year", TWO + " energy_budget")],
        "independent reference implementation and energy budget invariant",
    ),
    (
        "C20",
        "The aerosol pattern effect changes feedback by aerosol share only",
        "With the pattern effect parameter at zero the aerosol share of the forcing has no effect; otherwise the feedback used for a year is the basic one plus parameter times that year's share, in both thermal models, so that a constant share is the same as a shifted feedback parameter. In forcing runs the share comes from its own column or from the components in the file, and is zero where neither is given; in other runs it is the share of aerosols in the summed magnitudes of the components.",
        [I, C],
        "all parameter values, forcing tables with any components, and scenarios",
        "The tests look at a few values for single steps.",
        [THA, UDM, TWO, CEH, INP, MAIN],
        [("effective feedback", THA + " set_feedback_gregory"), ("share in runs", CEH + " conc2forc"), ("share from files", INP + " read_forc")],
        "metamorphic relations and reference model",
    ),
    (
        "C21",
        "Inputs give the same run from files as from data",
        "Every input (gas table, emissions, concentrations, natural emissions, land use, solar and volcanic forcing, total forcing, perturbations) can be given as a file or as data in any mix, and the run is the same for the same content. Options are recognised by the same names in all cases.",
        [I, C],
        "every content of every input, and every mix of files and data",
        "The tests use the shipped files and data read from the same files.",
        [INP, PERT],
        [("choice of source", INP + " get_data"), ("readers", INP + " read_components, read_natural_emissions, read_inputfile")],
        "differential: generated content written to files in a scratch folder against data",
    ),
    (
        "C22",
        "Output files hold the results",
        "A run that writes files puts the same numbers there (to the printed precision of six significant digits) that the same run hands out as data, in files named with the given prefix in the given folder: emissions, concentrations, forcing, heat content, imbalance, temperatures, solar and volcanic forcing, and carbon cycle if asked for. Every file has one row per year of the run, and no other files are written.",
        [I, C],
        "every scenario, thermal and carbon model, prefix, folder and kind of run",
        "The tests check that files exist and one or two of them.",
        [MAIN, CEH],
        [("thermal files", MAIN + " write_data_to_file"), ("component files", CEH + " write_output_to_files")],
        "differential: files parsed independently against the results of the same run",
    ),
    (
        "C23",
        "Forcing runs use the forcing they are given",
        "A forcing run is driven in every year by exactly the forcing that was given for that year: one value for both hemispheres, separate hemispheric values, or components that are added up, from a file of any supported kind, a table or an array, plus solar and volcanic forcing. The reported total forcing is the given total (or the mean of the hemispheres, or the sum of components) plus solar forcing, and all ways to give the same forcing give the same run.",
        [I, C],
        "all forcing series, file kinds, tables, years and thermal models",
        "The tests run one forcing file or array.",
        [MAIN, INP],
        [("reading", INP + " read_forc"), ("year's forcing", MAIN + " forc_set")],
        "reference thermal model driven with the drawn forcing; differential between formats",
    ),
    (
        "C24",
        "Runs cover their years, and inputs are used in their years",
        "Results have exactly one value per year from the first to the last year of the run, for any period within the inputs, also of a few years. Inputs that reach beyond the period are used in their own years: emissions and concentrations by the year in the table, default land use, solar and volcanic forcing and natural emissions by the calendar year. Solar and volcanic forcing are zero when they are switched off, also if series are given.",
        [I, C],
        "every first and last year, every extent of the tables, all defaults",
        "The tests use few periods, nearly all from 1750 to 2100.",
        [INP, MAIN, CEH],
        [("cutting to the period", INP + " read_inputfile, get_data"), ("defaults", INP + " / default data")],
        "shipped default files parsed independently; generated periods and paddings",
    ),
    (
        "C25",
        "The future does not change the past",
        "Results up to any year do not depend on inputs for later years (emissions, concentrations, natural emissions, forcing series, perturbations) nor on how long the run continues. The reference year and the year 2000 that emission-driven ozone and methane lifetime refer to are the only later years that matter.",
        [I, C],
        "every scenario, split year and change of later inputs, all models",
        "No test compares runs of different length.",
        [CEH, CCM, UDM, TWO, MAIN],
        [("year-by-year loop", MAIN + " _run"), ("precalculation", CEH + " _precalculate_vanilla_gases"), ("response functions by time", CCM)],
        "metamorphic: runs that agree up to a year and differ after it",
    ),
    (
        "C26",
        "Omitted and invalid parameters mean the documented defaults",
        "A run with a parameter left out is the same as a run with its documented default given, and the same as a run where the value given is not a number; parameters the model does not know have no effect. Any kind of number is accepted with the same meaning. Settings that are fixed for a model object (period, steps a year, kind of run) cannot be changed by the parameters of a single run.",
        [C],
        "every subset of the parameters of all parameter sets, and every kind of value",
        "The tests look at the checking helper with a few dictionaries.",
        [UT, CEH, CCA, UDM, TWO],
        [("checking", UT + " cut_and_check_pamset, check_numeric_pamset"), ("defaults", CEH + " check_pamset"), ("fixed settings", CEH + " check_pamset_consistency")],
        "differential: parameter set with omissions against the full set of documented defaults",
    ),
    (
        "C27",
        "Ensemble variables are the right series with the right units",
        "Every variable that can be asked for in an ensemble holds the series of the run that its name says (emissions, concentrations, forcing of single components and groups, temperatures, heat uptake, heat content, carbon cycle), for every gas in the gas table, with the unit of the run's data for it. A group forcing is the sum of its members that are in the run, each counted once. Names that the model does not know, and temperatures that the thermal model in use does not have, give no row.",
        [I, C],
        "every variable, gas table, scenario and thermal model",
        "The tests ask for a handful of variables.",
        [RES, PW],
        [("mapping", RES + " CSCMREADER")],
        "independent table of names, units and definitions against the results of single runs",
    ),
    (
        "C28",
        "Inputs that cannot be used are rejected, not misread",
        "A run that lacks a required input, names a file that does not exist or a model that does not exist, has emission or concentration files in other units than the gas table, a table that lacks a component or a year that the run needs, a response function that is not consistent, or a configuration file that is not valid is refused with an error of the documented kind before any result is produced; nothing is filled in silently. A refused input leaves nothing behind that changes later runs, of new model objects or of the same one.",
        [I, C, "fault_sequences"],
        "every single omission or corruption of an otherwise valid input",
        "The tests try one or two of each.",
        [INP, FAC, DR, RF, PU],
        [("required inputs", INP + " get_data"), ("units", INP + " check_units / " + PU), ("models", FAC)],
        "generated corruption of generated valid inputs, expected error kinds",
    ),
    (
        "C29",
        "Regional aerosol emissions are counted once",
        "When the gas table has regional components of an aerosol, each contributes its own factor times the change of its own emissions, with the north-south weighting of the general case, the global component of that aerosol contributes nothing through its forcing parameter, and other aerosols are as without them. A gas table made with regional factors has one component per aerosol and region with that factor and the units of the global component, and otherwise equals the table it was made from.",
        [I, C],
        "every choice of aerosols, regions, factors and emissions, any order of runs",
        "The tests add one set of regions to one table.",
        [CEH, PU, INP],
        [("no double counting", CEH + " avoid_regional_double_counting"), ("making tables", PU + " make_regional_aerosol_gaspamdata")],
        "closed-form oracle on generated regional tables",
    ),
    (
        "C30",
        "The coupled model is the composition of its parts",
        "For every scenario and parameter set, concentrations, forcing, temperatures, heat content and imbalance of a run are those of the chain emissions, concentrations, forcing, temperature with the temperature feedback on the carbon cycle, evaluated year by year from the first year on, in short runs as in runs over centuries.",
        [I, C, H],
        "all scenarios, periods, gas tables, perturbations, models and parameters",
        "The tests compare a few end values of one scenario with stored results.",
        [MAIN, CEH, CCM, CCB, UDM, TWO, PERT],
        [("year-by-year loop", MAIN + " _run")],
        "independent reference implementation of the whole model",
    ),
    (
        "C31",
        "Plots show the results of the run and change nothing",
        "A run that is asked for plots puts figures in the folder plots of the output folder that show, over the years of the run, the heat content, imbalance and temperature series that the thermal model has and, if files are written, every component of the forcing, emission and concentration results that has values, once and under its own name and unit. Files and results are the same as without plots. This holds for every thermal model and any number of components.",
        [I, C],
        "every scenario, gas table, thermal model and kind of run",
        "The test looks whether the files of one run exist.",
        ["src/ciceroscm/make_plots.py", MAIN, CEH],
        [("thermal results", "src/ciceroscm/make_plots.py plot_output1"), ("tables", "src/ciceroscm/make_plots.py plot_output2")],
        "recorded figures of generated runs against the results of the same run without plots",
    ),
]


def main():
    have = {
        name[:3].upper()
        for name in os.listdir(os.path.join(HERE, "pbt", "props"))
        if name[0] == "c" and name[1:3].isdigit() and name.endswith(".py")
    }
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fout:
        for pid, title, statement, over, text, why, files, mech, _ in PROPS:
            assert len(title) <= 80, title
            fout.write(
                json.dumps(
                    {
                        "id": pid,
                        "title": title,
                        "statement": statement,
                        "quantifier": {"over": over, "text": text},
                        "why_tests_cant": why,
                        "anchors": {
                            "files": files,
                            "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": ["results of runs", "public functions and classes"],
                            "hook_needed": None,
                        },
                    }
                )
                + "\n"
            )
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup_check.py",
        "checks": [
            {
                "property": p[0],
                "quick_cmd": f"/opt/venv/bin/python run.py {p[0]} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python run.py {p[0]} --tier thorough",
                "technique": f"property-based testing (Hypothesis): {p[8]}",
                "level": "exploration",
                "level_note": (
                    "Held on all generated cases (counts and classes in the evidence file); "
                    "no claim beyond them. Trusts numpy, pandas, Hypothesis and the oracle in /verif/pbt."
                ),
            }
            for p in PROPS
            if p[0] in have
        ],
        "not_applicable": [
            {"property": p[0], "reason": "check not written yet"} for p in PROPS if p[0] not in have
        ],
        "notes": "Pure Python: checks import /repo/src directly, nothing is built. No hooks in /repo.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fout:
        json.dump(manifest, fout, indent=1)
        fout.write("\n")


if __name__ == "__main__":
    main()
