From 9be168edc85c60625674b95bcad432b55c468b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 01/38] fix: average volcanic forcing over hemispheres in
 two-layer model

With array input the northern and southern series were summed, so the
model saw twice the volcanic forcing that is reported.
---
 src/ciceroscm/thermal_model/two_layer_ocean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/thermal_model/two_layer_ocean.py b/src/ciceroscm/thermal_model/two_layer_ocean.py
index 683d1ce..740c0c7 100644
--- a/src/ciceroscm/thermal_model/two_layer_ocean.py
+++ b/src/ciceroscm/thermal_model/two_layer_ocean.py
@@ -144,7 +144,7 @@ class TwoLayerOceanModel(
               hemisphere-specific)
             - OHCTOT/OHC_MIXED/OHC_DEEP/OHC700: Ocean heat content diagnostics
         """
-        forc = (forc_nh + forc_sh) / 2 + np.mean(fn_volc + fs_volc)
+        forc = (forc_nh + forc_sh) / 2 + (np.mean(fn_volc) + np.mean(fs_volc)) / 2
 
         # Fast layer temperature change
         dtemp_fast = (
-- 
2.43.0


From 733b1e6ea6bf50ba09cfc1f309cc709680010053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 02/38] fix: total forcing of hemispherically split and
 prepared forcing files

The mean was taken over years instead of hemispheres (giving NaN), a
w_aero column was added to the forcing, and a file with only a total
column had no hemispheric forcing.
---
 src/ciceroscm/input_handler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 40cbc3d..4c22354 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -174,11 +174,14 @@ def read_forc(forc_file):
         df_forc = pd.read_csv(forc_file, index_col=0)
         if "total" not in df_forc.columns:
             if "FORC_NH" in df_forc.columns and "FORC_SH" in df_forc.columns:
-                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean()
+                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean(axis=1)
             else:
-                df_forc["total"] = df_forc[list(df_forc)].sum(axis=1)
-                df_forc["FORC_NH"] = df_forc["total"]
-                df_forc["FORC_SH"] = df_forc["total"]
+                df_forc["total"] = df_forc.drop(columns="w_aero", errors="ignore").sum(
+                    axis=1
+                )
+        for hemisphere in ("FORC_NH", "FORC_SH"):
+            if hemisphere not in df_forc.columns:
+                df_forc[hemisphere] = df_forc["total"]
 
         # Pattern-mediated feedback precomputation: when the
         # forcing file carries per-agent columns matching AEROSOL_TRACERS
-- 
2.43.0


From 8b8dcf94d2d687d3c1cabc34151814380182e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 03/38] fix: pass rs_function and rb_function of the instance
 configuration on

They were put in the concentrations-emissions parameter set, where they
were cut as unused, and never reached the carbon cycle.
---
 src/ciceroscm/ciceroscm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f0c6a9b..fa4b74d 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -121,11 +121,12 @@ class CICEROSCM:
             pamset_emiconc["nyend"] = self.cfg["nyend"]
             pamset_emiconc["idtm"] = self.cfg["idtm"]
 
+            pamset_carbon = {}
             for key, value in cfg.items():
                 if key in ["rs_function", "rb_function"]:
-                    pamset_emiconc[key] = value
+                    pamset_carbon[key] = value
             self.ce_handler = ConcentrationsEmissionsHandler(
-                input_handler, pamset_emiconc
+                input_handler, pamset_emiconc, pamset_carbon
             )
             self.feedback_list = self.ce_handler.get_feedback_list()
         self.results = {}
-- 
2.43.0


From 6e5129f675be1599dc88a29d2e95f452ebe1c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 04/38] fix: just_one for all forcing components, and for the
 given run only

Components with precalculated forcing raised a KeyError, and just_one
stayed in force for later runs with the same instance.
---
 src/ciceroscm/concentrations_emissions_handler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index dbf05f9..7ed2fe2 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -109,7 +109,7 @@ def check_pamset_consistency(pamset_old, pamset_new):
             )
             pamset_new[pam] = pamset_old[pam]
     for pam, value in pamset_old.items():
-        if pam not in pamset_new:
+        if pam not in pamset_new and pam != "just_one":
             pamset_new[pam] = value
     return pamset_new
 
@@ -704,7 +704,10 @@ class ConcentrationsEmissionsHandler:
         # Adding solar forcing
         # tot_forc = tot_forc + rf_sun
         if "just_one" in self.pamset:
-            tot_forc = self.forc[self.pamset["just_one"]][yr - yr_0]
+            if self.pamset["just_one"] in self.forc:
+                tot_forc = self.forc[self.pamset["just_one"]][yr - yr_0]
+            else:
+                tot_forc = self.precalc_dict["precalc_erf"][self.pamset["just_one"]][yr]
             forc_nh, forc_sh = calculate_hemispheric_forcing(
                 self.pamset["just_one"], tot_forc, 0, 0
             )
-- 
2.43.0


From 378b9266ec005fa5ff001ae2cdfaff1ff7da7d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 05/38] fix: leave the user's gaspam and emissions tables
 unchanged

Emission perturbations were added to the table sent by the user, and so
added once more for every new instance using that table.
---
 src/ciceroscm/concentrations_emissions_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 7ed2fe2..f476d10 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -182,7 +182,7 @@ class ConcentrationsEmissionsHandler:
         pamset : dict
            list of physical parameters to define the run
         """
-        self.df_gas = input_handler.get_data("gaspam")
+        self.df_gas = input_handler.get_data("gaspam").copy()
         self.conc = {}
         self.forc = {}
         self.nat_emis_ch4 = input_handler.get_data("nat_ch4")
@@ -190,7 +190,7 @@ class ConcentrationsEmissionsHandler:
         self.pamset = check_pamset(pamset)
         self.years = np.arange(self.pamset["nystart"], self.pamset["nyend"] + 1)
         self.conc_in = input_handler.get_data("concentrations")
-        self.emis = input_handler.get_data("emissions")
+        self.emis = input_handler.get_data("emissions").copy()
         self.pamset["conc_run"] = input_handler.conc_run()
         if input_handler.optional_pam("perturb_em"):
             perturb_emissions(input_handler, self.emis)
-- 
2.43.0


From 3c766e56c046e5f8ba692bed528920fe2e2a9494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 06/38] fix: concentrations of simple gases when emissions
 start with the run

With emstart not after nystart the slices of the input were wrong.
---
 src/ciceroscm/concentrations_emissions_handler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index f476d10..626e009 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -287,15 +287,17 @@ class ConcentrationsEmissionsHandler:
                 + 1
             ]
 
+        emstart = max(self.pamset["emstart"], self.pamset["nystart"])
+        conc_start = conc_in_vanilla.loc[max(emstart - 1, self.pamset["nystart"])]
         conc_in_vanilla = conc_in_vanilla.iloc[
             self.pamset["nystart"]
-            - conc_in_vanilla.index[0] : self.pamset["emstart"]
+            - conc_in_vanilla.index[0] : emstart
             - conc_in_vanilla.index[0]
         ]
 
         emis_vanilla = self.emis.copy()[df_gases_vanilla.index]
         emis_vanilla = emis_vanilla.iloc[
-            self.pamset["emstart"]
+            emstart
             - emis_vanilla.index[0] : self.pamset["nyend"]
             - emis_vanilla.index[0]
             + 1
@@ -306,7 +308,7 @@ class ConcentrationsEmissionsHandler:
         for i in range(emis.shape[0]):
             emis_now = emis[i, :]
             if i == 0:
-                conc_prev = conc_in_vanilla.iloc[-1, :].to_numpy()
+                conc_prev = conc_start.to_numpy()
             else:
                 conc_prev = conc_rows[-1]
             conc = emis_now / df_gases_vanilla["BETA"].to_numpy() / q * (
-- 
2.43.0


From 24002f7890a2a0e79689f5446ba264507c11f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 07/38] fix: do not keep results of an earlier run in the
 results of a new one

---
 src/ciceroscm/ciceroscm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index fa4b74d..f6e7e88 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -148,6 +148,7 @@ class CICEROSCM:
         Dictionary for all results from upwelling diffusion
         model outputs is initialised with empty arrays
         """
+        self.results = {}
         output_variables = (
             list(self.thermal_model_class.get_output_dict_thermal().keys())
             + FORC_OUTPUT_LIST
-- 
2.43.0


From a7e781a7403dd49c9a7c8ef8883d22c92861387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 08/38] fix: respect carbon_cycle_outputs set to False

---
 src/ciceroscm/concentrations_emissions_handler.py      | 4 ++--
 src/ciceroscm/formattingtools/reformat_cscm_results.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 626e009..3506dd1 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -953,7 +953,7 @@ class ConcentrationsEmissionsHandler:
                 "conc", results_dict["concentrations"], outdir, self.df_gas["CONC_UNIT"]
             )
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs", False):
             # Adding carbon cycle outputs here
             # Typically back_calculated emissions for conc_run
             # Airborne fraction
@@ -1026,7 +1026,7 @@ class ConcentrationsEmissionsHandler:
         results["concentrations"] = df_conc
         results["forcing"] = df_forc
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs", False):
             results["carbon cycle"] = self.get_carbon_cycle_data(
                 feedback_dict_series=feedback_dict_series
             )
diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 6760bd8..dd3b9d3 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -218,7 +218,7 @@ def get_data_from_em(results, variable):
     df_temp = results["emissions"]
     years = df_temp.Year[:]
     # If concentrations run, CO2 emissions should be taken from carbon cycle back calculation
-    if "Emissions" in results["carbon cycle"].keys() and variable == "CO2":
+    if variable == "CO2" and "Emissions" in results.get("carbon cycle", {}):
         timeseries = results["carbon cycle"][
             "Emissions"
         ].to_numpy()  # pylint:disable=unsubscriptable-object
-- 
2.43.0


From d3068987dcc5620b28b7ea1be8e3954149983a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 09/38] fix: use rf_volc_file and rf_volc_data, ignore files
 without sunvolc

The hemispherically symmetric volcanic input was dropped, and solar and
volcanic files were used even if sunvolc was not 1.
---
 src/ciceroscm/input_handler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 4c22354..d104ba5 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -278,7 +278,7 @@ class InputHandler:
             "conc_run": False,
             "idtm": 24,
         }
-        for key in self.read_methods:
+        for key in [*self.read_methods, "rf_volc"]:
             used[f"{key}_file"] = 0
             used[f"{key}_data"] = 0
         self.cfg = cut_and_check_pamset(
@@ -428,6 +428,8 @@ class InputHandler:
                 self.cfg["rf_volc_n_file"] = self.cfg["rf_volc_file"]
                 self.cfg["rf_volc_s_file"] = self.cfg["rf_volc_file"]
             elif "rf_volc_data" in self.cfg:
+                self.cfg.pop("rf_volc_n_file", None)
+                self.cfg.pop("rf_volc_s_file", None)
                 self.cfg["rf_volc_n_data"] = self.cfg["rf_volc_data"]
                 self.cfg["rf_volc_s_data"] = self.cfg["rf_volc_data"]
         else:
@@ -438,6 +440,8 @@ class InputHandler:
                 columns=range(12),
             )
             self.cfg["rf_volc_s_data"] = self.cfg["rf_volc_n_data"]
+            for key in ["rf_volc", "rf_volc_n", "rf_volc_s", "rf_sun"]:
+                self.cfg.pop(f"{key}_file", None)
             self.cfg["rf_sun_data"] = pd.DataFrame(
                 data=np.zeros(self.cfg["nyend"] - self.cfg["nystart"] + 1),
                 index=indices,
-- 
2.43.0


From fe1b4d6cfe8d83597b2a1800dec45c29f716baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 10/38] fix: file output for thermal models without hemispheric
 results

---
 src/ciceroscm/ciceroscm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f6e7e88..d12bc60 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -368,7 +368,8 @@ class CICEROSCM:
         list_rib = ["RIB_glob", "RIB_N", "RIB_S"]
         df_rib = pd.DataFrame(data={"Year": indices})
         for vari in list_rib:
-            df_rib[vari] = self.results[vari]
+            if vari in self.results:
+                df_rib[vari] = self.results[vari]
         list_temp = [
             "dT_glob",
             "dT_NH",
@@ -386,7 +387,8 @@ class CICEROSCM:
         else:
             filename_start = "output"
         for vari in list_temp:
-            df_temp[vari] = self.results[vari]
+            if vari in self.results:
+                df_temp[vari] = self.results[vari]
 
         df_ohc.to_csv(
             os.path.join(outdir, f"{filename_start}_ohc.txt"),
-- 
2.43.0


From 40fd5540c09f210ac674c03a443ac0dbd5bf1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 11/38] fix: emission results when emissions_data starts before
 the run

---
 src/ciceroscm/concentrations_emissions_handler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 3506dd1..7f51a67 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -1000,9 +1000,7 @@ class ConcentrationsEmissionsHandler:
         cols = cols[-1:] + cols[:-1]
         df_forc = df_forc[cols]
         df_forc.rename(columns={"SO2": "SO4_DIR"}, inplace=True)
-        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).drop(
-            labels=np.arange(self.years[-1] + 1, self.emis.index[-1] + 1), axis=0
-        )
+        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).loc[self.years]
         df_emis["Year"] = self.years
         df_emis["CO2"] = self.emis["CO2_FF"] + self.emis["CO2_AFOLU"]
         cols = df_emis.columns.tolist()
-- 
2.43.0


From 2fc37767b212205158af54cdbba8b3d3daad7c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 12/38] fix: add all forcing perturbations of precalculated
 gases

Repeated rows for a year were not added up, and years outside of the run
raised a KeyError.
---
 src/ciceroscm/perturbations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/perturbations.py b/src/ciceroscm/perturbations.py
index e8bf566..3365af3 100644
--- a/src/ciceroscm/perturbations.py
+++ b/src/ciceroscm/perturbations.py
@@ -221,8 +221,7 @@ class ForcingPerturbation:
             return
         for gas in precalc_pert_gases:
             perturb_here = self.perturb_raw[self.perturb_raw.component == gas]
-            precalc_erf.loc[perturb_here.year.values, gas] = (
-                precalc_erf.loc[perturb_here.year.values, gas].values
-                + perturb_here.forcing.values
-            )
+            for row in perturb_here.itertuples(index=True, name="Pandas"):
+                if row.year in precalc_erf.index:
+                    precalc_erf.loc[row.year, gas] += row.forcing
         return
-- 
2.43.0


From cdd356023eb42d76cff1b45b7ed3cb15591e54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 13/38] fix: keep the order of the configurations in serial
 runs

---
 src/ciceroscm/parallel/_parallel_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_parallel_process.py b/src/ciceroscm/parallel/_parallel_process.py
index be9a4f7..3a1ddf8 100644
--- a/src/ciceroscm/parallel/_parallel_process.py
+++ b/src/ciceroscm/parallel/_parallel_process.py
@@ -165,7 +165,7 @@ def _parallel_process(  # pylint:disable=too-many-arguments,too-many-positional-
             desc="Serial runs",
         )
 
-        return rest + front_serial_res
+        return front_serial_res + rest
 
     front_parallel_res = []
     if front_parallel > 0:
-- 
2.43.0


From c5f52b8e88493761f98270a2a2b5cd8f0bb221df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 14/38] fix: set values of carbon decay parameters belong to
 the carbon cycle

---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index fb91c0d..b6919b4 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -200,7 +200,9 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET:
+            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
+                ("rb_", "rs_")
+            ):
                 self.pamset_carbon_start[pam] = value
             else:
                 self.pamset_emiconc_start[pam] = value
-- 
2.43.0


From f60526ee3e8b0c5af7a32632869f63d66185b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 15/38] fix: keep existing meta_info when writing
 configurations

---
 src/ciceroscm/parallel/distributionrun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/distributionrun.py b/src/ciceroscm/parallel/distributionrun.py
index 0cdb749..79c7aa3 100644
--- a/src/ciceroscm/parallel/distributionrun.py
+++ b/src/ciceroscm/parallel/distributionrun.py
@@ -89,7 +89,9 @@ class DistributionRun:
         meta_info: dict, optional
             dictionary with meta optional information to add to the json file
         """
-        if meta_info is None and self.meta_info is None:
+        if meta_info is None:
+            meta_info = self.meta_info
+        if meta_info is None:
             with open(json_file_name, "w", encoding="utf-8") as wfile:
                 json.dump(self.cfgs, wfile)
         else:
-- 
2.43.0


From b9905f7fba11f6a2f794933627775ec50925489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 16/38] fix: accept numpy numbers as numeric parameter values

Values such as np.int64 or np.float32 were replaced by the defaults.
---
 src/ciceroscm/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/_utils.py b/src/ciceroscm/_utils.py
index 36080a6..285d2ca 100644
--- a/src/ciceroscm/_utils.py
+++ b/src/ciceroscm/_utils.py
@@ -3,6 +3,7 @@ Class for common utility functions
 """
 
 import logging
+from numbers import Real
 
 LOGGER = logging.getLogger(__name__)
 
@@ -35,7 +36,7 @@ def check_numeric_pamset(required, pamset):
                 f"Parameter {pam} not in pamset. Using default value {value}",
             )
             pamset[pam] = value
-        elif not isinstance(pamset[pam], int) and not isinstance(pamset[pam], float):
+        elif not isinstance(pamset[pam], Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {pam} must be a number. Using default value {value}",
             )
@@ -142,7 +143,7 @@ def update_pam_if_numeric(pamset_old, pamset_new, can_change):
                 f"{key} is not a valid parameter to update this version of the Carbon cycle",
             )
             continue
-        if not isinstance(value, int) and not isinstance(value, float):
+        if not isinstance(value, Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {key} must be a number. {value} will be ignored",
             )
-- 
2.43.0


From 55e1cdaec6462ceb559eb0764365a08f36b7e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 17/38] fix: run each configuration of a list independently of
 the others

Carbon cycle parameters stay in place for later runs of an instance, so
results depended on how configurations were split between workers.
---
 src/ciceroscm/parallel/cscmparwrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ciceroscm/parallel/cscmparwrapper.py b/src/ciceroscm/parallel/cscmparwrapper.py
index f7a6073..d28ddda 100644
--- a/src/ciceroscm/parallel/cscmparwrapper.py
+++ b/src/ciceroscm/parallel/cscmparwrapper.py
@@ -2,6 +2,7 @@
 Module for running CICEROSCM in parallel
 """
 
+import copy
 import logging
 from concurrent.futures import ProcessPoolExecutor
 from itertools import product
@@ -187,7 +188,10 @@ class CSCMParWrapper:  # pylint: disable=too-few-public-methods
             over the run timeseries
         """
         runs = []
+        cscm_start = copy.deepcopy(self.cscm)
         for pamset in cfgs:
+            # Start afresh, to not keep carbon cycle parameters from other cfgs
+            self.cscm = copy.deepcopy(cscm_start)
             self.cscm._run(  # pylint: disable=protected-access
                 {"results_as_dict": True, "carbon_cycle_outputs": carbon_cycle_outputs},
                 pamset_udm=pamset.get("pamset_udm", None),
-- 
2.43.0


From 324f98e8aabf1b2b89ed833bd2cf0b849c04b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 18/38] fix: include all aerosols in the aerosol forcing sums

The components were found by variable names no longer in use, so only
the direct sulphate forcing was included.
---
 .../formattingtools/reformat_cscm_results.py        | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index dd3b9d3..b3c769a 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -44,7 +44,10 @@ openscm_to_cscm_dict = {
     "Atmospheric Concentrations|N2O": "N2O",
     "Atmospheric Concentrations|Ozone|Tropospheric'": "TROP_O3",
 }
-forc_sums = ["Aerosols", "Aerosols|Direct Effect"]
+forc_sums = {
+    "Aerosols": ["BC", "OC", "SO4_DIR", "SO4_IND"],
+    "Aerosols|Direct Effect": ["BC", "OC", "SO4_DIR"],
+}
 fgas_list = [
     "HFC125",
     "HFC134a",
@@ -167,7 +170,7 @@ carbon_cycle_outputs = {
 
 def get_data_from_forc_common(
     df_temp, variable, v_dict, volc=0, sun=0
-):  # pylint:disable=too-many-branches
+):  # pylint:disable=too-many-branches, unused-argument
     """
     Get or calculate forcing when dataframe with forcers
     variable and variable dictionary
@@ -177,9 +180,9 @@ def get_data_from_forc_common(
     years = df_temp.Year[:]
     if variable in forc_sums:
         timeseries = np.zeros(len(years))
-        for comp, value in v_dict.items():
-            if variable in comp and value not in forc_sums:
-                timeseries = timeseries + df_temp[value].to_numpy()
+        for comp in forc_sums[variable]:
+            if comp in df_temp.columns:
+                timeseries = timeseries + df_temp[comp].to_numpy()
     elif variable in ("Fgas", "GHG"):
         timeseries = np.zeros(len(years))
         for comp in fgas_list:
-- 
2.43.0


From 0405d92b84d219cbb851a57b46d907cb65898387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 19/38] fix: leave out variables that the thermal model does
 not have

Asking for them raised a KeyError.
---
 src/ciceroscm/formattingtools/reformat_cscm_results.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index b3c769a..e1108b4 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -336,6 +336,7 @@ class CSCMREADER:
         elif (
             variable in self.variable_dict
             and self.variable_dict[variable] in self.temp_list
+            and self.variable_dict[variable] in results
         ):
             timeseries = get_data_from_temp_or_rib(
                 results, self.variable_dict[variable]
-- 
2.43.0


From 7abf6c532c4260528ea3fc367effe7c0f9809a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 20/38] fix: same emission units for gaspam data as for a
 gaspam file

---
 .../reformat_inputdata_to_cscm_format.py      | 55 ++++++++-----------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py b/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
index ad24ddd..4454718 100644
--- a/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
+++ b/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
@@ -54,6 +54,25 @@ cicero_comp_dict = {
 # Halon1212, CH3Cl
 
 
+def get_emission_unit(component, unit):
+    """
+    Get the output unit for emissions of component from gaspam unit
+    """
+    if component == "N2O" and unit == "Tg_N":
+        # in openscm-units, to get the mass of nitrogen, have
+        # to use the unit "Tg N2ON" (converting to "Tg N" just
+        # converts using the mass fraction of a single nitrogen
+        # atom, admittedly this isn't immediately obvious and
+        # arguably is a bug in openscm-units)
+        unit = "TgN2ON"
+    elif "_" in unit:
+        unit = unit.replace("_", "")
+    else:
+        comp_str = component.replace("-", "").replace("BMB_AEROS_", "")
+        unit = f"{unit}{comp_str}"
+    return f"{unit} / yr"
+
+
 class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
     """
     Class to write scenariofiles:
@@ -87,23 +106,8 @@ class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
                 component = row[0]
                 unit = row[1]
 
-                if component == "N2O" and unit == "Tg_N":
-                    # in openscm-units, to get the mass of nitrogen, have
-                    # to use the unit "Tg N2ON" (converting to "Tg N" just
-                    # converts using the mass fraction of a single nitrogen
-                    # atom, admittedly this isn't immediately obvious and
-                    # arguably is a bug in openscm-units)
-                    unit = "TgN2ON"
-                elif "_" in unit:
-                    unit = unit.replace("_", "")
-                else:
-                    comp_str = component.replace("-", "").replace("BMB_AEROS_", "")
-                    unit = f"{unit}{comp_str}"
-
-                unit = f"{unit} / yr"
-
                 self.components.append(component)
-                self.units.append(unit)
+                self.units.append(get_emission_unit(component, unit))
                 self.concunits.append(row[2])
 
         self.components.insert(1, "CO2_lu")
@@ -114,22 +118,11 @@ class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
         """
         Intialize units and compontets if pandas of gasfile is sent deal with units
         """
-        gasdata_mod = gasfile.copy()
-        # Might cause problems later, hopefully not
-        gasdata_mod.replace("Tg_N", "TgN2ON", inplace=True)
-        gasdata_mod["CONC_UNIT"] = gasdata_mod["CONC_UNIT"].replace("_", "")
-        # Not very robuste...:
-        gasdata_mod.loc["BMB_AEROS_OC", "EM_UNIT"] = gasdata_mod["EM_UNIT"][
-            "BMB_AEROS_OC"
-        ].replace("Tg", "TgOC")
-        gasdata_mod.loc["BMB_AEROS_BC", "EM_UNIT"] = gasdata_mod["EM_UNIT"][
-            "BMB_AEROS_BC"
-        ].replace("Tg", "TgBC")
-        self.components = gasdata_mod.index.values.tolist()
-        units = gasdata_mod["EM_UNIT"].values.tolist()
-        self.concunits = gasdata_mod["CONC_UNIT"].values.tolist()
+        for component, row in gasfile.iterrows():
+            self.components.append(component)
+            self.units.append(get_emission_unit(component, row["EM_UNIT"]))
+            self.concunits.append(row["CONC_UNIT"])
 
-        self.units = [f"{unit} / yr" for unit in units]
         self.components.insert(1, "CO2_lu")
         self.units.insert(1, "PgC / yr")
         self.concunits.insert(1, "ppm")
-- 
2.43.0


From 7eec78b1e6bba1df09dc7633c84431f34d7e2eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:11 +0000
Subject: [PATCH 21/38] fix: simple gases computed from emissions when
 emissions start in the final year

Concentrations are prescribed before the emissions start year and
computed from emissions from that year on, but for all gases except CO2,
CH4 and N2O the prescribed concentration was also used for the start year
itself if it was the final year of the run.
---
 src/ciceroscm/concentrations_emissions_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 7f51a67..5bce831 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -279,7 +279,7 @@ class ConcentrationsEmissionsHandler:
 
     def _precalculate_concentrations_vanilla_gases(self, df_gases_vanilla):
         conc_in_vanilla = self.conc_in.copy()[df_gases_vanilla.index]
-        if self.pamset["conc_run"] or self.pamset["nyend"] <= self.pamset["emstart"]:
+        if self.pamset["conc_run"] or self.pamset["nyend"] < self.pamset["emstart"]:
             return conc_in_vanilla.iloc[
                 self.pamset["nystart"]
                 - conc_in_vanilla.index[0] : self.pamset["nyend"]
-- 
2.43.0


From bc27904d4ddf9cb5d4ac01d7fbd4f7445a6eeb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:11 +0000
Subject: [PATCH 22/38] fix: chlorine count of isomers with more than one
 letter, such as HCFC-225ca

---
 src/ciceroscm/pub_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index 23248a0..debdfda 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -5,6 +5,7 @@ Presently mainly methods to make decay functions from arrays
 """
 
 import logging
+import string
 
 import numpy as np
 
@@ -117,11 +118,8 @@ def find_num_cl_in_hcfc(tracer):
     int
        Number of chlorine atoms in the compound
     """
-    numpart = tracer.split("-")[-1]
-    if not numpart[-1].isdigit():
-        numpart = int(numpart[:-1])
-    else:
-        numpart = int(numpart)
+    # Isomers have one or more letters after the number
+    numpart = int(tracer.split("-")[-1].rstrip(string.ascii_letters))
     double_bonds = numpart // 1000
     bonds_total = ((numpart % 1000) // 100) * 2 + 4
     hydrogen = (numpart % 100) // 10 - 1
-- 
2.43.0


From a752af9226444420cb3a1213b09d92d19667bab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:08 +0000
Subject: [PATCH 23/38] fix: distributed ocean fraction, ebbeta, deep and k go
 to the thermal parameter set

---
 src/ciceroscm/parallel/_configdistro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index b6919b4..b71fb0c 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -83,6 +83,11 @@ ordering_standard_forc = [
     "threstemp",
     "lm",
     "ldtime",
+    "foan",
+    "foas",
+    "ebbeta",
+    "deep",
+    "k",
 ]
 """list: Containing a default ordering of parameters for forcing run"""
 
-- 
2.43.0


From 8af9f7f02f82671f438486a3da287e7e623de886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:08 +0000
Subject: [PATCH 24/38] fix: time scales of zero are rejected in decay
 functions

---
 src/ciceroscm/pub_utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index debdfda..322deee 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -69,7 +69,7 @@ def _check_array_consistency(coeffs, timescales, for_rs=False):
     TypeError
         If coeffs or timescales are not arrays
     ValueError
-        If any of the timescales are negative or
+        If any of the timescales are negative or zero or
         if length of timescales and coeffs don't match
     """
     try:
@@ -90,10 +90,7 @@ def _check_array_consistency(coeffs, timescales, for_rs=False):
         raise ValueError(
             "Coefficient array length must be equal to exponent array length"
         )
-    if np.any(timescales < 0):
-        LOGGER.error("All timescales must be positive numbers")
-        raise ValueError("All timescales must be positive numbers")
-    if np.any(timescales < 0):
+    if np.any(timescales <= 0):
         LOGGER.error("All timescales must be positive numbers")
         raise ValueError("All timescales must be positive numbers")
     if np.any(coeffs < 0):
-- 
2.43.0


From 78e355a02c129c0467eb53e2867d70c60852b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:04 +0000
Subject: [PATCH 25/38] fix: back-calculated emissions are found outside the
 first guess interval

---
 .../carbon_cycle/carbon_cycle_abstract.py     | 43 +++++++++++--------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
index a75f473..2f5ea25 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
@@ -198,30 +198,35 @@ class AbstractCarbonCycleModel(ABC):
             from the conc_co2_zero to conc_co2_now which
 
         """
-        max_guess = initial_max_min_guess[0]
-        min_guess = initial_max_min_guess[1]
-        guess = np.mean((min_guess, max_guess))
+        span = initial_max_min_guess[0] - initial_max_min_guess[1]
         hold_dict = self._get_co2_hold_values()
-        estimated_conc = self.co2em2conc(
-            self.pamset["nystart"] + yrix, guess, feedback_dict=feedback_dict
-        )
-        iteration = 0
-        while (
-            iteration < maxit
-            and np.abs(co2_conc_now - estimated_conc) / co2_conc_now > rtol
-        ):
-            if estimated_conc > co2_conc_now:
-                max_guess = guess
-                guess = (guess + min_guess) / 2
-
-            else:
-                min_guess = guess
-                guess = (guess + max_guess) / 2
+        # Starting over from a wider interval if the first one did not hold the solution
+        for widening in range(6):
+            max_guess = initial_max_min_guess[0] + (4**widening - 1) * span
+            min_guess = initial_max_min_guess[1] - (4**widening - 1) * span
+            guess = np.mean((min_guess, max_guess))
             self._set_co2_hold(hold_dict)
             estimated_conc = self.co2em2conc(
                 self.pamset["nystart"] + yrix, guess, feedback_dict=feedback_dict
             )
-            iteration = iteration + 1
+            iteration = 0
+            while iteration < maxit and not (
+                np.abs(co2_conc_now - estimated_conc) / co2_conc_now <= rtol
+            ):
+                if estimated_conc > co2_conc_now:
+                    max_guess = guess
+                    guess = (guess + min_guess) / 2
+
+                else:
+                    min_guess = guess
+                    guess = (guess + max_guess) / 2
+                self._set_co2_hold(hold_dict)
+                estimated_conc = self.co2em2conc(
+                    self.pamset["nystart"] + yrix, guess, feedback_dict=feedback_dict
+                )
+                iteration = iteration + 1
+            if np.abs(co2_conc_now - estimated_conc) / co2_conc_now <= rtol:
+                break
         return guess
 
     def get_initial_max_min_guess(
-- 
2.43.0


From 9b1f2791d596903d8517888b9ad3a59a1841ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:35 +0000
Subject: [PATCH 26/38] fix: forcing files with a single year are read as a
 series

---
 src/ciceroscm/input_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index d104ba5..17b0e3f 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -168,7 +168,7 @@ def read_forc(forc_file):
         if first_line[:4].lower() == "year":
             components = True
     if not components:
-        df_forc = np.loadtxt(forc_file)
+        df_forc = np.loadtxt(forc_file, ndmin=1)
     else:
         # Decide on formatting for this
         df_forc = pd.read_csv(forc_file, index_col=0)
-- 
2.43.0


From 0efef73e3cd4feb3457fe0caef23a68b3835d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:46 +0000
Subject: [PATCH 27/38] fix: two-layer heat capacities do not overflow for
 small integer types

---
 src/ciceroscm/thermal_model/two_layer_ocean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/thermal_model/two_layer_ocean.py b/src/ciceroscm/thermal_model/two_layer_ocean.py
index 740c0c7..0d6bb75 100644
--- a/src/ciceroscm/thermal_model/two_layer_ocean.py
+++ b/src/ciceroscm/thermal_model/two_layer_ocean.py
@@ -72,13 +72,13 @@ class TwoLayerOceanModel(
         # Heat capacity per unit area (J/m^2/K) = depth(m) * density(kg/m^3) *
         # specific_heat(J/kg/K) / time_conversion
         self.pamset["c_fast"] = (
-            self.pamset["mixed"]
+            float(self.pamset["mixed"])
             * WATER_DENSITY
             * WATER_HEAT_CAPACITY
             / (SEC_DAY * DAY_YEAR)
         )
         self.pamset["c_slow"] = (
-            self.pamset["deep"]
+            float(self.pamset["deep"])
             * WATER_DENSITY
             * WATER_HEAT_CAPACITY
             / (SEC_DAY * DAY_YEAR)
-- 
2.43.0


From 3d293d33b4b5efe0063212fd1f1a569640075515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:42 +0000
Subject: [PATCH 28/38] fix: a concentrations table without a gas is refused
 instead of read as zero

---
 src/ciceroscm/concentrations_emissions_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 5bce831..dd5e92b 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -872,7 +872,7 @@ class ConcentrationsEmissionsHandler:
         for tracer, value_dict in self.conc.items():
             if avoid and tracer in avoid:
                 continue
-            if tracer in self.conc_in:
+            if tracer in self.conc_in or self.df_gas["CONC_UNIT"][tracer] != "-":
                 value_dict[yr] = self.conc_in[tracer][yr]
             else:
                 value_dict[yr] = 0
-- 
2.43.0


From ae737ab249b69c4aea299a4805e8f4e5a6d05906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:08 +0000
Subject: [PATCH 29/38] fix: units are checked also when the emissions file
 lacks a species

---
 src/ciceroscm/input_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 17b0e3f..6558185 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -342,11 +342,11 @@ class InputHandler:
                     LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                         f"Missing species {set(df_gas.index) - set(em_header.columns)}"
                     )
-                    return
-                em_header_check = em_header[df_gas.index]
+                em_species = [gas for gas in df_gas.index if gas in em_header.columns]
+                em_header_check = em_header[em_species]
                 if (
                     em_header_check.loc["Unit", :].to_list()
-                    != df_gas["EM_UNIT"].to_list()
+                    != df_gas.loc[em_species, "EM_UNIT"].to_list()
                 ):
                     raise ValueError(
                         f"Emissions file {self.cfg['emissions_file']} has incompatible units to that of the chosen gaspam file \n Please use compatible emissions"
-- 
2.43.0


From 0813297ee95c2ab3a7d9ffcf9d577aa810d35eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:31 +0000
Subject: [PATCH 30/38] fix: invalid response functions are refused before the
 carbon cycle is changed

---
 src/ciceroscm/carbon_cycle/carbon_cycle_mod.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
index f95ad8f..e59dab0 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
@@ -203,6 +203,14 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
             needs_rfunction_recompute = (
                 "rs_function" in pamset_carbon or "rb_function" in pamset_carbon
             )
+            # Refuse invalid functions before anything is changed
+            for key in ["rs_function", "rb_function"]:
+                if key in pamset_carbon:
+                    _check_array_consistency(
+                        pamset_carbon[key]["coeffs"],
+                        pamset_carbon[key]["timescales"],
+                        for_rs=key == "rs_function",
+                    )
 
             self.pamset = update_pam_if_numeric(
                 self.pamset,
-- 
2.43.0


From 27fd1c9e6adf50161e8bd8350a44ee0ac9e050ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:38 +0000
Subject: [PATCH 31/38] fix: plots of forcing showed the years as a component
 and left the last component out

---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 00ad9a6..4275e38 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -170,7 +170,7 @@ def plot_output2(
             labels=["NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"], axis=1
         )
     years = df_in["Year"]
-    comps = df_in.columns[1:]
+    comps = df_in.columns.drop("Year")
     for c, comp in enumerate(comps):
         if c in [0, 16, 32]:
             maxrows = 4
-- 
2.43.0


From cc2b503c34b55b56e7c6660fa2311555970b6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:39 +0000
Subject: [PATCH 32/38] fix: plots of runs with the two-layer model failed, as
 it has no hemispheric results

---
 src/ciceroscm/make_plots.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 4275e38..acf687c 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -77,8 +77,10 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(12, 6))
     axs[0].plot(indices, results["RIB_glob"], label="RIB_glob")
     axs[1].plot(indices, results["RIB_glob"], label="RIB_glob")
-    axs[1].plot(indices, results["RIB_N"], label="RIB_N", linestyle=":")
-    axs[1].plot(indices, results["RIB_S"], label="RIB_S", linestyle="--")
+    for comp, linestyle in (("RIB_N", ":"), ("RIB_S", "--")):
+        # Not all thermal models have hemispheric results
+        if comp in results:
+            axs[1].plot(indices, results[comp], label=comp, linestyle=linestyle)
     fix_plot(
         axs,
         [r"W $\mathrm{m}^{-2}$", r"W $\mathrm{m}^{-2}$"],
@@ -90,6 +92,8 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(14, 6))
 
     for comp in ["dT_glob", "dT_glob_air", "dT_glob_sea"]:
+        if comp not in results:
+            continue
         colours = {"glob": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
         axs[0].plot(
             indices,
@@ -105,6 +109,8 @@ def plot_output1(pamset, results, nystart, nyend):
         "dT_SH_air",
         "dT_SHsea",
     ]:
+        if comp not in results:
+            continue
         if "NH" in comp:
             colours = {"NH": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
             axs[1].plot(
-- 
2.43.0


From 389b18f2d6d66fc2cd6fecfd21ab74de1ef68766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:23 +0000
Subject: [PATCH 33/38] fix: plots failed for gas tables that leave one row of
 panels in the third figure

---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index acf687c..b5888d2 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -183,7 +183,7 @@ def plot_output2(
             if c == 32:
                 maxrows = int(np.ceil((len(comps) - 32) / 4))
             fig, axs = plt.subplots(
-                nrows=maxrows, ncols=4, sharex=True, figsize=(15, 10)
+                nrows=maxrows, ncols=4, sharex=True, figsize=(15, 10), squeeze=False
             )
             if var == "forc":
                 title = (
-- 
2.43.0


From e74f2f07cbbe505673b68cee26623fcf1d0dfc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:09 +0000
Subject: [PATCH 34/38] fix: southern volcanic forcing with another number of
 values a year than northern was misread in the upwelling-diffusion model

---
 src/ciceroscm/thermal_model/upwelling_diffusion_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/thermal_model/upwelling_diffusion_model.py b/src/ciceroscm/thermal_model/upwelling_diffusion_model.py
index cfc1dad..6f07237 100644
--- a/src/ciceroscm/thermal_model/upwelling_diffusion_model.py
+++ b/src/ciceroscm/thermal_model/upwelling_diffusion_model.py
@@ -509,19 +509,18 @@ class UpwellingDiffusionModel(
         dn = np.zeros(lm)
         ds = np.zeros(lm)
         for im in range(self.pamset["ldtime"]):
-            volc_idx = im % len(fn_volc)
             if self.pamset["threstemp"] != 0:  # pylint: disable=compare-to-zero
                 self.setup_ebud2(temp1n, temp1s)
 
             dqn = (
                 (im + 1) * forc_nh * dtyear
                 + (1 - (im + 1) * dtyear) * self.prev_values["fn"]
-                + fn_volc[volc_idx]
+                + fn_volc[im % len(fn_volc)]
             )
             dqs = (
                 (im + 1) * forc_sh * dtyear
                 + (1 - (im + 1) * dtyear) * self.prev_values["fs"]
-                + fs_volc[volc_idx]
+                + fs_volc[im % len(fs_volc)]
             )
             dn[0] = (
                 self.varrying["dtrm1n"] * self.tn[0]
-- 
2.43.0


From f8022d162cb53d5f3df37d8dd78822c4d39bee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:40 +0000
Subject: [PATCH 35/38] fix: bromine of gases that also have chlorine in their
 formula (CH2BrCl) was not counted

---
 src/ciceroscm/pub_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index 322deee..46a3070 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -158,7 +158,7 @@ def make_cl_and_br_dictionaries(gases_index):
                 chlor_dict[tracer] = int(tracer.split("Cl")[-1][0])
             else:
                 chlor_dict[tracer] = 1
-        elif "Br" in tracer:
+        if "Br" in tracer:
             if len(tracer.split("Br")[-1]) > 0 and tracer.split("Br")[-1][0].isdigit():
                 brom_dict[tracer] = int(tracer.split("Br")[-1][0])
             else:
-- 
2.43.0


From d0cf37a2c2a3003aee352726f2d07db172790ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 36/38] fix: allow fractional perturbations of emissions given
 as whole numbers

---
 src/ciceroscm/perturbations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/perturbations.py b/src/ciceroscm/perturbations.py
index 3365af3..a5ca3bc 100644
--- a/src/ciceroscm/perturbations.py
+++ b/src/ciceroscm/perturbations.py
@@ -83,6 +83,8 @@ def perturb_emissions(input_handler, emissions_df):
         tracer = row.component
         if row.component == "CO2" and "CO2" not in emissions_df:
             tracer = "CO2_FF"
+        # Emissions may be whole numbers, the perturbed ones need not be
+        emissions_df[tracer] = emissions_df[tracer].astype(float)
         emissions_df.loc[row.year, tracer] = (
             emissions_df[tracer][row.year] + row.emission
         )
-- 
2.43.0


From a2710a1943fb67e40bf6e754ba45135a57cbbf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 37/38] fix: allow natural emissions given as whole numbers in
 the gas table

---
 src/ciceroscm/concentrations_emissions_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index dd5e92b..69664b5 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -183,6 +183,8 @@ class ConcentrationsEmissionsHandler:
            list of physical parameters to define the run
         """
         self.df_gas = input_handler.get_data("gaspam").copy()
+        # Natural emissions of the year are put in here, and need not be whole numbers
+        self.df_gas["NAT_EM"] = self.df_gas["NAT_EM"].astype(float)
         self.conc = {}
         self.forc = {}
         self.nat_emis_ch4 = input_handler.get_data("nat_ch4")
-- 
2.43.0


From 69155724abbb71505c6698dc1de9ce437395020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 38/38] fix: SO2F2 in a forcing file counted as an aerosol

---
 src/ciceroscm/input_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 6558185..2166b1d 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -191,8 +191,11 @@ def read_forc(forc_file):
         # falls back to w_aero = 0 (no pattern-effect modulation).
         if "w_aero" not in df_forc.columns:
             aero_cols = [c for c in AEROSOL_TRACERS if c in df_forc.columns]
+            # Regional aerosols are named by their aerosol, SO2F2 is a gas
             aero_cols_reg = [
-                c for c in df_forc.columns if c[:2] in ["SO", "BC", "OC", "BM"]
+                c
+                for c in df_forc.columns
+                if c[:2] in ["SO", "BC", "OC", "BM"] and c != "SO2F2"
             ]
             for c in aero_cols_reg:
                 if c not in aero_cols:
-- 
2.43.0

