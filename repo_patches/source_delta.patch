From cb9de7adb9f3f08e362dcc8bec1131dec4ee70f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 01/97] fix: read back job-directory steps of 10 and more

The pattern took a single digit, so dvar_X_step_p_10 was read as step 1 and
its job silently computed another variation.
---
 seyfert/utils/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index 8f71cd0..e00f5f6 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -90,7 +90,7 @@ def get_forecast_input_data_dir_from_rundir(rundir: "Path") -> "Path":
 
 
 def get_dvar_step_from_cosmology_jobdir_name(dirname: str):
-    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9])')
+    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9]+)')
     match = dirname_regex.search(dirname)
     try:
         dvar = match.group('dvar')
-- 
2.43.0


From 7e2736c4636ca0970547da1451484b6eba818cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 02/97] fix: compute_pmm evaluates the power spectrum before
 the growth factor

The growth factor is read off the linear power spectrum, so evaluating the
redshift grid first made every power-spectrum job fail.
---
 bin/compute_pmm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/compute_pmm b/bin/compute_pmm
index ca20687..f1c4f83 100755
--- a/bin/compute_pmm
+++ b/bin/compute_pmm
@@ -40,8 +40,8 @@ def main(args_dict):
 
     cosmology = Cosmology(params=phys_pars.cosmological_parameters, flat=phys_pars.is_universe_flat,
                           z_grid=power_spectrum_config.z_grid, model_name='CPL')
-    cosmology.evaluateOverRedshiftGrid()
     cosmology.evaluatePowerSpectrum(workdir, power_spectrum_config)
+    cosmology.evaluateOverRedshiftGrid()
     p_mm_file = workdir / "p_mm.h5"
     logger.info(f'Writing results to file {p_mm_file}')
     cosmology.saveToHDF5(p_mm_file)
-- 
2.43.0


From 3a1a28e5724f3ea861c237aa55dddcb44b996471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 03/97] fix: read bjobs rows whatever the user name looks like

---
 seyfert/main/bsub_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index f553084..665b37e 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -35,7 +35,7 @@ class BsubInterface:
         "SUBMIT_TIME": r"([a-zA-Z]{3}\s+[0-9]+\s+[0-9]+:[0-9]+)"
     }
     _bsub_out_regex = re.compile(r"Job <([0-9]+)> is submitted to")
-    _basic_bjobs_out_regex = re.compile(r"([0-9]+)\s+([a-z]+)\s+([A-Z]+)", re.MULTILINE)
+    _basic_bjobs_out_regex = re.compile(r"^\s*([0-9]+)\s+(\S+)\s+([A-Z]+)", re.MULTILINE)
 
     def __init__(self):
         self.regex_bjobs_out = re.compile(r"\s+".join(self._bjobs_out_regex_dict.values()), re.MULTILINE)
-- 
2.43.0


From f365df29ea21b291ad9034db7e93055bcd763810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 04/97] fix: a batch wait ends only when every waited job was
 reported DONE

---
 seyfert/main/bsub_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 665b37e..63b87b6 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -149,6 +149,8 @@ class BsubInterface:
         check_counter = 0
         num_checks_lim_log = 10
         max_time_wait_s = max_time_wait_h * 3600
+        waited_ids = {str(job_id) for job_id in job_ids}
+        done_ids = set()
         t0 = time.time()
         while True:
             if check_counter < num_checks_lim_log:
@@ -160,7 +162,10 @@ class BsubInterface:
                 logger.info(f"Checking jobs status, check number: {check_counter}")
 
             status_df = self.getBjobsTable(job_ids, bjobs_opts=bjobs_opts)
-            if all(status_df["STAT"] == 'DONE'):
+            status_df = status_df[status_df["JOBID"].isin(waited_ids)]
+            # a job which is not listed (yet) has not finished, one seen as DONE may be forgotten by bjobs later on
+            done_ids.update(status_df.loc[status_df["STAT"] == 'DONE', "JOBID"])
+            if done_ids == waited_ids:
                 logger.info(f"Jobs {job_ids[0]}-{job_ids[-1]} have finished")
                 break
             else:
-- 
2.43.0


From 4a45e8d76ab7aec70961b8802c0494a8a4f72600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 05/97] fix: a job exiting with an error code stops the
 forecast even when it wrote nothing on stderr

---
 seyfert/main/task_runners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 46bf845..a2ecc58 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -156,7 +156,7 @@ class TaskRunner(ABC):
     def executeCommand(cmd: "str"):
         t0 = time.time()
         proc = sp.run(cmd, shell=True, check=False, stdout=sp.PIPE, stderr=sp.PIPE)
-        if proc.stderr:
+        if proc.stderr or proc.returncode != 0:
             logger.error(proc.stderr.decode("utf-8"))
             raise JobFailError(f"Command {cmd} failed")
         if proc.stdout:
-- 
2.43.0


From 0273dafc028ef82305d2034992f8d8ea0399a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 06/97] fix: input files sharing a name are all recorded in the
 run directory

---
 seyfert/utils/workspace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index fdd06c6..f7d209b 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -234,6 +234,9 @@ class WorkSpace:
         for name, input_file in src_input_files.items():
             src = Path(input_file)
             dst = input_files_dir / src.name
+            if src.name in {'params.json', *(Path(path).name for path in input_files_dict.values())}:
+                # files with the same name from different directories must not overwrite each other
+                dst = input_files_dir / f'{name}_{src.name}'
             shutil.copy(src, dst)
             input_files_dict[name] = os.path.relpath(dst, self.run_dir)
 
-- 
2.43.0


From 1a25b96a76330b746e6ac22ec4612d997d6d78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 07/97] fix: a stage linked to external results is never
 written into

---
 seyfert/main/task_runners.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index a2ecc58..c71492e 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -85,6 +85,8 @@ class TaskRunner(ABC):
 
     @abstractmethod
     def createJobDirStructure(self):
+        if self.outdir.is_symlink():
+            raise FileExistsError(f"{self.outdir} is a link to external results, refusing to write jobs into it")
         self.outdir.mkdir(exist_ok=True)
 
     def fillJobDir(self, jobdir_path=None) -> None:
-- 
2.43.0


From 1824f8a8357cc8288fa2f27b04e74eb809f13f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 08/97] fix: job_submitter keeps the angular jobs it has only
 prepared

---
 bin/job_submitter | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 573f75d..607d0c7 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -104,7 +104,7 @@ def main(args_dict: "Dict") -> "None":
             rrm.writeReportFiles()
             logger.info(f'\n{rrm.run_summary}')
 
-    if runner.cl_task.is_present and not args_dict["keep_cl_variations"]:
+    if execution != 'no' and runner.cl_task.is_present and not args_dict["keep_cl_variations"]:
         cl_var_dirs = runner.workspace.collectClVariationDirectories()
         for direc in cl_var_dirs.values():
             shutil.rmtree(direc)
-- 
2.43.0


From fea27cc80d8b34f220d6701cc17f888de825ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 09/97] fix: recorded input files keep distinct names whatever
 their original ones

---
 seyfert/utils/workspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index f7d209b..eb302d9 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -234,9 +234,9 @@ class WorkSpace:
         for name, input_file in src_input_files.items():
             src = Path(input_file)
             dst = input_files_dir / src.name
-            if src.name in {'params.json', *(Path(path).name for path in input_files_dict.values())}:
-                # files with the same name from different directories must not overwrite each other
-                dst = input_files_dir / f'{name}_{src.name}'
+            # files with the same name from different directories must not overwrite each other
+            while dst.name in {'params.json', *(Path(path).name for path in input_files_dict.values())}:
+                dst = dst.with_name(f'{name}_{dst.name}')
             shutil.copy(src, dst)
             input_files_dict[name] = os.path.relpath(dst, self.run_dir)
 
-- 
2.43.0


From 1f699ecd6b69c918774ec039635b6ccf58f0a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 10/97] fix: run_seyfert uses the power spectra directory it is
 given

---
 seyfert/main/seyfert_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 8a80242..3bdeb25 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -47,12 +47,12 @@ def prepare_workspace(args_dict):
                            phys_pars=fcfg.phys_pars, 
                            input_data_dir=input_data_dir)
 
+    ext_dirs = {}
     pmm_dir = args_dict.get('powerspectrum_dir')
     if pmm_dir is None:
-        pmm_dir = ws.run_dir/"PowerSpectrum"
-        pmm_dir.mkdir(exist_ok=True)
-
-    ext_dirs = {}
+        ws.pmm_dir.mkdir(exist_ok=True)
+    else:
+        ext_dirs["PowerSpectrum"] = Path(pmm_dir)
     cldir = args_dict.get('angular_dir')
     derdir = args_dict.get('derivative_dir')
     if cldir is not None:
-- 
2.43.0


From b86a3c064b9addb77ce8cdb59cb379ca16fc8e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 11/97] fix: run_seyfert does not compute fiducial spectra into
 a linked directory

---
 seyfert/main/seyfert_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 3bdeb25..69f6f60 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -84,6 +84,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
     fid_cl_file = ws.cl_dir / "dvar_central_step_0" / "cls_fiducial.h5"
 
     if not fid_cl_file.is_file():
+        if ws.cl_dir.is_symlink():
+            raise FileNotFoundError(f"{fid_cl_file}: not computing it into the linked directory {ws.cl_dir}")
         fid_cls = cl_core.compute_cls(cosmology=fid_cosmo, phys_pars=phys_pars, densities=densities,
                                       forecast_config=fcfg, angular_config=main_configs['Angular'])
         fid_cl_file.parent.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From ccad22b5cb089e3b55db05187d1bc10a1de78b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 12/97] fix: interrupted products are not taken for complete
 and do not block a restart

---
 seyfert/fisher/fisher_matrix.py   |  9 ++++++---
 seyfert/main/fisher_core.py       |  9 +++++++--
 seyfert/main/seyfert_core.py      | 29 +++++++++++++++++++----------
 seyfert/main/task_runners.py      |  2 +-
 seyfert/utils/filesystem_utils.py | 12 ++++++++++++
 5 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 279de2b..8aa9305 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -9,6 +9,7 @@ import logging
 from seyfert.fisher import fisher_utils as fu
 from seyfert.utils import tex_utils as txu
 from seyfert.utils import general_utils as gu
+from seyfert.utils import filesystem_utils as fsu
 from seyfert.file_io.ext_input import ISTInputReader
 
 
@@ -335,11 +336,13 @@ class FisherMatrix:
                 logger.warning(f"file {outfile} already exists, skipping without overwriting")
                 return
             else:
-                if overwrite:
-                    outfile.unlink()
-                else:
+                if not overwrite:
                     raise FileExistsError(f"{outfile}")
 
+        with fsu.complete_file(outfile) as tmp_file:
+            self._writeToHDF5(tmp_file)
+
+    def _writeToHDF5(self, outfile: "Path") -> "None":
         hf = h5py.File(outfile, 'w')
         str_dtype = h5py.special_dtype(vlen=str)
         hf.create_dataset(name="name", data=self.name, dtype=str_dtype)
diff --git a/seyfert/main/fisher_core.py b/seyfert/main/fisher_core.py
index d227bbb..4a6b61e 100644
--- a/seyfert/main/fisher_core.py
+++ b/seyfert/main/fisher_core.py
@@ -1,4 +1,5 @@
 import logging
+import shutil
 from pathlib import Path
 import pandas as pd
 from typing import Dict, List
@@ -6,6 +7,7 @@ from typing import Dict, List
 from seyfert.fisher.fisher_evaluator import FisherEvaluator
 from seyfert.fisher.datavector import ClDataVector
 from seyfert.fisher.fisher_matrix import FisherMatrix
+from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils.workspace import WorkSpace
 from seyfert.cosmology.parameter import PhysicalParametersCollection
 from seyfert.fisher.delta_cl import DeltaClCollection
@@ -45,8 +47,11 @@ def compute_fisher_matrix(data_vector_like: "ClDataVector", ws: "WorkSpace",
         f_mat_df, f_ell_df = fish_evaluator.computeFisherMatrix(phys_pars=phys_pars, delta_cls=delta_cls,
                                                                 dcoll_dvar_dict=dcoll_dvar_dict, return_f_ell=True)
         probe = list(data_vector.getInvolvedAutoCorrelationProbes())[0]
-        with pd.HDFStore(ws.auto_f_ells_file, mode="a") as hdf:
-            f_ell_df.to_hdf(hdf, key=probe)
+        with fsu.complete_file(ws.auto_f_ells_file) as tmp_file:
+            if ws.auto_f_ells_file.is_file():
+                shutil.copy(ws.auto_f_ells_file, tmp_file)
+            with pd.HDFStore(tmp_file, mode="a") as hdf:
+                f_ell_df.to_hdf(hdf, key=probe)
     else:
         auto_f_ells = {}
         with pd.HDFStore(ws.auto_f_ells_file, mode="r") as hdf:
diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 69f6f60..48d7cba 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -72,7 +72,8 @@ def compute_densities(ws, fcfg, fid_cosmo):
             densities[probe].evaluate(z_grid=fid_cosmo.z_grid)
             densities[probe].evaluateSurfaceDensity()
 
-        redshift_density.save_densities_to_file(densities=densities, file=ws.niz_file)
+        with fsu.complete_file(ws.niz_file) as tmp_file:
+            redshift_density.save_densities_to_file(densities=densities, file=tmp_file)
     else:
         densities = redshift_density.load_densities_from_file(file=ws.niz_file)
 
@@ -89,7 +90,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
         fid_cls = cl_core.compute_cls(cosmology=fid_cosmo, phys_pars=phys_pars, densities=densities,
                                       forecast_config=fcfg, angular_config=main_configs['Angular'])
         fid_cl_file.parent.mkdir(exist_ok=True, parents=True)
-        fid_cls.saveToHDF5(fid_cl_file)
+        with fsu.complete_file(fid_cl_file) as tmp_file:
+            fid_cls.saveToHDF5(tmp_file)
     else:
         fid_cls = c_ells.AngularCoefficientsCollector.fromHDF5(fid_cl_file)
 
@@ -98,9 +100,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
 
 def compute_cl_derivatives(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities, fid_cls):
     cl_ders_file = ws.der_dir / "cl_ders.pickle"
-    if not ws.der_dir.is_dir():
-        ws.der_dir.mkdir()
-        cl_ders_file = ws.der_dir / "cl_ders.pickle"
+    if not cl_ders_file.is_file() and not ws.der_dir.is_symlink():
+        ws.der_dir.mkdir(exist_ok=True)
 
         data = {
             "fid_cls": fid_cls,
@@ -127,8 +128,9 @@ def compute_cl_derivatives(ws, fcfg, main_configs, phys_pars, fid_cosmo, densiti
         logger.info("")
         logger.info(f"Cl derivatives total elapsed time: {formatters.string_time_format(tf - ti)}")
 
-        with open(cl_ders_file, mode="wb") as f:
-            pickle.dump(ders_dict, f)
+        with fsu.complete_file(cl_ders_file) as tmp_file:
+            with open(tmp_file, mode="wb") as f:
+                pickle.dump(ders_dict, f)
     else:
         with open(cl_ders_file, mode="rb") as f:
             ders_dict = pickle.load(f)
@@ -152,7 +154,7 @@ def compute_fishers(ws, fcfg, phys_pars, delta_cls, ders_dict):
 
     f_gcsp_pk = FisherMatrix.from_ISTfile(fsu.get_ist_gcsp_pk_fisher_file(fcfg.scenario))
 
-    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5")
+    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5", skip_if_exists=True)
 
     return auto_fishers + fishers
 
@@ -176,11 +178,18 @@ def do_forecast(args_dict, logfile):
         delta_cls = cl_core.DeltaClCollection.fromHDF5(ws.delta_cls_file)
     else:
         delta_cls = cl_core.compute_delta_cls(ws)
-        delta_cls.saveToHDF5(ws.delta_cls_file)
+        with fsu.complete_file(ws.delta_cls_file) as tmp_file:
+            delta_cls.saveToHDF5(tmp_file)
 
     compute_fishers(ws=ws, fcfg=fcfg, phys_pars=phys_pars, delta_cls=delta_cls, ders_dict=ders_dict)
 
-    create_final_results(rundir=ws.run_dir, outdir_name="final_results")
+    if not ws.final_results_dir.is_dir():
+        # the results directory appears only when it is complete
+        tmp_results_dir = ws.final_results_dir.with_name(f"{ws.final_results_dir.name}.part")
+        if tmp_results_dir.is_dir():
+            shutil.rmtree(tmp_results_dir)
+        create_final_results(rundir=ws.run_dir, outdir_name=tmp_results_dir.name)
+        tmp_results_dir.rename(ws.final_results_dir)
 
     shutil.copy(logfile, ws.run_dir / Path(logfile).name)
 
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index c71492e..eb30194 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -602,7 +602,7 @@ class ForecastRunner:
         for cosmology in ["w0_wa_CDM"]:
             file = fsu.get_ist_gcsp_pk_fisher_file(scenario=self.forecast_config.scenario, cosmology=cosmology)
             pk_fisher = FisherMatrix.from_ISTfile(file=file)
-            pk_fisher.writeToFile(outfile=outdir / f"fisher_IST_gcsp_pk_{cosmology}.hdf5")
+            pk_fisher.writeToFile(outfile=outdir / f"fisher_IST_gcsp_pk_{cosmology}.hdf5", skip_if_exists=True)
     
     def addTimingDataToMetadata(self):
         if self.end_datetime is not None:
diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index e00f5f6..d286a0a 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -3,6 +3,7 @@ import re
 import json
 import os
 from pathlib import Path
+from contextlib import contextmanager
 import logging
 
 from seyfert import SEYFERT_PATH
@@ -10,6 +11,17 @@ from seyfert import SEYFERT_PATH
 logger = logging.getLogger(__name__)
 
 
+@contextmanager
+def complete_file(path: "Union[str, Path]"):
+    """Yields the temporary path to write `path` through: `path` appears only once it has been written completely"""
+    path = Path(path)
+    tmp_path = path.with_name(f"{path.name}.part")
+    if tmp_path.exists():
+        tmp_path.unlink()
+    yield tmp_path
+    os.replace(tmp_path, path)
+
+
 def repo_path():
     return Path(SEYFERT_PATH).parent
 
-- 
2.43.0


From c554c7e311a9739401dcde4322519c1855f8c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 13/97] fix: a restarted batch Fisher stage completes the
 single-probe matrices first

---
 seyfert/main/task_runners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index eb30194..e7a1954 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -325,7 +325,8 @@ class FisherTaskRunner(TaskRunner):
         logs_path = self.workspace.base_fishers_dir / f"logs_run_{fm.datetime_str_format(datetime.datetime.now())}"
         logs_path.mkdir(exist_ok=True, parents=True)
 
-        if not self.workspace.auto_f_ells_file.exists():
+        auto_fisher_files = [self.workspace.base_fishers_dir / f"fisher_{dv}.hdf5" for dv in auto_dvs_brief]
+        if not self.workspace.auto_f_ells_file.exists() or not all(file.exists() for file in auto_fisher_files):
             logger.info("Submitting auto-correlations computation...")
             auto_fish_cmd = self.writeFisherCommand(auto_dvs_brief)
             job_id = self.bsub.submitJob(cmd_to_execute=auto_fish_cmd, logs_path=logs_path, logs_start_str="auto_corrs",
-- 
2.43.0


From 1d5949c2871fa8d61a046d51346f7aa47d8a2382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 14/97] fix: Fisher matrices are read back with the names they
 were written with (h5py >= 3)

---
 seyfert/fisher/fisher_matrix.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 8aa9305..eb55762 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -355,16 +355,21 @@ class FisherMatrix:
                               dtype=str_dtype)
         hf.close()
 
+    @staticmethod
+    def _decode(s: "Union[str, bytes]") -> "str":
+        # h5py versions from 3.0 on read strings as bytes
+        return s.decode("utf-8") if isinstance(s, bytes) else str(s)
+
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         if file_ext == 'hdf5':
             hf = h5py.File(file, 'r')
-            self.name = str(hf["name"][()])
+            self.name = self._decode(hf["name"][()])
             try:
-                self._nuisance_parameters = set(hf["nuisance_pars"][()])
+                self._nuisance_parameters = {self._decode(par) for par in hf["nuisance_pars"][()]}
             except KeyError:
                 self._nuisance_parameters = set()
-            self._cosmological_parameters = set(hf["cosmological_pars"][()])
-            indices = hf["indices"][()]
+            self._cosmological_parameters = {self._decode(par) for par in hf["cosmological_pars"][()]}
+            indices = [self._decode(par) for par in hf["indices"][()]]
             self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
             hf.close()
 
-- 
2.43.0


From ea900cd7f2f726c7803600e4830ba0216fa131ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 15/97] fix: pair-keyed dictionaries store a spectrum once,
 whichever way round it is written

Item assignment, deletion and update went straight to the underlying dict: writing (B,A) next
to a stored (A,B) kept both, reading one did not see the other, and SmartKeyDict stored raw
keys its own lookup could not find.
---
 seyfert/base_structs/cl_dict.py      | 31 ++++++++++++++++++++++++++++
 seyfert/base_structs/generic_dict.py |  3 ++-
 seyfert/utils/shortcuts.py           | 14 +++++++++++++
 3 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/seyfert/base_structs/cl_dict.py b/seyfert/base_structs/cl_dict.py
index 7ca7160..b04a0dc 100644
--- a/seyfert/base_structs/cl_dict.py
+++ b/seyfert/base_structs/cl_dict.py
@@ -56,6 +56,24 @@ class FlexDict(GenericDictInterface[str, np.ndarray]):
             else:
                 raise TypeError(f"Unrecognized key type {type(key)}")
 
+    def __setitem__(self, key: "Union[str, Tuple[str, str]]", value: "np.ndarray") -> "None":
+        if isinstance(key, tuple):
+            p1, p2 = key
+            key = gu.get_probes_combination_key(self.alias_to_fullname(p1), self.alias_to_fullname(p2))
+        rev_key = gu.reverse_probes_comb_key(key)
+        if key not in self._base_dict and rev_key in self._base_dict:
+            self._base_dict[rev_key] = self.transform(value)
+        else:
+            self._base_dict[key] = value
+
+    def __delitem__(self, key: "Union[str, Tuple[str, str]]") -> "None":
+        if isinstance(key, tuple):
+            p1, p2 = key
+            key = gu.get_probes_combination_key(self.alias_to_fullname(p1), self.alias_to_fullname(p2))
+        if key not in self._base_dict:
+            key = gu.reverse_probes_comb_key(key)
+        del self._base_dict[key]
+
     def tuple_key_to_str_key(self, tpl_key: "Tuple") -> "str":
         p1, p2 = tpl_key
         p1 = self.alias_to_fullname(p1)
@@ -96,6 +114,19 @@ class TupleSmartDict(GenericDictInterface[Tuple[str, str], np.ndarray]):
 
             return self.transform(self._base_dict[(p2, p1)])
 
+    def __setitem__(self, item, value):
+        p1, p2 = item
+        if item not in self._base_dict and (p2, p1) in self._base_dict:
+            self._base_dict[(p2, p1)] = self.transform(value)
+        else:
+            self._base_dict[item] = value
+
+    def __delitem__(self, item):
+        p1, p2 = item
+        if item not in self._base_dict:
+            item = (p2, p1)
+        del self._base_dict[item]
+
 
 class ClSmartDict(TupleSmartDict):
     def transform(self, X: "np.ndarray") -> "np.ndarray":
diff --git a/seyfert/base_structs/generic_dict.py b/seyfert/base_structs/generic_dict.py
index f8ec397..23a8f1f 100644
--- a/seyfert/base_structs/generic_dict.py
+++ b/seyfert/base_structs/generic_dict.py
@@ -42,7 +42,8 @@ class GenericDictInterface(Mapping[_KeyType, _ValueType], ABC):
         return self._base_dict.__repr__()
 
     def update(self, other: Dict) -> "None":
-        self._base_dict.update(other)
+        for key, value in other.items():
+            self[key] = value
 
 
 class DictLike(dict):
diff --git a/seyfert/utils/shortcuts.py b/seyfert/utils/shortcuts.py
index 935b965..e32df9c 100644
--- a/seyfert/utils/shortcuts.py
+++ b/seyfert/utils/shortcuts.py
@@ -260,6 +260,20 @@ class SmartKeyDict(GenericDictInterface[ClKey, np.ndarray]):
 
             return self.reversed_key_transform(self._base_dict[rev_key])
 
+    def __setitem__(self, cl_key: "Union[ClKey, TRawClKey]", value: "np.ndarray") -> "None":
+        cl_key = ClKey(cl_key)
+        rev_key = cl_key.getReverseKey()
+        if cl_key not in self._base_dict and rev_key in self._base_dict:
+            self._base_dict[rev_key] = self.reversed_key_transform(value)
+        else:
+            self._base_dict[cl_key] = value
+
+    def __delitem__(self, cl_key: "Union[ClKey, TRawClKey]") -> "None":
+        cl_key = ClKey(cl_key)
+        if cl_key not in self._base_dict:
+            cl_key = cl_key.getReverseKey()
+        del self._base_dict[cl_key]
+
 
 class ClSmartKeyDict(SmartKeyDict):
     def reversed_key_transform(self, X: "np.ndarray") -> "np.ndarray":
-- 
2.43.0


From 041ba2abd3fbce12d6a53e023c6aff522cf33de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 16/97] fix: probe-pair keys are matched in full, not by their
 beginning

ClKey accepted any string starting with a valid key ("Lensing_LensingX", "wlwlx",
("GCphX", "WL")) and read it as that key.
---
 seyfert/utils/shortcuts.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seyfert/utils/shortcuts.py b/seyfert/utils/shortcuts.py
index e32df9c..ba40834 100644
--- a/seyfert/utils/shortcuts.py
+++ b/seyfert/utils/shortcuts.py
@@ -139,14 +139,14 @@ class ClKey:
 
     @classmethod
     def fromFisherStringRepr(cls, str_repr: "str"):
-        auto_match = alias_probe_name_regex.match(str_repr)
+        auto_match = alias_probe_name_regex.fullmatch(str_repr)
         if auto_match:
             p = auto_match.groups()[0]
             key = cls.fromParts(p, p, kind="alias")
         else:
             pattern = alias_probe_name_regex.pattern
             xc_regex = re.compile(r"XC\(%s,%s\)" % (pattern, pattern))
-            xc_match = xc_regex.match(str_repr)
+            xc_match = xc_regex.fullmatch(str_repr)
             if not xc_match:
                 raise Exception(f"Invalid string repr for ClKey {str_repr}")
             p1, p2 = xc_match.groups()
@@ -156,8 +156,8 @@ class ClKey:
 
     def inferKind(self) -> "str":
         if isinstance(self.key, str):
-            long_match = long_cl_key_regex.match(self.key)
-            short_match = short_cl_key_regex.match(self.key)
+            long_match = long_cl_key_regex.fullmatch(self.key)
+            short_match = short_cl_key_regex.fullmatch(self.key)
             if long_match:
                 kind = "long"
                 self.match = long_match
@@ -171,9 +171,9 @@ class ClKey:
                 raise KeyError(f"Invalid key {self.key}")
             kind = "alias"
             p1, p2 = self.key
-            if not alias_probe_name_regex.match(p1):
+            if not alias_probe_name_regex.fullmatch(p1):
                 raise KeyError(f"{p1} is not a valid probe alias")
-            if not alias_probe_name_regex.match(p2):
+            if not alias_probe_name_regex.fullmatch(p2):
                 raise KeyError(f"{p2} is not a valid probe alias")
         else:
             raise KeyError(f"Invalid key {self.key}")
-- 
2.43.0


From 7d0159f06d1f4ce4241e346f5d09550fe46c40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 17/97] fix: data vectors of different length are different

The comparison stopped at the end of the shorter one, so WL was equal to WL+GCph.
---
 seyfert/fisher/datavector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/datavector.py b/seyfert/fisher/datavector.py
index 88f15d2..3699530 100644
--- a/seyfert/fisher/datavector.py
+++ b/seyfert/fisher/datavector.py
@@ -41,7 +41,7 @@ class ClDataVector:
         return len(self.entries)
 
     def __eq__(self, other: "ClDataVector") -> "bool":
-        return all(entry1 == entry2 for entry1, entry2 in zip(self, other))
+        return len(self) == len(other) and all(entry1 == entry2 for entry1, entry2 in zip(self, other))
 
     @property
     def is_single_autocorrelation(self) -> "bool":
-- 
2.43.0


From ef73327e3cd5cce764e40d1f474fce4431cc52d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 18/97] fix: Fisher matrices of different parameters can be
 compared

The comparison raised ("Can only compare identically-labeled DataFrame objects") instead
of telling that they differ.
---
 seyfert/fisher/fisher_matrix.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index eb55762..9275dd1 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -162,10 +162,12 @@ class FisherMatrix:
         return fisher_sum
 
     def __eq__(self, other: "FisherMatrix") -> "bool":
-        return all([np.all(self.matrix.sort_index(axis=0).sort_index(axis=1) ==
-                           other.matrix.sort_index(axis=0).sort_index(axis=1)),
-                    self.name == other.name,
-                    self.physical_parameters == other.physical_parameters])
+        if self.name != other.name or self.physical_parameters != other.physical_parameters or \
+                set(self.index) != set(other.index):
+            return False
+
+        return bool(np.all(self.matrix.sort_index(axis=0).sort_index(axis=1) ==
+                           other.matrix.sort_index(axis=0).sort_index(axis=1)))
 
     def __repr__(self) -> "str":
         return f"{self.name}\n {repr(self.matrix)}"
-- 
2.43.0


From 3e62fc8f642d72c9ffd9ba060863c4081681e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 19/97] fix: errors and correlations follow a Fisher matrix
 that was changed

Fixing parameters, adding priors or selecting a sub-matrix after the inverse had been
evaluated left the old inverse in place, from which the marginalised errors were then read.
---
 seyfert/fisher/fisher_matrix.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 9275dd1..ff64ae5 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -209,6 +209,7 @@ class FisherMatrix:
         self.matrix = self.matrix.loc[relevant_pars, relevant_pars]
         self.matrix.sort_index(axis=0, inplace=True)
         self.matrix.sort_index(axis=1, inplace=True)
+        self._refreshInverse()
 
     def fixParameters(self, params: "Iterable[str]") -> "None":
         params = set(params)
@@ -218,6 +219,14 @@ class FisherMatrix:
         self._cosmological_parameters = self.cosmological_parameters - params
         self._nuisance_parameters = self.nuisance_parameters - params
         self.matrix = self.matrix.drop(params, axis=0).drop(params, axis=1)
+        self._refreshInverse()
+
+    def _refreshInverse(self) -> "None":
+        # an inverse evaluated before is not the one of the changed matrix
+        if self.inverse is not None:
+            self.evaluateInverse()
+        if self.correlation is not None:
+            self.evaluateCorrelationMatrix()
 
     def evaluateInverse(self):
         self.inverse = fu.invert_dataframe(self.matrix)
@@ -266,6 +275,8 @@ class FisherMatrix:
             self.inverse = sliced_inverse
             marg_fisher = fu.invert_dataframe(sliced_inverse)
             self.matrix = marg_fisher.sort_index(axis=0).sort_index(axis=1)
+            if self.correlation is not None:
+                self.evaluateCorrelationMatrix()
 
             return None
 
@@ -312,6 +323,7 @@ class FisherMatrix:
             prior_fisher.loc[name, name] = 1 / (sigma_prior**2)
 
         self.matrix = self.matrix.add(prior_fisher, fill_value=0)
+        self._refreshInverse()
 
     def getFilename(self) -> "str":
         sub_dict = {
-- 
2.43.0


From d29905fb7816e5c39377ebea3ca352d54547be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 20/97] fix: correlations of a marginalised Fisher matrix use
 each parameter's own error

The inverse kept by marginalizeParameters lists the parameters in another order than the
matrix, and the errors were attached to the parameters by position.
---
 seyfert/fisher/fisher_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index ff64ae5..7456226 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -238,7 +238,8 @@ class FisherMatrix:
         return 1. / np.sqrt(np.linalg.det(sub_inv_matrix))
 
     def evaluateCorrelationMatrix(self) -> "None":
-        sigmas = np.sqrt(np.diag(self.inverse))
+        # the inverse of a marginalised matrix lists the parameters in its own order
+        sigmas = np.sqrt(np.diag(self.inverse.loc[self.matrix.index, self.matrix.columns]))
         sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.matrix.shape[0], axis=0),
                                     index=self.matrix.index,
                                     columns=self.matrix.columns)
-- 
2.43.0


From 60f31a9cd4a3bebceff86607d9072dce4ba7b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 21/97] fix: a prior on a parameter a Fisher matrix does not
 have is refused

It grew a row and a column of NaN, not listed among the matrix's parameters.
---
 seyfert/fisher/fisher_matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 7456226..54ba581 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -318,6 +318,9 @@ class FisherMatrix:
         return errs
 
     def addPriorToParameters(self, fiducials_dict: "Dict[str, float]", frac_delta: "float"):
+        missing = set(fiducials_dict) - set(self.index)
+        if missing:
+            raise FisherMatrixError(f"cannot add a prior to missing parameters {missing}")
         prior_fisher = pd.DataFrame(np.zeros(self.matrix.shape), index=self.index, columns=self.columns)
         for name, value in fiducials_dict.items():
             sigma_prior = frac_delta * value
-- 
2.43.0


From 1d42371ddb00d17e6ce85e3320e0504df5f22b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 22/97] fix: final results fix the parameters outside the
 cosmology in every matrix

---
 seyfert/fisher/final_results_core.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/seyfert/fisher/final_results_core.py b/seyfert/fisher/final_results_core.py
index 722e288..536694f 100644
--- a/seyfert/fisher/final_results_core.py
+++ b/seyfert/fisher/final_results_core.py
@@ -65,13 +65,10 @@ def create_results_for_cosmology(fisher_matrices, cosmology, params, post_fisher
         name: fiducial for name, fiducial in params.free_cosmo_pars_fiducials.items()
         if name in free_params_names
     }
-    fixed_cosmo_pars = {
-        name: fiducial for name, fiducial in params.free_cosmo_pars_fiducials.items()
-        if name not in free_params_names
-    }
 
+    # not all matrices have the same cosmological parameters
     for fisher_name in Fs:
-        Fs[fisher_name].fixParameters(set(fixed_cosmo_pars))
+        Fs[fisher_name].fixParameters(Fs[fisher_name].cosmological_parameters - free_params_names)
 
     if fix_nuisance:
         for fisher_name in Fs:
-- 
2.43.0


From 47b1cac28d62df4f7ac6c07475aa5a4d8fa952c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 23/97] fix: a Fisher analysis built from a list of matrices
 holds them

---
 seyfert/fisher/fisher_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 4f9c9b1..e1b1a8f 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -52,7 +52,7 @@ class FisherAnalysis:
         if isinstance(fisher_matrices, list):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-            self.fisher_matrices = {}
+            self.fisher_matrices.update({f.name: f for f in fisher_matrices})
         elif isinstance(fisher_matrices, dict):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices.values()]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-- 
2.43.0


From 8fa475cae964c2f0ee70a0138a55a0b47b81035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 24/97] fix: final results of a run with free gamma or mnu can
 be read back

---
 seyfert/fisher/fisher_analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index e1b1a8f..4c75820 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -86,6 +86,10 @@ class FisherAnalysis:
         if cosmology == "LCDM":
             del params["w0"]
             del params["wa"]
+        if cosmology in {"LCDM", "w0_wa_CDM"}:
+            # no result of these cosmologies has the other free parameters
+            for name in {"gamma", "mnu"} & set(params.free_cosmo_pars_fiducials):
+                del params[name]
 
         an = cls.fromFishersDir(fishers_dir=fishers_dir, params=params)
         fcfg = ws.getForecastConfiguration()
-- 
2.43.0


From b6eb49930c0d43e2b7b55550ae0d7996429bd66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 25/97] fix: negative spectra are checked for linearity too

---
 seyfert/derivatives/differentiator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 8edd2f1..d51d4ec 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -130,7 +130,7 @@ class SteMClDifferentiator(ClDifferentiator):
                 y_abs_diff = np.abs(yfit - y)
                 err = np.zeros(y_abs_diff.shape)
                 mask = y != 0
-                err[mask] = y_abs_diff[mask] / y[mask]
+                err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
                 x = x[1:-1]
-- 
2.43.0


From 79400843ea8de1eadf1fad0186533f66ec604b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 26/97] fix: spectra not linear on five steps are fitted on the
 central three

---
 seyfert/derivatives/differentiator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index d51d4ec..d3bbd06 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -136,7 +136,7 @@ class SteMClDifferentiator(ClDifferentiator):
                 x = x[1:-1]
                 y = y[1:-1]
 
-                less_than_three_points = y.shape[0] <= 3
+                less_than_three_points = y.shape[0] < 3
                 stop = np.count_nonzero(not_linear_mask) == 0 or less_than_three_points
 
         dc_lij = slopes.reshape((n_ells, ni, nj))
-- 
2.43.0


From ae581f67b83634e28fb621d9d3b8ca13e392fb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 27/97] fix: both SteM implementations treat vanishing samples
 alike

---
 seyfert/derivatives/differentiator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index d3bbd06..51d101d 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -97,7 +97,9 @@ class SteMClDifferentiator(ClDifferentiator):
                 slope = fit_pars[0]
                 intercept = fit_pars[1]
                 y_fit = intercept + slope * x
-                percentile_difference = np.abs((y - y_fit) / y)
+                # relative differences cannot be computed for vanishing samples
+                nonzero = y != 0
+                percentile_difference = np.abs((y[nonzero] - y_fit[nonzero]) / y[nonzero])
                 if all(percentile_difference < 0.01) or len(y) <= 3:
                     linear = True
                 else:
-- 
2.43.0


From 72df057250660909007ef43fc0dd5a27d1f8afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 28/97] fix: analytic derivatives use the right bin from the
 tenth on

---
 seyfert/derivatives/differentiator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 51d101d..9ce1f73 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+import re
 import numpy as np
 from scipy import integrate
 from typing import List
@@ -185,7 +186,7 @@ class AnalyticClDifferentiator(ClDifferentiator):
             dc_lij = np.zeros(self.fiducial_cl.c_lij.shape)
             bias_model_name = self.fiducial_cl.getWeightFunction(probe).bias.model_name
             if bias_model_name == "constant" or bias_model_name == "piecewise":
-                k = int(self.param.name[-1])
+                k = int(re.search(r"[0-9]+$", self.param.name).group())
                 bk = self.param.fiducial
                 if bias_model_name == "constant":
                     _, i, j = np.indices(self.fiducial_cl.c_lij.shape)
-- 
2.43.0


From 4f7f05ed4ef57bfd16c044b4ea2c8c7f75093e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 29/97] fix: multipole grids of probes are sorted and compared
 without rounding noise

A grid read from file and the same grid computed from its limits differ in
the last bits, so that only some of their multipoles were seen as shared.
---
 seyfert/config/probe_config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 4fdb5e8..2a21387 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -107,7 +107,7 @@ class ProbeConfig:
         ell_filename = probe_dict["ell_external_filename"] if "ell_external_filename" in probe_dict else None
         if ell_filename is not None:
             ells_file = self.input_data_dir / ell_filename
-            input_ells = np.loadtxt(ells_file)
+            input_ells = np.loadtxt(ells_file, ndmin=2)
             l_bin_centers, l_bin_widths = input_ells[:, 0], input_ells[:, 1]
         else:
             l_min, l_max = probe_dict['l_min'], probe_dict['l_max']
@@ -117,7 +117,10 @@ class ProbeConfig:
             l_bin_centers, l_bin_widths = array_utils.compute_multipoles_arrays(l_min, l_max, spacing=spacing,
                                                                                 n_ell=n_ell)
 
-        return l_bin_centers, l_bin_widths
+        # multipoles are compared by value across probes and spectra: keep them sorted, and free of rounding noise
+        l_bin_centers, idxs = np.unique(np.round(l_bin_centers, decimals=8), return_index=True)
+
+        return l_bin_centers, l_bin_widths[idxs]
 
     def __eq__(self, other: "ProbeConfig") -> "bool":
         conds = [
-- 
2.43.0


From 53ecbe7b066129afb3626871c37f6f418ca53381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 30/97] fix: widths of the multipoles of a pair do not depend
 on the order of its probes

---
 seyfert/config/forecast_config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index e4bf587..485605b 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -151,13 +151,13 @@ class ForecastConfig:
     def getMultipoleArraysForProbeComb(self, obs_key: "str") -> "Tuple[np.ndarray, np.ndarray]":
         obs1, obs2 = gu.get_probes_from_comb_key(obs_key)
         ell1, ell2 = self.probe_configs[obs1].l_bin_centers, self.probe_configs[obs2].l_bin_centers
-        ell_common = np.intersect1d(ell1, ell2)
-        mask_common = np.isin(ell1, ell_common)
-        d_ell1, d_ell2 = self.probe_configs[obs1].l_bin_widths, self.probe_configs[obs2].l_bin_widths
-        d_ell_common = d_ell1[mask_common]
+        ell_common, idxs1, idxs2 = np.intersect1d(ell1, ell2, return_indices=True)
+        d_ell_common = self.probe_configs[obs1].l_bin_widths[idxs1]
 
         if len(ell_common) == 0:
             raise Exception(f"No multipoles in common for probe combination {obs_key}")
+        if not np.allclose(d_ell_common, self.probe_configs[obs2].l_bin_widths[idxs2]):
+            raise ConfigError(f"Probes {obs1} and {obs2} have different widths for the same multipoles")
 
         return ell_common, d_ell_common
 
-- 
2.43.0


From 1f42022e9efb958f6caf968f4ef5529f09beab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 31/97] fix: union of a single array of multipoles

---
 seyfert/utils/array_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/array_utils.py b/seyfert/utils/array_utils.py
index dbaf02d..cc0bef6 100644
--- a/seyfert/utils/array_utils.py
+++ b/seyfert/utils/array_utils.py
@@ -18,7 +18,7 @@ def symmetrize_clij_arr(X: "np.ndarray") -> "np.ndarray":
 
 
 def compute_arrays_union1d(arrays: "List[np.ndarray]") -> "np.ndarray":
-    arr_union = np.union1d(arrays[0], arrays[1])
+    arr_union = np.unique(arrays[0])
     for arr in arrays[1:]:
         arr_union = np.union1d(arr_union, arr)
 
-- 
2.43.0


From c97fd568faee7e5f6a480e62dfc19977168c02b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 32/97] fix: Fisher matrices of spectra with a single common
 multipole

---
 seyfert/fisher/fisher_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_evaluator.py b/seyfert/fisher/fisher_evaluator.py
index de5a895..1f3a95c 100644
--- a/seyfert/fisher/fisher_evaluator.py
+++ b/seyfert/fisher/fisher_evaluator.py
@@ -228,7 +228,9 @@ class FisherEvaluator:
             ells_list.append(ells)
 
         ells_list = np.stack(ells_list)
-        unique_ells = np.unique(ells_list, axis=0).squeeze()
+        unique_ells = np.unique(ells_list, axis=0)
+        if len(unique_ells) == 1:
+            unique_ells = unique_ells[0]
 
         return unique_ells, vec_dcl_dict
 
-- 
2.43.0


From 4286016af18f9ec061d31c91dc3017f7d380eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 33/97] fix: combined Fisher matrices need the single-probe
 results of their own probes, not of three

---
 seyfert/main/fisher_core.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/seyfert/main/fisher_core.py b/seyfert/main/fisher_core.py
index 4a6b61e..856abc1 100644
--- a/seyfert/main/fisher_core.py
+++ b/seyfert/main/fisher_core.py
@@ -54,14 +54,16 @@ def compute_fisher_matrix(data_vector_like: "ClDataVector", ws: "WorkSpace",
                 f_ell_df.to_hdf(hdf, key=probe)
     else:
         auto_f_ells = {}
-        with pd.HDFStore(ws.auto_f_ells_file, mode="r") as hdf:
-            for key in hdf:
-                auto_f_ell_df: "pd.DataFrame" = hdf.get(key)
-                auto_f_ells[Path(key).name] = auto_f_ell_df
-
-        if len(auto_f_ells) < 3:
-            raise Exception(f"Cannot compute fisher {fish_name} with only the following auto-correlation "
-                            f"fisher matrices: {list(auto_f_ells)}")
+        if data_vector.involved_probes:
+            with pd.HDFStore(ws.auto_f_ells_file, mode="r") as hdf:
+                for key in hdf:
+                    auto_f_ell_df: "pd.DataFrame" = hdf.get(key)
+                    auto_f_ells[Path(key).name] = auto_f_ell_df
+
+        missing_probes = sorted(set(data_vector.involved_probes) - set(auto_f_ells))
+        if missing_probes:
+            raise Exception(f"Cannot compute fisher {fish_name} without the auto-correlation fisher matrices of "
+                            f"{missing_probes}, available: {list(auto_f_ells)}")
 
         f_mat_df = fish_evaluator.computeFisherMatrix(phys_pars=phys_pars, delta_cls=delta_cls,
                                                       dcoll_dvar_dict=dcoll_dvar_dict, auto_f_ells=auto_f_ells)
-- 
2.43.0


From 95ebf0400697d62a3148ffa681a1dec2eedb8ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 34/97] fix: sky fractions take part in the comparison of
 configurations

---
 seyfert/config/forecast_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index 485605b..7cbfd88 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -169,7 +169,7 @@ class ForecastConfig:
             self.phys_pars == other.phys_pars,
             self.is_universe_flat == other.is_universe_flat,
             self.probe_configs == other.probe_configs,
-            self.survey_f_sky, other.survey_f_sky,
+            self.survey_f_sky == other.survey_f_sky,
             self.probes_combinations == other.probes_combinations
         ])
 
-- 
2.43.0


From 224f0e3d1eba3d431d73dd687c2f2d872aa76bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 35/97] fix: probes with different numbers of multipoles can be
 compared

---
 seyfert/config/probe_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 2a21387..ce6bceb 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -125,8 +125,8 @@ class ProbeConfig:
     def __eq__(self, other: "ProbeConfig") -> "bool":
         conds = [
             self.name == other.name,
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths),
             self.density_init_file.name == other.density_init_file.name,
             self.marginalize_bias == other.marginalize_bias,
             self.nuisance_parameters == other.nuisance_parameters,
-- 
2.43.0


From 3ef5e3b2008ee24c3e76ec30746d5a970220ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 36/97] fix: parameters compare by how they are varied, not
 only by their values

---
 seyfert/config/probe_config.py | 1 +
 seyfert/cosmology/parameter.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index ce6bceb..8093da3 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -129,6 +129,7 @@ class ProbeConfig:
             np.array_equal(self.l_bin_widths, other.l_bin_widths),
             self.density_init_file.name == other.density_init_file.name,
             self.marginalize_bias == other.marginalize_bias,
+            self.bias_diff_method == other.bias_diff_method,
             self.nuisance_parameters == other.nuisance_parameters,
             self.specific_settings == other.specific_settings
         ]
diff --git a/seyfert/cosmology/parameter.py b/seyfert/cosmology/parameter.py
index 1ff92d6..5f56bba 100644
--- a/seyfert/cosmology/parameter.py
+++ b/seyfert/cosmology/parameter.py
@@ -133,7 +133,8 @@ class PhysicalParameter:
     def __eq__(self, other: "PhysicalParameter") -> "bool":
         return all([
             self.name == other.name, self.fiducial == other.fiducial, self.kind == other.kind,
-            self.current_value == other.current_value
+            self.current_value == other.current_value, self.is_free_parameter == other.is_free_parameter,
+            self.stem_factor == other.stem_factor, self.derivative_method == other.derivative_method
         ])
 
 
-- 
2.43.0


From aa492131d1cceacd1719df716e8ea220d862e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 37/97] fix: shot noise and derivative steps take part in the
 comparison of configurations

---
 seyfert/config/forecast_config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index 7cbfd88..6eb84dd 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -1,4 +1,4 @@
-from typing import Dict, Tuple, List, Union, Any, Iterable
+from typing import Dict, Tuple, List, Union, Any, Iterable, Optional
 import json
 import numpy as np
 import itertools
@@ -72,6 +72,10 @@ class ForecastConfig:
     def survey_f_sky(self):
         return self.json_config.f_sky
 
+    @property
+    def shot_noise_file_name(self) -> "Optional[str]":
+        return self.shot_noise_file.name if self.shot_noise_file is not None else None
+
     @property
     def is_universe_flat(self) -> "bool":
         return self.json_config.cosmology["flat"]
@@ -170,6 +174,9 @@ class ForecastConfig:
             self.is_universe_flat == other.is_universe_flat,
             self.probe_configs == other.probe_configs,
             self.survey_f_sky == other.survey_f_sky,
+            self.shot_noise_file_name == other.shot_noise_file_name,
+            self.shot_noise_sp_reduced == other.shot_noise_sp_reduced,
+            self.json_config.derivative_settings == other.json_config.derivative_settings,
             self.probes_combinations == other.probes_combinations
         ])
 
-- 
2.43.0


From 3b5e4a58e7ea40d412ed3f542b1498075a1e07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 38/97] fix: the configuration editor keeps its own copy of the
 options

---
 seyfert/config/forecast_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index 6eb84dd..71337e4 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -200,7 +200,7 @@ class ForecastConfigEditor:
         }
 
     def __init__(self, opts: "Dict[str, Any]"):
-        self.opts = opts
+        self.opts = dict(opts)
         self.creation_date = datetime.datetime.now()
         self.config = None
 
-- 
2.43.0


From cbba5181b378a49420da95dd8a6694392aa447bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 39/97] fix: the configuration editor refuses impossible
 options before editing anything

---
 seyfert/config/forecast_config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index 71337e4..b9d76a4 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -221,14 +221,16 @@ class ForecastConfigEditor:
 
         if self.scenario not in {"optimistic", "pessimistic"}:
             raise OptionValueError(opt_name="scenario", got=self.scenario, acceptable={"optimistic", "pessimistic"})
-        if self.n_sp_bins not in {4, 12, 24, 40}:
+        if not isinstance(self.n_sp_bins, int) or self.n_sp_bins not in {4, 12, 24, 40}:
             raise OptionValueError(opt_name="n_sp_bins", got=self.n_sp_bins, acceptable={4, 12, 24, 40})
         if not isinstance(self.gcph_minus_gcsp, bool):
             raise TypeError(f"gcph_minus_gcsp must be bool, got {type(self.gcph_minus_gcsp)}")
         if not isinstance(self.shot_noise_sp_reduced, bool):
             raise TypeError(f"shot_noise_sp_reduced must be bool, got {type(self.shot_noise_sp_reduced)}")
         if not isinstance(self.gcph_only_bins_in_spectro_range, bool):
-            raise TypeError(f"gcph_only_bins_in_spectro_range must be bool, got {type(self.shot_noise_sp_reduced)}")
+            raise TypeError(f"gcph_only_bins_in_spectro_range must be bool, got {type(self.gcph_only_bins_in_spectro_range)}")
+        if self.gcph_minus_gcsp and self.gcph_only_bins_in_spectro_range:
+            raise NotImplementedError("gcph_minus_gcsp and gcph_only_bins_in_spectro_range cannot be both true")
 
     @property
     def scenario(self) -> "str":
@@ -292,8 +294,6 @@ class ForecastConfigEditor:
 
     def updateGCphDensityAndBias(self):
         if self.gcph_minus_gcsp:
-            if self.gcph_only_bins_in_spectro_range:
-                raise NotImplementedError("gcph_minus_gcsp and gcph_only_bins_in_spectro_range cannot be both true")
             self.config.GCph["density_file"] = "gcph_dndz_redbook_gcsp_subtracted.h5"
         else:
             if self.gcph_only_bins_in_spectro_range:
-- 
2.43.0


From f91f5f8276efcdd293ec4885ad196082d45d4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 40/97] fix: names of edited configurations do not depend on
 the order of the options

---
 seyfert/config/forecast_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index b9d76a4..8f1b935 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -264,7 +264,7 @@ class ForecastConfigEditor:
 
     def createFileName(self, add_datetime=True) -> "str":
         filename = f"{self.scenario}_{self.n_sp_bins}_sp_bins"
-        for flag_name, flag in self.bool_opts.items():
+        for flag_name, flag in sorted(self.bool_opts.items()):
             if flag:
                 filename += f"_{flag_name}"
 
-- 
2.43.0


From f758c8959b988f8ea8e2cbb7031c07f0fd9f7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 41/97] fix: HDF5 files are closed also when a save or a load
 is refused

---
 seyfert/file_io/hdf5_io.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/seyfert/file_io/hdf5_io.py b/seyfert/file_io/hdf5_io.py
index 130ce4b..6e45d1b 100644
--- a/seyfert/file_io/hdf5_io.py
+++ b/seyfert/file_io/hdf5_io.py
@@ -99,6 +99,7 @@ class AbstractH5FileIO(ABC):
             if mode != 'r':
                 self._root_group = self._h5file.create_group(name=self._root_path)
             else:
+                self._h5file.close()
                 raise H5FileModeError(f'cannot create root {root} on readonly file')
         if mode != 'r':
             self.root.attrs.update(base_metadata)
@@ -111,17 +112,21 @@ class AbstractH5FileIO(ABC):
 
     def load(self, file: "Union[str, Path]", root: "str" = '/') -> "object":
         self.openFile(file, mode='r', root=root)
-        self.readBuildingData()
-        obj = self.builder_func(**self.build_data)
-        self.writeToObject(obj)
-        self.closeFile()
+        try:
+            self.readBuildingData()
+            obj = self.builder_func(**self.build_data)
+            self.writeToObject(obj)
+        finally:
+            self.closeFile()
         return obj
 
     def save(self, obj: "object", file: "Union[str, Path]", root: "str" = '/'):
         mode = 'w' if not Path(file).exists() else 'a'
         self.openFile(file, mode=mode, root=root)
-        self.writeObjectToFile(obj)
-        self.closeFile()
+        try:
+            self.writeObjectToFile(obj)
+        finally:
+            self.closeFile()
 
     @abstractmethod
     def writeToObject(self, obj: "object") -> "None":
-- 
2.43.0


From b2b99aec6178899db209ecd807c1889c6a38149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 42/97] fix: a save refused because the place is taken leaves
 what is stored there as it was

---
 seyfert/cosmology/bias.py             | 2 +-
 seyfert/cosmology/c_ells.py           | 4 ++--
 seyfert/cosmology/kernel_functions.py | 2 +-
 seyfert/cosmology/redshift_density.py | 2 +-
 seyfert/cosmology/weight_functions.py | 2 +-
 seyfert/fisher/delta_cl.py            | 8 +++++---
 6 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index b88fa05..587b3b8 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -122,10 +122,10 @@ class H5Bias(AbstractH5FileIO):
         self.builder_func = Bias
 
     def writeObjectToFile(self, obj: "Bias") -> "None":
+        bias_model_grp = self.createGroup(name='bias_model')
         if obj.z_bin_edges is not None:
             self.createDataset(name='z_bin_edges', data=obj.z_bin_edges)
         self.attrs['probe'] = obj.probe
-        bias_model_grp = self.createGroup(name='bias_model')
         bias_model_grp.attrs['model_name'] = obj.model_name
         add_params_grp = self.createGroup(name='additional_parameters', base_grp=bias_model_grp)
         self.createDatasets(obj.additional_parameters, base_grp=add_params_grp)
diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 52979e3..4da1df6 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -531,10 +531,10 @@ class H5ClCollection(AbstractH5FileIO):
 
     def writeObjectToFile(self, obj: "AngularCoefficientsCollector") -> "None":
         super(H5ClCollection, self).writeObjectToFile(obj)
-        if obj.z_grid is not None:
-            self.createDataset(name='z_grid', data=obj.z_grid)
         cls_grp_path = join(self.root_path, 'cls')
         self.createGroup(name=cls_grp_path)
+        if obj.z_grid is not None:
+            self.createDataset(name='z_grid', data=obj.z_grid)
         for cl_kind, cl in obj.cl_dict.items():
             cl.saveToHDF5(self.file_path, root=cls_grp_path)
 
diff --git a/seyfert/cosmology/kernel_functions.py b/seyfert/cosmology/kernel_functions.py
index 7c6db0a..ab0e6f4 100644
--- a/seyfert/cosmology/kernel_functions.py
+++ b/seyfert/cosmology/kernel_functions.py
@@ -102,6 +102,6 @@ class H5Kernel(AbstractH5FileIO):
 
     def writeObjectToFile(self, obj: "KernelFunction") -> "None":
         super(H5Kernel, self).writeObjectToFile(obj)
-        self.attrs.update({'probe1': obj.probe1, 'probe2': obj.probe2})
         self.createDataset(name='z_grid', data=obj.z_grid)
         self.createDataset(name='k_ijz', data=obj.k_ijz)
+        self.attrs.update({'probe1': obj.probe1, 'probe2': obj.probe2})
diff --git a/seyfert/cosmology/redshift_density.py b/seyfert/cosmology/redshift_density.py
index 9192298..9f42cec 100644
--- a/seyfert/cosmology/redshift_density.py
+++ b/seyfert/cosmology/redshift_density.py
@@ -217,8 +217,8 @@ class H5Density(AbstractH5FileIO):
             }
 
     def writeObjectToFile(self, obj: "RedshiftDensity") -> "None":
-        self.attrs['probe'] = obj.probe
         self.createDataset(name='has_niz_from_input', data=obj.has_niz_from_input)
+        self.attrs['probe'] = obj.probe
         self.createDataset(name='input_z_domain', data=obj.input_z_domain)
         self.createDataset(name='z_bin_edges', data=obj.z_bin_edges)
         self.createDataset(name='catalog_f_sky', data=obj.catalog_f_sky)
diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 76e467f..2d45963 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -318,11 +318,11 @@ class H5WeightFunction(AbstractH5FileIO):
                 logger.warning(f'bias absent from h5 file')
 
     def writeObjectToFile(self, obj: "WeightFunction") -> "None":
-        self.attrs['probe'] = obj.probe
         if obj.z_grid is not None:
             self.createDataset(name='z_grid', data=obj.z_grid)
         if obj.w_bin_z is not None:
             self.createDataset(name='w_bin_z', data=obj.w_bin_z)
+        self.attrs['probe'] = obj.probe
         if obj.density is not None:
             obj.density.saveToHDF5(self.file_path, root=join(self.root_path, 'density'))
         else:
diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index c1bab06..343481e 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -273,15 +273,15 @@ class H5DeltaCl(AbstractH5FileIO):
                 continue
 
     def writeObjectToFile(self, obj: "DeltaCl") -> "None":
+        self.createDataset(name="l_bin_centers", data=obj.l_bin_centers)
+        self.createDataset(name="delta_c_lij", data=obj.delta_c_lij)
+
         self.attrs['name'] = obj.name
         if obj.probe_1 is not None:
             self.attrs['probe_1'] = obj.probe_1
         if obj.probe_2 is not None:
             self.attrs['probe_2'] = obj.probe_2
 
-        self.createDataset(name="l_bin_centers", data=obj.l_bin_centers)
-        self.createDataset(name="delta_c_lij", data=obj.delta_c_lij)
-
         if obj.inv_delta_c_lij is not None:
             self.createDataset(name="inv_delta_c_lij", data=obj.inv_delta_c_lij)
         if obj.l_bin_widths is not None:
@@ -305,6 +305,8 @@ class H5DeltaClCollection(AbstractH5FileIO):
                                                                     root=root_path)
 
     def writeObjectToFile(self, obj: "DeltaClCollection") -> "None":
+        self.createGroup(name='delta_cls')
+        self.createGroup(name='single_blocks')
         for name, delta_cl in obj.items():
             delta_cl.saveToHDF5(self.file_path, root=join(self.root_path, 'delta_cls', name))
         for single_block_name, single_block_delta_cl in obj.single_blocks.items():
-- 
2.43.0


From 0380ace357c5a3017658ff8d6d333d0fe543736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 43/97] fix: angular coefficients under different roots of a
 file keep their own weight functions

---
 seyfert/cosmology/c_ells.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 4da1df6..3f56206 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -6,7 +6,7 @@ from pathlib import Path
 from typing import List, Tuple, Dict, Union
 import h5py
 import numpy as np
-from os.path import join
+from os.path import dirname, join
 from scipy import integrate
 from scipy import interpolate
 import logging
@@ -428,10 +428,11 @@ class AngularCoefficientsCollector:
         
 
 class H5Cl(AbstractH5FileIO):
-    def __init__(self, probe1: "str" = None, probe2: "str" = None, **kwargs):
+    def __init__(self, probe1: "str" = None, probe2: "str" = None, weights_path: "str" = None, **kwargs):
         super(H5Cl, self).__init__(**kwargs)
         self.probe1 = probe1
         self.probe2 = probe2
+        self._weights_path = weights_path
         self.builder_func = AngularCoefficient
 
     @property
@@ -445,6 +446,22 @@ class H5Cl(AbstractH5FileIO):
     def absolute_main_path(self) -> "str":
         return join(self.root_path, self.main_path_rel_to_root)
 
+    @property
+    def weights_path(self) -> "str":
+        # the weight functions belong to this root only: others in the file may have their own
+        if self._weights_path is not None:
+            return self._weights_path
+        return join(self.root_path, 'weight_functions')
+
+    def findWeightPath(self, probe: "str") -> "str":
+        parent_weights_path = join(dirname(self.root_path), 'weight_functions')
+        for weights_path in (self.weights_path, parent_weights_path):
+            path = join(weights_path, probe)
+            if path in self._h5file:
+                return path
+        # files whose weight functions were written away from the Cls
+        return self.findGroup(f"weight_functions/{probe}")[0]
+
     def readBuildingData(self) -> "None":
         self.build_data['probe1'] = self.probe1
         self.build_data['probe2'] = self.probe2
@@ -464,8 +481,8 @@ class H5Cl(AbstractH5FileIO):
         if ker_path in self.root:
             h5k = kfs.H5Kernel()
             obj.kernel = h5k.load(self.file_path, root=ker_path)
-            w1_root_path = self.findGroup(f"weight_functions/{self.probe1}")[0]
-            w2_root_path = self.findGroup(f"weight_functions/{self.probe2}")[0]
+            w1_root_path = self.findWeightPath(self.probe1)
+            w2_root_path = self.findWeightPath(self.probe2)
             h5w1 = wfs.H5WeightFunction()
             h5w2 = wfs.H5WeightFunction()
             obj.kernel.weight1 = h5w1.load(self.file_path, root=w1_root_path)
@@ -483,11 +500,11 @@ class H5Cl(AbstractH5FileIO):
             h5k = kfs.H5Kernel()
             h5k.save(obj.kernel, self.file_path, root=f'{self.absolute_main_path}/kernel')
         if obj.weight1 is not None:
-            w1_root_path = f'weight_functions/{self.probe1}'
+            w1_root_path = join(self.weights_path, self.probe1)
             if w1_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
                 h5w.save(obj.weight1, self.file_path, root=w1_root_path)
-            w2_root_path = f'weight_functions/{self.probe2}'
+            w2_root_path = join(self.weights_path, self.probe2)
             if w2_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
                 h5w.save(obj.weight2, self.file_path, root=w2_root_path)
@@ -519,7 +536,7 @@ class H5ClCollection(AbstractH5FileIO):
         obj.weight_dict = {}
         for cl_kind in cls_grp:
             p1, p2 = gu.get_probes_from_comb_key(cl_kind)
-            h5cl = H5Cl(probe1=p1, probe2=p2)
+            h5cl = H5Cl(probe1=p1, probe2=p2, weights_path=join(self.root_path, 'weight_functions'))
             cl_obj = h5cl.load(file=self.file_path, root=f'{cls_grp_path}')
             cl_obj: "AngularCoefficient"
             if p1 not in obj.weight_dict:
@@ -535,10 +552,11 @@ class H5ClCollection(AbstractH5FileIO):
         self.createGroup(name=cls_grp_path)
         if obj.z_grid is not None:
             self.createDataset(name='z_grid', data=obj.z_grid)
+        weights_path = join(self.root_path, 'weight_functions')
         for cl_kind, cl in obj.cl_dict.items():
-            cl.saveToHDF5(self.file_path, root=cls_grp_path)
+            h5cl = H5Cl(probe1=cl.probe1, probe2=cl.probe2, weights_path=weights_path)
+            h5cl.save(cl, self.file_path, root=cls_grp_path)
 
-        weights_path = join(self.root_path, 'weight_functions')
         for w_probe, w in obj.weight_dict.items():
             w_path = f'{weights_path}/{w_probe}'
             if w_path not in self._h5file:
-- 
2.43.0


From ebcbf9ca8eaf5da4dc331d6be30cc88f8ccf7f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 44/97] fix: angular coefficients without kernel or weight
 functions can be saved and loaded

---
 seyfert/cosmology/c_ells.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 3f56206..d20f24c 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -460,7 +460,8 @@ class H5Cl(AbstractH5FileIO):
             if path in self._h5file:
                 return path
         # files whose weight functions were written away from the Cls
-        return self.findGroup(f"weight_functions/{probe}")[0]
+        found = self.findGroup(f"weight_functions/{probe}")
+        return found[0] if found is not None else None
 
     def readBuildingData(self) -> "None":
         self.build_data['probe1'] = self.probe1
@@ -485,8 +486,10 @@ class H5Cl(AbstractH5FileIO):
             w2_root_path = self.findWeightPath(self.probe2)
             h5w1 = wfs.H5WeightFunction()
             h5w2 = wfs.H5WeightFunction()
-            obj.kernel.weight1 = h5w1.load(self.file_path, root=w1_root_path)
-            obj.kernel.weight2 = h5w2.load(self.file_path, root=w2_root_path)
+            if w1_root_path is not None:
+                obj.kernel.weight1 = h5w1.load(self.file_path, root=w1_root_path)
+            if w2_root_path is not None:
+                obj.kernel.weight2 = h5w2.load(self.file_path, root=w2_root_path)
 
     def writeObjectToFile(self, obj: "AngularCoefficient") -> "None":
         super(H5Cl, self).writeObjectToFile(obj)
@@ -499,11 +502,12 @@ class H5Cl(AbstractH5FileIO):
         if obj.kernel is not None:
             h5k = kfs.H5Kernel()
             h5k.save(obj.kernel, self.file_path, root=f'{self.absolute_main_path}/kernel')
-        if obj.weight1 is not None:
+        if obj.kernel is not None and obj.weight1 is not None:
             w1_root_path = join(self.weights_path, self.probe1)
             if w1_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
                 h5w.save(obj.weight1, self.file_path, root=w1_root_path)
+        if obj.kernel is not None and obj.weight2 is not None:
             w2_root_path = join(self.weights_path, self.probe2)
             if w2_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
@@ -539,10 +543,11 @@ class H5ClCollection(AbstractH5FileIO):
             h5cl = H5Cl(probe1=p1, probe2=p2, weights_path=join(self.root_path, 'weight_functions'))
             cl_obj = h5cl.load(file=self.file_path, root=f'{cls_grp_path}')
             cl_obj: "AngularCoefficient"
-            if p1 not in obj.weight_dict:
-                obj.weight_dict[p1] = cl_obj.weight1
-            if p2 not in obj.weight_dict:
-                obj.weight_dict[p2] = cl_obj.weight2
+            if cl_obj.kernel is not None:
+                if p1 not in obj.weight_dict and cl_obj.weight1 is not None:
+                    obj.weight_dict[p1] = cl_obj.weight1
+                if p2 not in obj.weight_dict and cl_obj.weight2 is not None:
+                    obj.weight_dict[p2] = cl_obj.weight2
 
             obj.cl_dict[cl_kind] = cl_obj
 
-- 
2.43.0


From 280d1c83cb910ca7de2a32635c6c811b56da6df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 45/97] fix: a weight function can be loaded from a file into
 an existing object

---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 2d45963..8e06ec9 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -104,7 +104,7 @@ class WeightFunction(ABC):
 
     def loadFromHDF5(self, file: Union[str, Path], root: str = '/') -> "None":
         h5w = H5WeightFunction()
-        h5w.openFile(file, root)
+        h5w.openFile(file, mode='r', root=root)
         h5w.writeToObject(self)
         h5w.closeFile()
 
-- 
2.43.0


From aadd053619b61cac2fe53a5e8e253b179a22f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 46/97] fix: weight functions missing beside the Cls are looked
 for only where older versions wrote them

---
 seyfert/cosmology/c_ells.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index d20f24c..a7b7d7a 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -454,14 +454,13 @@ class H5Cl(AbstractH5FileIO):
         return join(self.root_path, 'weight_functions')
 
     def findWeightPath(self, probe: "str") -> "str":
+        # in collections they are next to the Cls, older files have them at the top
         parent_weights_path = join(dirname(self.root_path), 'weight_functions')
-        for weights_path in (self.weights_path, parent_weights_path):
+        for weights_path in (self.weights_path, parent_weights_path, '/weight_functions'):
             path = join(weights_path, probe)
             if path in self._h5file:
                 return path
-        # files whose weight functions were written away from the Cls
-        found = self.findGroup(f"weight_functions/{probe}")
-        return found[0] if found is not None else None
+        return None
 
     def readBuildingData(self) -> "None":
         self.build_data['probe1'] = self.probe1
-- 
2.43.0


From cb3e703c7b30f458a68a5f4555d452187ed40743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 47/97] fix: the constant bias follows the order of the bins,
 not the one of the parameters

---
 seyfert/cosmology/bias.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index 587b3b8..d30a9b7 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -183,6 +183,16 @@ class BiasModel(ABC):
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
         pass
 
+    def getSortedBiasValues(self) -> "np.ndarray":
+        par_names = list(self.nuisance_parameters.keys())
+        digit_regex = re.compile(r'\d+')
+
+        def _get_bias_idx(s) -> "int":
+            match = digit_regex.search(s)
+            return int(s[match.start():match.end()])
+
+        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
+
     def __eq__(self, other: "BiasModel"):
         return gu.compare_objects(self, other, self._attrs_excluded_from_equality)
 
@@ -192,7 +202,7 @@ class ConstantBias(BiasModel):
         super(ConstantBias, self).__init__(**kwargs)
 
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
-        b_i = np.array(list(self.nuisance_parameters.values()))
+        b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
             raise BiasError(f'number of bias values {len(b_i)} differs from n_bins {self.n_bins}')
         return np.repeat(b_i[:, np.newaxis], len(z_grid), axis=1)
@@ -209,16 +219,6 @@ class PiecewiseBias(BiasModel):
 
         return b_i_z
 
-    def getSortedBiasValues(self) -> "np.ndarray":
-        par_names = list(self.nuisance_parameters.keys())
-        digit_regex = re.compile(r'\d+')
-
-        def _get_bias_idx(s) -> "int":
-            match = digit_regex.search(s)
-            return int(s[match.start():match.end()])
-
-        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
-
     def getConditionAndValuesLists(self, z_grid: "np.ndarray"):
         b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
-- 
2.43.0


From 1a1015ce573d2bd538eda85b5129e0ec38d965d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 48/97] fix: objects with arrays of different shapes, or
 missing arrays, compare as different

---
 seyfert/cosmology/c_ells.py           |  8 ++++----
 seyfert/cosmology/power_spectrum.py   | 10 +++++-----
 seyfert/cosmology/weight_functions.py |  2 +-
 seyfert/fisher/delta_cl.py            |  8 ++++----
 seyfert/utils/general_utils.py        |  2 +-
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index a7b7d7a..c0c3a9b 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -284,9 +284,9 @@ class AngularCoefficient:
 
     def __eq__(self, other: "AngularCoefficient") -> "bool":
         return all([
-            np.all(self.c_lij == other.c_lij),
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths),
+            np.array_equal(self.c_lij, other.c_lij),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths),
         ])
 
     def plot(self, what: "str" = "cl", axes: "np.ndarray[plt.Axes]" = None,
@@ -424,7 +424,7 @@ class AngularCoefficientsCollector:
         return h5cl_coll.load(file, root)
 
     def __eq__(self, other: "AngularCoefficientsCollector") -> "bool":
-        return all([self.cl_dict[key] == other.cl_dict[key] for key in self.cl_dict])
+        return self.cl_dict == other.cl_dict
         
 
 class H5Cl(AbstractH5FileIO):
diff --git a/seyfert/cosmology/power_spectrum.py b/seyfert/cosmology/power_spectrum.py
index 6f33b63..1ffa006 100644
--- a/seyfert/cosmology/power_spectrum.py
+++ b/seyfert/cosmology/power_spectrum.py
@@ -112,11 +112,11 @@ class PowerSpectrum:
 
     def __eq__(self, other: "PowerSpectrum") -> "bool":
         return all([
-            np.all(self.z_grid == other.z_grid),
-            np.all(self.k_grid == other.k_grid),
-            np.all(self.lin_p_mm_z_k == other.lin_p_mm_z_k),
-            np.all(self.nonlin_p_mm_z_k == other.nonlin_p_mm_z_k),
-            np.all(self.transfer_function == other.transfer_function)
+            np.array_equal(self.z_grid, other.z_grid),
+            np.array_equal(self.k_grid, other.k_grid),
+            np.array_equal(self.lin_p_mm_z_k, other.lin_p_mm_z_k),
+            np.array_equal(self.nonlin_p_mm_z_k, other.nonlin_p_mm_z_k),
+            np.array_equal(self.transfer_function, other.transfer_function)
         ])
 
 
diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 8e06ec9..1e75be6 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -121,7 +121,7 @@ class WeightFunction(ABC):
         self.w_bin_z = np.zeros((self.n_bins, len(self.z_grid)))
 
     def __eq__(self, other: "WeightFunction") -> bool:
-        return np.all(self.z_grid == other.z_grid) and np.all(self.w_bin_z == other.w_bin_z)
+        return np.array_equal(self.z_grid, other.z_grid) and np.array_equal(self.w_bin_z, other.w_bin_z)
 
 
 # noinspection PyTypeChecker
diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index 343481e..0f6f704 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -75,10 +75,10 @@ class DeltaCl:
 
     def __eq__(self, other: "DeltaCl") -> "bool":
         return all([
-            np.all(self.delta_c_lij == other.delta_c_lij),
-            np.all(self.noise_lij == other.noise_lij),
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths)
+            np.array_equal(self.delta_c_lij, other.delta_c_lij),
+            np.array_equal(self.noise_lij, other.noise_lij),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths)
         ])
 
     def computeNoise(self) -> "np.ndarray":
diff --git a/seyfert/utils/general_utils.py b/seyfert/utils/general_utils.py
index 3c3ecbb..72f380c 100644
--- a/seyfert/utils/general_utils.py
+++ b/seyfert/utils/general_utils.py
@@ -145,7 +145,7 @@ def compare_objects(obj1: "object", obj2: "object", exclude_attrs: "Set") -> boo
             except AttributeError:
                 raise AttributeError(f'obj1 {obj1} and/or {obj2} have no attribute {key}')
             if isinstance(value1, np.ndarray) or isinstance(value2, np.ndarray):
-                cond = np.all(value1 == value2)
+                cond = np.array_equal(value1, value2)
             else:
                 cond = value1 == value2
             conds.append(cond)
-- 
2.43.0


From 79a1ba7c3bde690b45dcc43019331012bf305d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 49/97] fix: Fisher matrices with columns in another order than
 the rows are written with the right labels

---
 seyfert/fisher/fisher_matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 54ba581..0823567 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -365,7 +365,9 @@ class FisherMatrix:
         str_dtype = h5py.special_dtype(vlen=str)
         hf.create_dataset(name="name", data=self.name, dtype=str_dtype)
         hf.create_dataset(name="indices", data=np.array(self.matrix.index, dtype=str_dtype), dtype=str_dtype)
-        hf.create_dataset(name="fisher_matrix", data=self.matrix.to_numpy(dtype=np.float64), dtype='f8')
+        # rows and columns are read back with the same labels
+        matrix = self.matrix.loc[:, self.matrix.index]
+        hf.create_dataset(name="fisher_matrix", data=matrix.to_numpy(dtype=np.float64), dtype='f8')
         hf.create_dataset(name="cosmological_pars", data=np.array(list(self.cosmological_parameters), dtype=str_dtype),
                           dtype=str_dtype)
         if len(self.nuisance_parameters) > 0:
-- 
2.43.0


From 8b165ea1a3c16ae823f19de0bae0429fa0cecb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 50/97] fix: HDF5 files are closed also when loading into an
 existing object is refused

---
 seyfert/cosmology/bias.py             | 4 +---
 seyfert/cosmology/c_ells.py           | 8 ++------
 seyfert/cosmology/cosmology.py        | 4 +---
 seyfert/cosmology/kernel_functions.py | 4 +---
 seyfert/cosmology/power_spectrum.py   | 4 +---
 seyfert/cosmology/redshift_density.py | 4 +---
 seyfert/cosmology/weight_functions.py | 4 +---
 seyfert/file_io/hdf5_io.py            | 7 +++++++
 seyfert/fisher/delta_cl.py            | 8 ++------
 9 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index d30a9b7..45e167b 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -104,9 +104,7 @@ class Bias:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> "None":
         h5bias = H5Bias()
-        h5bias.openFile(file=file, mode='r', root=root)
-        h5bias.writeToObject(self)
-        h5bias.closeFile()
+        h5bias.loadInto(self, file, root)
 
     def saveToHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> "None":
         h5bias = H5Bias()
diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index c0c3a9b..c423f50 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -278,9 +278,7 @@ class AngularCoefficient:
         if probe2 is None:
             probe2 = self.probe2
         h5cl = H5Cl(probe1, probe2)
-        h5cl.openFile(file=file, mode='r', root=root)
-        h5cl.writeToObject(self)
-        h5cl.closeFile()
+        h5cl.loadInto(self, file, root)
 
     def __eq__(self, other: "AngularCoefficient") -> "bool":
         return all([
@@ -414,9 +412,7 @@ class AngularCoefficientsCollector:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> "None":
         h5cl_coll = H5ClCollection()
-        h5cl_coll.openFile(file=file, mode='r', root=root)
-        h5cl_coll.writeToObject(self)
-        h5cl_coll.closeFile()
+        h5cl_coll.loadInto(self, file, root)
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", root: "str" = '/') -> "AngularCoefficientsCollector":
diff --git a/seyfert/cosmology/cosmology.py b/seyfert/cosmology/cosmology.py
index 59304a4..a42c7aa 100644
--- a/seyfert/cosmology/cosmology.py
+++ b/seyfert/cosmology/cosmology.py
@@ -371,9 +371,7 @@ class Cosmology:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/", load_power_spectrum: "bool" = True) -> "None":
         h5cosmo = H5Cosmology()
-        h5cosmo.openFile(file=file, mode='r', root=root)
-        h5cosmo.writeToObject(self)
-        h5cosmo.closeFile()
+        h5cosmo.loadInto(self, file, root)
         self.checkParameters()
         if load_power_spectrum:
             if self.power_spectrum is not None:
diff --git a/seyfert/cosmology/kernel_functions.py b/seyfert/cosmology/kernel_functions.py
index ab0e6f4..8b2c1cb 100644
--- a/seyfert/cosmology/kernel_functions.py
+++ b/seyfert/cosmology/kernel_functions.py
@@ -83,9 +83,7 @@ class KernelFunction:
         if self.probe2 is not None:
             logger.warning(f'probe string {self.probe2} will be overwritten with file content')
         h5k = H5Kernel()
-        h5k.openFile(file=file, mode='r', root=root)
-        h5k.writeToObject(self)
-        h5k.closeFile()
+        h5k.loadInto(self, file, root)
 
 
 class H5Kernel(AbstractH5FileIO):
diff --git a/seyfert/cosmology/power_spectrum.py b/seyfert/cosmology/power_spectrum.py
index 1ffa006..f8e3ecd 100644
--- a/seyfert/cosmology/power_spectrum.py
+++ b/seyfert/cosmology/power_spectrum.py
@@ -106,9 +106,7 @@ class PowerSpectrum:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/") -> "None":
         h5pmm = H5PowerSpectrum()
-        h5pmm.openFile(file=file, mode='r', root=root)
-        h5pmm.writeToObject(self)
-        h5pmm.closeFile()
+        h5pmm.loadInto(self, file, root)
 
     def __eq__(self, other: "PowerSpectrum") -> "bool":
         return all([
diff --git a/seyfert/cosmology/redshift_density.py b/seyfert/cosmology/redshift_density.py
index 9f42cec..dd7afe8 100644
--- a/seyfert/cosmology/redshift_density.py
+++ b/seyfert/cosmology/redshift_density.py
@@ -61,9 +61,7 @@ class RedshiftDensity:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> None:
         h5d = H5Density()
-        h5d.openFile(file=file, mode='r', root=root)
-        h5d.writeToObject(self)
-        h5d.closeFile()
+        h5d.loadInto(self, file, root)
 
     @property
     def z_min(self) -> "float":
diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 1e75be6..ac22e2e 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -104,9 +104,7 @@ class WeightFunction(ABC):
 
     def loadFromHDF5(self, file: Union[str, Path], root: str = '/') -> "None":
         h5w = H5WeightFunction()
-        h5w.openFile(file, mode='r', root=root)
-        h5w.writeToObject(self)
-        h5w.closeFile()
+        h5w.loadInto(self, file, root)
 
     def setUp(self):
         if self.density is None:
diff --git a/seyfert/file_io/hdf5_io.py b/seyfert/file_io/hdf5_io.py
index 6e45d1b..c8cf4b0 100644
--- a/seyfert/file_io/hdf5_io.py
+++ b/seyfert/file_io/hdf5_io.py
@@ -120,6 +120,13 @@ class AbstractH5FileIO(ABC):
             self.closeFile()
         return obj
 
+    def loadInto(self, obj: "object", file: "Union[str, Path]", root: "str" = '/') -> "None":
+        self.openFile(file, mode='r', root=root)
+        try:
+            self.writeToObject(obj)
+        finally:
+            self.closeFile()
+
     def save(self, obj: "object", file: "Union[str, Path]", root: "str" = '/'):
         mode = 'w' if not Path(file).exists() else 'a'
         self.openFile(file, mode=mode, root=root)
diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index 0f6f704..c5ca31b 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -123,9 +123,7 @@ class DeltaCl:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/") -> "None":
         h5c = H5DeltaCl(name=self.name)
-        h5c.openFile(file, mode='r', root=root)
-        h5c.writeToObject(self)
-        h5c.closeFile()
+        h5c.loadInto(self, file, root)
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", name: "str", root: "str" = "/") -> "DeltaCl":
@@ -236,9 +234,7 @@ class DeltaClCollection(GenericDictInterface[str, DeltaCl]):
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/") -> "None":
         h5c_coll = H5DeltaClCollection()
-        h5c_coll.openFile(file, mode='r', root=root)
-        h5c_coll.writeToObject(self)
-        h5c_coll.closeFile()
+        h5c_coll.loadInto(self, file, root)
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", root: "str" = "/") -> "DeltaClCollection":
-- 
2.43.0


From 5c935eafdb04165d9fcf9c24f75587fbd394afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 51/97] fix: a cosmology with a power spectrum can be compared
 with one without

---
 seyfert/cosmology/power_spectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/cosmology/power_spectrum.py b/seyfert/cosmology/power_spectrum.py
index f8e3ecd..145d650 100644
--- a/seyfert/cosmology/power_spectrum.py
+++ b/seyfert/cosmology/power_spectrum.py
@@ -109,6 +109,8 @@ class PowerSpectrum:
         h5pmm.loadInto(self, file, root)
 
     def __eq__(self, other: "PowerSpectrum") -> "bool":
+        if not isinstance(other, PowerSpectrum):
+            return NotImplemented
         return all([
             np.array_equal(self.z_grid, other.z_grid),
             np.array_equal(self.k_grid, other.k_grid),
-- 
2.43.0


From ef4ca4991f8c31bb22186d5964b5ddb85a99600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 52/97] fix: existing results are neither mixed with new ones
 nor left behind when they are overwritten

---
 seyfert/fisher/final_results_core.py | 6 ++++++
 seyfert/fisher/fisher_analysis.py    | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/seyfert/fisher/final_results_core.py b/seyfert/fisher/final_results_core.py
index 536694f..02308ca 100644
--- a/seyfert/fisher/final_results_core.py
+++ b/seyfert/fisher/final_results_core.py
@@ -2,6 +2,7 @@ from typing import Dict, List, Union
 from pathlib import Path
 import copy
 import re
+import shutil
 import logging
 
 from seyfert.utils.workspace import WorkSpace
@@ -92,6 +93,11 @@ def create_results_for_cosmology(fisher_matrices, cosmology, params, post_fisher
         dirname = "marg_before" if marg_nuis_before else "marg_after"
 
     outdir = main_outdir / cosmology / dirname
+    if any(outdir.glob("fisher*.hdf5")):
+        # results are either replaced completely or left alone
+        if not overwrite:
+            raise FileExistsError(f"{outdir}")
+        shutil.rmtree(outdir)
     outdir.mkdir(parents=True, exist_ok=True)
 
     an.saveFishersToDisk(outdir, overwrite=overwrite)
diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 4c75820..43445fe 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -231,6 +231,11 @@ class FisherAnalysis:
 
     def saveFishersToDisk(self, outdir: "Union[str, Path]", overwrite=False):
         outdir = Path(outdir)
+        if not overwrite:
+            # either all of the matrices are written or none
+            for F in self.fisher_matrices.values():
+                if (outdir / F.getFilename()).exists():
+                    raise FileExistsError(f"{outdir / F.getFilename()}")
         for key in self.fisher_matrices:
             self.fisher_matrices[key].writeToFile(outdir=outdir, overwrite=overwrite)
 
-- 
2.43.0


From bde3f39b95721370ac751f91aaa04cda1ca0ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 53/97] fix: switches given as False are off, and options of
 ini files have the types of the command line

---
 bin/job_submitter          | 17 ++++++++++-------
 bin/run_seyfert            |  4 ++--
 seyfert/config/cmd_line.py |  9 +++++----
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 607d0c7..8b2de1e 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 import shutil
+import sys
 from pathlib import Path
 import time
 import argparse
@@ -14,7 +15,7 @@ from seyfert.utils import filesystem_utils as fsu
 from seyfert import VERSION
 import seyfert.utils.general_utils as gu
 from seyfert.main.report_maker import RunReportMaker
-from seyfert.utils.formatters import datetime_str_format, string_time_format
+from seyfert.utils.formatters import datetime_str_format, string_time_format, str_to_bool
 from seyfert.config import cmd_line
 
 
@@ -43,13 +44,13 @@ def program_options() -> "argparse.ArgumentParser":
     parser = argparse.ArgumentParser(add_help=False, parents=[cmd_line.main_submitter_batch_options(),
                                                               cmd_line.forecast_task_flags()])
     # Flags
-    parser.add_argument("--verbose", nargs='?', default=False, const=True,
+    parser.add_argument("--verbose", nargs='?', default=False, const=True, type=str_to_bool,
                         help="OPTIONAL: Flag for being verbose")
-    parser.add_argument("--test", '-t', nargs='?', default=False, const=True,
+    parser.add_argument("--test", '-t', nargs='?', default=False, const=True, type=str_to_bool,
                         help="OPTIONAL: Flag for testing mode")
-    parser.add_argument("--keep_cl_variations", nargs='?', default=False, const=True,
+    parser.add_argument("--keep_cl_variations", nargs='?', default=False, const=True, type=str_to_bool,
                         help="OPTIONAL: Flag for keeping varied cls for all cosmologies after the run.")
-    parser.add_argument("--overwrite_results", "-ow", nargs='?', default=False, const=True,
+    parser.add_argument("--overwrite_results", "-ow", nargs='?', default=False, const=True, type=str_to_bool,
                         help="OPTIONAL: Flag for overwriting results: fisher matrices and errors")
 
     return parser
@@ -120,7 +121,7 @@ def main(args_dict: "Dict") -> "None":
 
 if __name__ == '__main__':
     main_parser = specific_program_options()
-    arguments_dict = gu.convert_keyval_params_type(vars(main_parser.parse_args()))
+    arguments_dict = vars(main_parser.parse_args())
     ini_file = arguments_dict['ini_file']
     if ini_file is not None and ini_file != "None":
         cfg = ConfigParser()
@@ -131,6 +132,8 @@ if __name__ == '__main__':
         invalid_keys = set(ini_kwargs.keys()) - set(arguments_dict.keys())
         if len(invalid_keys):
             raise KeyError(f"Invalid config keys: {''.join(invalid_keys)}")
-        arguments_dict.update(ini_kwargs)
+        # options of the ini file have the same types as those of the command line, and override them
+        ini_args = [f"--{key}={value}" for key, value in ini_kwargs.items()]
+        arguments_dict = vars(main_parser.parse_args(sys.argv[1:] + ini_args))
 
     main(arguments_dict)
diff --git a/bin/run_seyfert b/bin/run_seyfert
index 6a4684c..341199e 100644
--- a/bin/run_seyfert
+++ b/bin/run_seyfert
@@ -29,9 +29,9 @@ def program_options():
     parser.add_argument("--input_data_dir", "-i", required=False, type=Path,
                         default=fsu.default_seyfert_input_data_dir(),
                         help="REQUIRED: path to the directory containing input data for the forecast")
-    parser.add_argument("--test_batch", nargs='?', default=False, const=True,
+    parser.add_argument("--test_batch", nargs='?', default=False, const=True, type=formatters.str_to_bool,
                         help="Flag for testing batch mode")
-    parser.add_argument("--is_batch_job", nargs='?', default=False, const=True,
+    parser.add_argument("--is_batch_job", nargs='?', default=False, const=True, type=formatters.str_to_bool,
                         help="Flag to signal if the script has been submitted by bsub")
 
     return parser
diff --git a/seyfert/config/cmd_line.py b/seyfert/config/cmd_line.py
index 96891ae..20f020f 100644
--- a/seyfert/config/cmd_line.py
+++ b/seyfert/config/cmd_line.py
@@ -6,6 +6,7 @@ import json
 from argparse import Namespace
 from seyfert.base_structs.generic_dict import DictLike
 from seyfert.utils import filesystem_utils as fsu
+from seyfert.utils.formatters import str_to_bool
 import logging
 
 logger = logging.getLogger(__name__)
@@ -171,13 +172,13 @@ def main_submitter_batch_options() -> "argparse.ArgumentParser":
 def forecast_task_flags() -> "argparse.ArgumentParser":
     parser = argparse.ArgumentParser(add_help=False)
 
-    parser.add_argument("--powerspectrum", "-pmm", nargs='?', default=False, const=True,
+    parser.add_argument("--powerspectrum", "-pmm", nargs='?', default=False, const=True, type=str_to_bool,
                         help='OPTIONAL: Flag for computing matter power spectrum')
-    parser.add_argument("--angular", "-cl", nargs='?', default=False, const=True,
+    parser.add_argument("--angular", "-cl", nargs='?', default=False, const=True, type=str_to_bool,
                         help='OPTIONAL: Flag for computing angular coefficients')
-    parser.add_argument("--derivative", "-der", nargs='?', default=False, const=True,
+    parser.add_argument("--derivative", "-der", nargs='?', default=False, const=True, type=str_to_bool,
                         help='OPTIONAL: Flag for computing angular coefficients derivatives')
-    parser.add_argument("--fisher", "-fish", nargs='?', default=False, const=True,
+    parser.add_argument("--fisher", "-fish", nargs='?', default=False, const=True, type=str_to_bool,
                         help='OPTIONAL: Flag for computing fisher matrix elements')
 
     return parser
-- 
2.43.0


From b031acad0290cfaa40db6036dd91b4588798f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 54/97] fix: multi-runs use the given input data directory and
 can compute power spectra

---
 bin/orchestrate_run           |  2 +-
 seyfert/main/orchestration.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bin/orchestrate_run b/bin/orchestrate_run
index 8573972..0e59829 100755
--- a/bin/orchestrate_run
+++ b/bin/orchestrate_run
@@ -55,7 +55,7 @@ def main(args):
     fcfgs = args.forecast_configs
 
     if not create_cfg:
-        if not any([args.angular, args.derivative, args.fisher]):
+        if not any([args.powerspectrum, args.angular, args.derivative, args.fisher]):
             raise Exception("You must specify at least a task!")
         if ex is None:
             raise ValueError("execution mode is required")
diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 8545342..edf1dcd 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -162,8 +162,6 @@ def do_multiple_new_seyfert_runs(pmm_dirs: "List[Union[str, Path]]", configs: "D
 
 def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
                        use_fisher_as_id=True, use_angular_as_id=True) -> "str":
-    input_data_dir = fsu.default_seyfert_input_data_dir()
-
     fcfg = Path(keyval_args['fcfg'])
     fcfg_id, _, _ = gu.split_run_id(fcfg.stem)
 
@@ -185,7 +183,6 @@ def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
         run_id += f'_{pmm_id}'
 
     keyval_args['id'] = run_id
-    keyval_args['i'] = input_data_dir
 
     cmd = build_seyfert_cmd(args, keyval_args)
     logger.info(f"RUN ID: {run_id}")
@@ -207,7 +204,7 @@ def build_seyfert_cmd(args: "argparse.Namespace", keyval_args: "Dict") -> "str":
     kwargs_str = " ".join([f"-{key} {value}" for key, value in keyval_args.items()])
     add_flags_str = " ".join([f"--{flag}" for flag in args.additional_flags])
     task_flags_str = " ".join([
-        f"--{task_flag_key}" for task_flag_key in ["angular", "derivative", "fisher"]
+        f"--{task_flag_key}" for task_flag_key in ["powerspectrum", "angular", "derivative", "fisher"]
         if getattr(args, task_flag_key)
     ])
 
@@ -226,7 +223,6 @@ def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[st
     input_files = ws.theInputFilesDict()
     keyval_args = {
         'rd': ws.run_dir,
-        'i': fsu.default_seyfert_input_data_dir(),
         'fcfg': ws.run_dir / input_files['forecast'],
         'pmm_cfg': ws.run_dir / input_files['PowerSpectrum'],
         'cl_cfg': ws.run_dir / input_files['Angular'],
@@ -240,7 +236,11 @@ def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[st
 
 
 def update_key_val_args_from_cli_args(args: "argparse.Namespace", keyval_args: "Dict"):
+    input_data_dir = args.input_data_dir
+    if input_data_dir is None:
+        input_data_dir = fsu.default_seyfert_input_data_dir()
     keyval_args.update({
+        'i': input_data_dir,
         'ex': args.execution, 'q': args.queue, 'ncj': args.n_cores_per_job, 'mem': args.memory
     })
 
-- 
2.43.0


From c482e27be28624dc927ca201f7aeb794578ac2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 55/97] fix: the power spectra of a multi-run are not replaced
 by those of external_dirs.json

---
 seyfert/main/orchestration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index edf1dcd..cccaa6f 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -136,15 +136,15 @@ def do_multiple_new_seyfert_runs(pmm_dirs: "List[Union[str, Path]]", configs: "D
                         'fcfg': fcfg, 'cl_cfg': cl_cfg, 'fish_cfg': fish_cfg
                     }
                     update_key_val_args_from_cli_args(args, keyval_args)
-                    if pmm_dir is not None:
-                        logger.info(f"Power spectra {idx_pmm + 1}/{n_pmms}: {pmm_dir}")
-                        keyval_args['pmm_dir'] = pmm_dir
                     keyval_args.update({
                         key: configs[key] for key in ['pmm_cfg', 'der_cfg', 'res_cfg']
                     })
                     keyval_args.update({
                         dir_key: dir_path for dir_key, dir_path in configs['ext_dirs'].items() if dir_path is not None
                     })
+                    if pmm_dir is not None:
+                        logger.info(f"Power spectra {idx_pmm + 1}/{n_pmms}: {pmm_dir}")
+                        keyval_args['pmm_dir'] = pmm_dir
 
                     run_id = do_new_seyfert_run(args=args, keyval_args=keyval_args,
                                                 use_fisher_as_id=use_fisher_as_id,
-- 
2.43.0


From 07da491566e4b6c47d8efcb333fc4677822b6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 56/97] fix: a multi-run with several configurations where one
 is used is refused, not run with any of them

---
 seyfert/main/orchestration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index cccaa6f..69819ce 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -49,12 +49,12 @@ def get_configs(cfg_dir: "Union[str, Path]") -> "Dict":
     configs = {}
     for subdir in filter(lambda x: x.is_dir(), Path(cfg_dir).iterdir()):
         name = subdir.name
-        content = list(subdir.iterdir())
-        if name == 'fcfg':
-            configs['fcfg'] = list(subdir.glob("*.json"))
-        elif name == 'fish_cfg' or name == 'cl_cfg':
-            configs[name] = list(subdir.glob("*.json"))
-        else:
+        content = list(subdir.glob("*.json"))
+        if name in {'fcfg', 'fish_cfg', 'cl_cfg'}:
+            configs[name] = content
+        elif name in {'pmm_cfg', 'der_cfg', 'res_cfg'}:
+            if len(content) != 1:
+                raise Exception(f"There must be exactly one json file into {subdir}, found {len(content)}")
             configs[name] = content[0]
 
     with open(cfg_dir / 'external_dirs.json', mode='r') as jsf:
-- 
2.43.0


From e34fdd7c6e8fa4f97657aeaec52d1591beedd444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 57/97] fix: runs of a multi-run with equal labels have
 different run identifiers

---
 seyfert/main/orchestration.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 69819ce..c20c18d 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -148,7 +148,8 @@ def do_multiple_new_seyfert_runs(pmm_dirs: "List[Union[str, Path]]", configs: "D
 
                     run_id = do_new_seyfert_run(args=args, keyval_args=keyval_args,
                                                 use_fisher_as_id=use_fisher_as_id,
-                                                use_angular_as_id=use_angular_as_id)
+                                                use_angular_as_id=use_angular_as_id,
+                                                taken_ids=run_ids)
                     run_ids.append(run_id)
                     logger.info("Done")
                     logger.info(f'\n{"-" * 115}\n')
@@ -161,7 +162,7 @@ def do_multiple_new_seyfert_runs(pmm_dirs: "List[Union[str, Path]]", configs: "D
 
 
 def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
-                       use_fisher_as_id=True, use_angular_as_id=True) -> "str":
+                       use_fisher_as_id=True, use_angular_as_id=True, taken_ids: "List[str]" = ()) -> "str":
     fcfg = Path(keyval_args['fcfg'])
     fcfg_id, _, _ = gu.split_run_id(fcfg.stem)
 
@@ -182,6 +183,11 @@ def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
         logger.info(f"Appending pmm id {pmm_id} to run_id")
         run_id += f'_{pmm_id}'
 
+    base_run_id, n_same_id = run_id, 1
+    while run_id in taken_ids:
+        n_same_id += 1
+        run_id = f'{base_run_id}_{n_same_id}'
+
     keyval_args['id'] = run_id
 
     cmd = build_seyfert_cmd(args, keyval_args)
-- 
2.43.0


From 4c32f1359c47202eff1a24fba3cecbe354344d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 58/97] fix: lists of run directories can be json files, blank
 lines in lists are no paths

---
 bin/evaluate_final_results    |  2 +-
 bin/orchestrate_run           |  2 +-
 seyfert/config/cmd_line.py    | 15 +++++++++++++--
 seyfert/main/orchestration.py |  2 +-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/bin/evaluate_final_results b/bin/evaluate_final_results
index 5a070ed..ee76837 100755
--- a/bin/evaluate_final_results
+++ b/bin/evaluate_final_results
@@ -66,7 +66,7 @@ def main(args: "argparse.Namespace"):
     script_name = Path(__file__).name
     workdir = args.workdir
     general_utils.configure_logger(logger, logfile=workdir / f"logfile_{script_name}.log")
-    input_rundirs = cmd_line.get_paths_from_files_list(args.input_rundirs)
+    input_rundirs = cmd_line.get_rundirs_from_paths_list(args.input_rundirs)
     execution = args.execution
 
     if execution == 'interactive':
diff --git a/bin/orchestrate_run b/bin/orchestrate_run
index 0e59829..3308ae6 100755
--- a/bin/orchestrate_run
+++ b/bin/orchestrate_run
@@ -76,7 +76,7 @@ def main(args):
         input_rundirs = args.rundirs
 
         if input_rundirs is not None:
-            input_rundirs = cmd_line.get_paths_from_files_list(input_rundirs)
+            input_rundirs = cmd_line.get_rundirs_from_paths_list(input_rundirs)
             orchestration.do_multiple_seyfert_runs_on_existing_rundirs(args, input_rundirs=input_rundirs)
         else:
             # overwrite default forecast configs list if argument -fcfgs is passed
diff --git a/seyfert/config/cmd_line.py b/seyfert/config/cmd_line.py
index 20f020f..0add6bb 100644
--- a/seyfert/config/cmd_line.py
+++ b/seyfert/config/cmd_line.py
@@ -231,7 +231,7 @@ def get_paths_from_files_list(paths_list: "List[Union[str, Path]]") -> "List[Pat
     if all(Path(path).suffix == '.txt' for path in paths_list):
         logger.info("paths list contains only txt files")
         for file in paths_list:
-            resulting_paths.extend([Path(line.strip()) for line in Path(file).read_text().splitlines()])
+            resulting_paths.extend([Path(line.strip()) for line in Path(file).read_text().splitlines() if line.strip()])
     else:
         logger.info("neither all json nor all txt, returning the entered list of paths")
         resulting_paths = [Path(path) for path in paths_list]
@@ -239,6 +239,17 @@ def get_paths_from_files_list(paths_list: "List[Union[str, Path]]") -> "List[Pat
     return resulting_paths
 
 
+def get_rundirs_from_paths_list(paths_list: "List[Union[str, Path]]") -> "List[Path]":
+    rundirs = []
+    for path in paths_list:
+        if Path(path).suffix in {'.json', '.txt'}:
+            rundirs.extend([Path(line) for line in read_json_txt_list_file(path)])
+        else:
+            rundirs.append(Path(path))
+
+    return rundirs
+
+
 def read_json_txt_list_file(filepath: "Union[str, Path]") -> "List[str]":
     filepath = Path(filepath)
     extension = filepath.suffix
@@ -246,7 +257,7 @@ def read_json_txt_list_file(filepath: "Union[str, Path]") -> "List[str]":
         with filepath.open() as jsf:
             result = json.load(jsf)
     elif extension in {'.txt', '.dat'}:
-        result = [line.strip() for line in filepath.read_text().splitlines()]
+        result = [line.strip() for line in filepath.read_text().splitlines() if line.strip()]
     else:
         raise Exception(f"Unrecognized file extension {extension}")
 
diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index c20c18d..317d70b 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -75,7 +75,7 @@ def get_pmm_dirs(args: "argparse.Namespace") -> "List":
         elif pmms.is_file():
             if not pmms.name.endswith('txt'):
                 raise Exception(f"Invalid powerspectra file format {pmms.name}, it must have txt extension")
-            pmm_dirs = [Path(line) for line in pmms.read_text().splitlines()]
+            pmm_dirs = [Path(line.strip()) for line in pmms.read_text().splitlines() if line.strip()]
             for pmm_dir in pmm_dirs:
                 if not pmm_dir.exists():
                     raise FileNotFoundError(pmm_dir)
-- 
2.43.0


From abf5380df8785b468743104180cfa2d7275a57f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 59/97] fix: run directories whose names only begin alike are
 not listed among those of a multi-run

---
 seyfert/main/orchestration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 317d70b..7dd89ac 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -8,6 +8,7 @@ import json
 import time
 import subprocess
 
+from seyfert import VERSION
 from seyfert.utils import general_utils as gu
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import formatters as fm
@@ -258,7 +259,7 @@ def collect_rundirs(workdir: "Path", run_ids: "List[str]") -> "List[Path]":
     rundirs = []
     for x in workdir.iterdir():
         if x.is_dir():
-            if any(x.name.startswith(run_id) for run_id in run_ids):
+            if any(f'{x.name}_'.startswith(f'{run_id}_{VERSION}_') for run_id in run_ids):
                 rundirs.append(x)
 
     return rundirs
-- 
2.43.0


From 02d1b5f282e6a8ec864d7d803ad9dd5fa7861849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 60/97] fix: multi-runs on existing run directories use the
 input data of the run

---
 seyfert/main/orchestration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 7dd89ac..a4d58f0 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -237,6 +237,8 @@ def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[st
         'fish_cfg': ws.run_dir / input_files['Fisher']
     }
     update_key_val_args_from_cli_args(args, keyval_args)
+    if args.input_data_dir is None:
+        keyval_args['i'] = ws.getInputDataDirPath()
     cmd = build_seyfert_cmd(args, keyval_args)
     logger.info(f"Running cmd {cmd}")
     subprocess.run(cmd, shell=True)
-- 
2.43.0


From 79a079ae6579f06bf06f0d16fb68f1c4702f604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 61/97] fix: reports read the logs batch jobs write, those of
 the latest execution

---
 seyfert/main/report_maker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 1b83691..5d37466 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -66,8 +66,8 @@ class JobReport:
         return job_report_string
 
     def getFiles(self) -> None:
-        self.err_file = self.getFilePathFromJobdirWithPattern('job*.err')
-        self.out_file = self.getFilePathFromJobdirWithPattern('job*.out')
+        self.err_file = self.getFilePathFromJobdirWithPattern('*.err')
+        self.out_file = self.getFilePathFromJobdirWithPattern('*.out')
         self.log_file = self.getFilePathFromJobdirWithPattern('*.log')
         self.output_file = self.getFilePathFromJobdirWithPattern(self.output_file_pattern)
 
@@ -128,7 +128,8 @@ class JobReport:
 
     def getFilePathFromJobdirWithPattern(self, pattern: str) -> "Union[Path, None]":
         file_candidates = list(self.jobdir.glob(f'{pattern}'))
-        file_path = file_candidates[0] if len(file_candidates) > 0 else None
+        # the names of batch logs end with the time of submission, the last ones belong to the latest execution
+        file_path = max(file_candidates, key=lambda x: x.name) if len(file_candidates) > 0 else None
         return file_path
 
 
-- 
2.43.0


From 4b0f5a4223fcf44ff18f8952b419013631fc3749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 62/97] fix: jobs with an output log but no error log can be
 reported

---
 seyfert/main/report_maker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 5d37466..d5b1a33 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -59,7 +59,7 @@ class JobReport:
             if self.status != NOT_EXECUTED_STRING:
                 job_report_string += f'- Core Dump: {self.core_dumped}\n'
                 job_report_string += f'- Errfile Path: {self.err_file}\n'
-                err_content = self.err_file.read_text()
+                err_content = self.err_file.read_text() if self.err_file is not None else ''
                 if err_content:
                     job_report_string += f'- Errfile Content: \n{err_content}\n'
         job_report_string += '\n'
-- 
2.43.0


From 5df460931f3fb57b3f1dfc1f7650654c16987848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 63/97] fix: reported durations of a day or more are not cut to
 less than a day

---
 seyfert/main/bsub_utils.py   | 2 +-
 seyfert/main/report_maker.py | 2 +-
 seyfert/main/task_runners.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 63b87b6..6fbafed 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -205,7 +205,7 @@ class BsubInterface:
             row = {
                 "fisher": fisher,
                 "start_time": start_time, "end_time": end_time,
-                "duration_s": (end_time - start_time).seconds
+                "duration_s": (end_time - start_time).total_seconds()
             }
             row.update({key: float(pattern.search(text).groups()[0]) for key, pattern in regexps.items()})
             rows.append(row)
diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index d5b1a33..aca5303 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -116,7 +116,7 @@ class JobReport:
                 tf_string = self.convertDateTimeString(tf_string)
                 times['tf'] = datetime.datetime.strptime(tf_string, '%Y %b %d %H:%M:%S')
         try:
-            execution_time_secs = (times['tf'] - times['ti']).seconds
+            execution_time_secs = (times['tf'] - times['ti']).total_seconds()
         except KeyError:
             execution_time_secs = 0
         return execution_time_secs
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index e7a1954..f9efe84 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -607,7 +607,7 @@ class ForecastRunner:
     
     def addTimingDataToMetadata(self):
         if self.end_datetime is not None:
-            duration = fm.string_time_format((self.end_datetime - self.start_datetime).seconds)
+            duration = fm.string_time_format((self.end_datetime - self.start_datetime).total_seconds())
             self.metadata.update({
                 "start_time": fm.datetime_str_format(self.start_datetime, hour_sep=':'),
                 "end_time": fm.datetime_str_format(self.end_datetime, hour_sep=':'),
-- 
2.43.0


From be2014ce33c825f64e297794a135b85382f14b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 64/97] fix: stages without jobs can be reported, and are not
 successful ones

---
 seyfert/main/report_maker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index aca5303..a968f3d 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -168,7 +168,8 @@ class TaskReportMaker:
             self.mean_exec_time += job_report.execution_time_secs
             self.total_output_size_MB += job_report.output_size_MB
         self.n_jobs = len(self.job_reports)
-        self.mean_exec_time /= self.n_jobs
+        if self.n_jobs > 0:
+            self.mean_exec_time /= self.n_jobs
         if all([x.job_id is not None for x in self.job_reports]):
             self.job_reports.sort(key=lambda x: x.job_id)
 
@@ -202,10 +203,10 @@ class TaskReportMaker:
 
         if self.n_failed_jobs > 0:
             self.status = FAILURE_STRING
-        elif self.n_succeeded_jobs == self.n_jobs:
-            self.status = SUCCESS_STRING
         elif self.n_not_executed_jobs == self.n_jobs:
             self.status = NOT_EXECUTED_STRING
+        elif self.n_succeeded_jobs == self.n_jobs:
+            self.status = SUCCESS_STRING
         elif all([job.status == SUCCESS_STRING or job.status == NOT_EXECUTED_STRING
                   for job in self.job_reports]):
             self.status = NOT_COMPLETED_STRING
@@ -256,7 +257,7 @@ class RunReportMaker:
         run_name = self.rundir.name
         self.report_outfile = self.rundir / f'report_{run_name}.log'
         self.summary_outfile = self.rundir / f'summary_{run_name}.log'
-        if all([trm.status == SUCCESS_STRING for trm in self.task_report_makers]):
+        if self.task_report_makers and all([trm.status == SUCCESS_STRING for trm in self.task_report_makers]):
             self.status = SUCCESS_STRING
         elif any([trm.status == FAILURE_STRING for trm in self.task_report_makers]):
             self.status = FAILURE_STRING
-- 
2.43.0


From ec3ec2eb109ca85331d3cdd4209542c1a1ade16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 65/97] fix: jobs are reported in the order of their numbers

---
 seyfert/main/report_maker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index a968f3d..a15ca2b 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -171,7 +171,7 @@ class TaskReportMaker:
         if self.n_jobs > 0:
             self.mean_exec_time /= self.n_jobs
         if all([x.job_id is not None for x in self.job_reports]):
-            self.job_reports.sort(key=lambda x: x.job_id)
+            self.job_reports.sort(key=lambda x: int(x.job_id))
 
     def writeToFiles(self, report_outfile=None, summary_outfile=None) -> None:
         summary_outfile.write(self.summary)
-- 
2.43.0


From 41fc4d8a1d97b7302cfd46d6190e637119331d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 66/97] fix: jobs ended by the batch system before completing
 are not reported as successful

---
 seyfert/main/report_maker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index a15ca2b..cba6843 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -35,6 +35,7 @@ class JobReport:
         self.regex_dict = {'job_id': re.compile(r'Job\s+([0-9]+)'),
                            'exec_host': re.compile(r'<([a-z0-9*]+)\.ge\.infn\.it>'),
                            'cpu_time': re.compile(r'CPU time\s*:\s+([0-9.]+)'),
+                           'exited': re.compile(r'^(Exited with |TERM_)', re.MULTILINE),
                            'core_dump': re.compile(r'[cC]ore\s+[dD]ump'),
                            'core_dump_file_pattern': re.compile(r'core\.[0-9]+')}
         self.core_dumped = False
@@ -72,14 +73,15 @@ class JobReport:
         self.output_file = self.getFilePathFromJobdirWithPattern(self.output_file_pattern)
 
     def evaluateJobStatus(self) -> None:
-        if self.err_file is None:
+        exited = self.out_file is not None and bool(self.regex_dict['exited'].search(self.out_file.read_text()))
+        if self.err_file is None and not exited:
             if self.out_file is None:
                 self.status = NOT_EXECUTED_STRING
             else:
                 self.status = UNDEFINED_STRING
         else:
-            err_content = self.err_file.read_text()
-            if len(err_content) > 0:
+            err_content = self.err_file.read_text() if self.err_file is not None else ''
+            if len(err_content) > 0 or exited:
                 self.status = FAILURE_STRING
                 core_dump_files = [x for x in self.jobdir.iterdir()
                                    if self.regex_dict["core_dump_file_pattern"].match(x.name)]
-- 
2.43.0


From cda011979d6d9d658a050aafd8fbdaa8b09e4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 67/97] fix: resource usage tables are made for jobs of any
 year

---
 seyfert/main/bsub_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 6fbafed..a66749c 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -188,7 +188,7 @@ class BsubInterface:
                 break
 
     def getResourceUsageTable(self, out_files_dir: "Path"):
-        outname_regex = re.compile(r"^out_(.*)_202[0-1]")
+        outname_regex = re.compile(r"^out_(.*)_[0-9]{4}-[0-9]{2}-[0-9]{2}T")
         regexps = {
             "cpu_time_s": re.compile(r"CPU time\s*:\s+([0-9\.]+)"),
             "max_mem_MB": re.compile(r"Max Memory\s*:\s+([0-9\.]+)"),
-- 
2.43.0


From 116b3d3eff82db25e2312c080415302b2828bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 68/97] fix: the report of a batch run is written

---
 bin/job_submitter | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 8b2de1e..58e6514 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -98,12 +98,11 @@ def main(args_dict: "Dict") -> "None":
     rundir = runner.rundir
 
     if execution == 'batch':
-        if runner.tasks['Fisher'].is_present and not any([runner.tasks[name].is_present for name in runner.tasks]):
-            logger.info(f'Writing jobs report')
-            rrm = RunReportMaker(rundir=rundir)
-            rrm.buildTaskReportMakers()
-            rrm.writeReportFiles()
-            logger.info(f'\n{rrm.run_summary}')
+        logger.info(f'Writing jobs report')
+        rrm = RunReportMaker(rundir=rundir)
+        rrm.buildTaskReportMakers()
+        rrm.writeReportFiles()
+        logger.info(f'\n{rrm.run_summary}')
 
     if execution != 'no' and runner.cl_task.is_present and not args_dict["keep_cl_variations"]:
         cl_var_dirs = runner.workspace.collectClVariationDirectories()
-- 
2.43.0


From f46dab70907ca6bde071d01c2c8eb8cd7ca99626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 69/97] fix: analyses can be selected by scenario

---
 seyfert/fisher/results_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 0c2e9d8..6e15fd2 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -119,7 +119,7 @@ class ResultsCollector:
         self.analyses_df.reset_index(inplace=True)
 
     def getFisherAnalysesSubDf(self, sel_dict: "Dict", sel_fishers: "List[str]" = None) -> "pd.DataFrame":
-        query_str = " and ".join(f"{key} == {value}" for key, value in sel_dict.items())
+        query_str = " and ".join(f"{key} == {value!r}" for key, value in sel_dict.items())
         subdf = self.analyses_df.query(query_str).reset_index()
 
         if sel_fishers is not None:
-- 
2.43.0


From 37054c7e4016d7389bc48e0da923a5e87e065e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 70/97] fix: collected analyses are listed with their own
 options, whatever their order

---
 seyfert/fisher/results_collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 6e15fd2..43bd77d 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -67,9 +67,9 @@ class ResultsCollector:
         rows = []
         for i, ws in enumerate(self.ws_list):
             an = FisherAnalysis.fromRundir(ws.run_dir, cosmology=cosmology, res_subdir_name=res_subdir_name)
-            rows.append([*self.fcfg_list[i].synthetic_opts.values(), an])
+            rows.append({**self.fcfg_list[i].synthetic_opts, 'analysis': an})
 
-        an_df = pd.DataFrame(rows, columns=[*self.fcfg_list[0].synthetic_opts.keys(), 'analysis'])
+        an_df = pd.DataFrame(rows)
 
         return an_df
 
-- 
2.43.0


From 851267f309d5196300e52a6f3eec43e188446d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 71/97] fix: relative errors follow the replacement of hybrid
 matrices

---
 seyfert/fisher/results_collector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 43bd77d..f66532f 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -115,6 +115,8 @@ class ResultsCollector:
                     if "Pk" in fisher_name:
                         an_current.fisher_matrices[fisher_name] = an_4_bins.fisher_matrices[fisher_name]
                         an_current.marginalized_errors.loc[fisher_name] = an_4_bins.marginalized_errors.loc[fisher_name]
+                        an_current.relative_marginalized_errors.loc[fisher_name] = \
+                            an_4_bins.relative_marginalized_errors.loc[fisher_name]
 
         self.analyses_df.reset_index(inplace=True)
 
-- 
2.43.0


From 397057042dc8f98e247a51ca0ad571e6fc0894a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 72/97] fix: additional patterns do not select directories
 which do not name a run

---
 seyfert/utils/dir_explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/dir_explorer.py b/seyfert/utils/dir_explorer.py
index 4aa8b5a..5261423 100644
--- a/seyfert/utils/dir_explorer.py
+++ b/seyfert/utils/dir_explorer.py
@@ -35,7 +35,7 @@ class DirectoryExplorer:
 
     def getDirMatches(self, direc: "Path", add_patterns: "List[str]" = None) -> "List[re.Match]":
         matches = self.getMandatoryDirectoryMatches(direc)
-        if add_patterns is not None:
+        if matches and add_patterns is not None:
             matches += [re.search(pattern, direc.name) for pattern in add_patterns]
 
         return matches
-- 
2.43.0


From 339640e08b3f4d6dab0ca6af62456f1791e9e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:14 +0000
Subject: [PATCH 73/97] fix: the shipped power-spectrum configuration can be
 run with CAMB

The reference settings it named give the densities with use_physical = F,
which CAMB refuses, and do not name the amplitude as the solver reads it.
---
 seyfert/data/config_files/power_spectrum_config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/data/config_files/power_spectrum_config.json b/seyfert/data/config_files/power_spectrum_config.json
index cff662b..6787484 100644
--- a/seyfert/data/config_files/power_spectrum_config.json
+++ b/seyfert/data/config_files/power_spectrum_config.json
@@ -9,7 +9,7 @@
     "camb": {
       "k_max": 50,
       "k_per_logint": 65,
-      "ini_filename": "cosmoist_params_full_withnu.ini"
+      "ini_filename": "edited_cosmoist_params_full_withnu.ini"
     },
     "class": {
       "k_max": 50,
-- 
2.43.0


From fbf44cf6ce2fbef35a4fce5b2de34e9d494967c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:14 +0000
Subject: [PATCH 74/97] fix: reference settings may name amplitude and spectral
 index as older versions of CAMB did

---
 seyfert/cosmology/boltzmann_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seyfert/cosmology/boltzmann_solver.py b/seyfert/cosmology/boltzmann_solver.py
index 0016a5a..3a10995 100644
--- a/seyfert/cosmology/boltzmann_solver.py
+++ b/seyfert/cosmology/boltzmann_solver.py
@@ -179,6 +179,10 @@ class CAMBBoltzmannSolver(ExternalBoltzmannSolver):
                 entries[name.strip()] = value.strip()
             else:
                 pass
+        # CAMB accepts the settings the solver changes under their older, indexed names too
+        for name in ("scalar_amp", "scalar_spectral_index"):
+            if f"{name}(1)" in entries:
+                entries.setdefault(name, entries.pop(f"{name}(1)"))
         return entries
 
     @staticmethod
-- 
2.43.0


From 224a5e844e7e138e9fc1142f5f8ce8a9f4f55146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 75/97] fix: parameters unknown to the IST are removed without
 breaking the loop over them

---
 seyfert/file_io/ext_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 516abdd..e4cb08b 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -65,7 +65,7 @@ class ISTInputReader:
     def checkISTParams(self):
         our_params = set(IST_PMM_COSMO_MAP.values())
         assert set(self.pars.cosmological_parameters.keys()).issuperset(our_params)
-        for key in self.pars:
+        for key in list(self.pars):
             if key not in our_params:
                 logger.warning(f'param {key} not present in IST params, removing it')
                 del self.pars[key]
-- 
2.43.0


From a8e0bfa718375468fc3c956e052f0ac646bdebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 76/97] fix: imported angular spectra of different multipoles
 are refused with the intended error

---
 seyfert/file_io/ext_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index e4cb08b..67f8dcf 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -144,7 +144,7 @@ class ISTInputReader:
             cl_coll.saveToHDF5(out_file)
 
         if len(ell_shapes) != 1:
-            raise ValueError(f'Too many ell shapes: {" ".join(ell_shapes)}')
+            raise ValueError(f'Too many ell shapes: {" ".join(map(str, ell_shapes))}')
 
     def readSCameraClDerivatives(self, src_dir: "Union[str, Path]") -> "Dict":
         src_dir = Path(src_dir)
-- 
2.43.0


From 7c2f5e84c9cd9610e79432fa4ab004d7f69f783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 77/97] fix: change of parameters of matrices with more than
 ten biases or with intrinsic alignment

The symbols were named by their TeX form: the biases 1 and 10 had the same one,
and a form with a blank stood for several symbols.
---
 seyfert/utils/ist_comparison.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/utils/ist_comparison.py b/seyfert/utils/ist_comparison.py
index f62567e..b9cc43f 100644
--- a/seyfert/utils/ist_comparison.py
+++ b/seyfert/utils/ist_comparison.py
@@ -1,5 +1,5 @@
 from typing import Dict
-from sympy import symbols, Matrix
+from sympy import Dummy, Matrix
 from functools import partial
 import re
 import json
@@ -89,7 +89,7 @@ def compute_deltas_errs(errs: "pd.DataFrame"):
 
 
 def get_params_bases(f, fiducials):
-    theta = dict(zip(f.index, symbols([translator.PhysParNameToTeX(name) for name in f.index])))
+    theta = dict(zip(f.index, [Dummy(translator.PhysParNameToTeX(name)) for name in f.index]))
     fid_theta = {theta[name]: fiducials[name] for name in theta}
 
     thetap = {}
-- 
2.43.0


From 7673502c0fb236593f9b11b51d438b5d452424d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:33 +0000
Subject: [PATCH 78/97] fix: tables of angular spectra with a single multipole
 can be read

---
 seyfert/file_io/ext_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 67f8dcf..9e123cd 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -231,7 +231,7 @@ class ISTInputReader:
 
         i, j, shape_ij = self.getIndicesFromSCameraClFileHeader(hdr, symmetric)
 
-        data = np.loadtxt(file)
+        data = np.loadtxt(file, ndmin=2)
         ells = data[:, 0]
         cl_data = data[:, 1:]
         clij = np.zeros((len(ells), *shape_ij))
-- 
2.43.0


From f4760431f50809d3fc983e3348085989bde0af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:45 +0000
Subject: [PATCH 79/97] fix: plots can be configured by a dictionary, whose
 colours and confidence levels are used

---
 seyfert/fisher/fisher_plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index c6b06e6..d914240 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -262,13 +262,15 @@ class FisherPlotter:
             config_file = fsu.config_files_dir() / 'results_config.json'
             logger.info(f"Using default config {config_file}")
         else:
-            if config_file is None:
+            if config_file is None and config_dict is None:
                 raise ValueError('config file path needed when not using default. If you want to use '
                                  'the default one, call this function as "setPlotConfig(use_default=True)"')
 
         self.config = FisherPlotConfig(n_cosmo_pars=self.n_cosmo_pars, config_file=config_file)
         if config_dict is not None:
-            self.config.config_dict.update(config_dict)
+            settings = {} if self.config.config_dict is None else dict(self.config.config_dict)
+            settings.update(config_dict)
+            self.config.loadFromConfigDict(settings)
 
         self.params_ticks_fmts = {name: f"%.{self.config.ticks_label_num_digits}g" for name in self.pars_to_plot}
 
-- 
2.43.0


From 4d7b9f2d3048cfc15726773d627b488aaae7275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:45 +0000
Subject: [PATCH 80/97] fix: plots of all correlation matrices can be made,
 also of combined matrices

---
 seyfert/fisher/fisher_plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index d914240..669ff16 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -322,8 +322,8 @@ class FisherPlotter:
                 self.setPlotProperties(i, j)
 
     def makeAllCorrelationPlots(self, outdir: "Union[str, Path]" = None, close_fig: "bool" = True) -> "None":
-        for name, correlation_matrix in self.analysis.correlation_matrices.items():
-            fig, ax = self.makeSingleCorrelationPlot(name, correlation_matrix)
+        for name in self.analysis.correlation_matrices:
+            fig, ax = self.makeSingleCorrelationPlot(name)
             if outdir is not None:
                 outfile_name = f'correlation_{self.analysis.name}_{name}.pdf'
                 outfile_path = Path(outdir) / outfile_name
@@ -338,7 +338,7 @@ class FisherPlotter:
         ax = plot_utils.heatmap(corr, usetex=True, vmin=-1.0, vmax=1.0,
                                 cmap='bwr', alpha=0.9, square=True, cbar_kws={'shrink': 0.825})
 
-        ax.set_title(rf'${self.translator.ProbeNameToTeX(name)}$')
+        ax.set_title(rf'${self.translator.translateToTeX(name)}$')
 
         return fig, ax
 
-- 
2.43.0


From 96d9e5ce93e901e30d17ca9da4559f8681fc50da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:45 +0000
Subject: [PATCH 81/97] fix: plot ranges are kept when the file asked for does
 not exist

---
 seyfert/fisher/fisher_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index 669ff16..baf02d9 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -242,7 +242,6 @@ class FisherPlotter:
 
     def setParametersPlotRanges(self, ranges_file: "Union[str, Path]" = None) -> "None":
         logger.info("Setting parameters plot ranges")
-        self.config.plot_ranges = {}
         if ranges_file is not None:
             ranges_file = Path(ranges_file)
             if not ranges_file.exists():
@@ -252,6 +251,7 @@ class FisherPlotter:
                 self.config.plot_ranges = json.load(jsf)
         else:
             logger.info(f"Computing plot ranges on the fly")
+            self.config.plot_ranges = {}
             for name in self.pars_to_plot:
                 self.config.plot_ranges[name] = self.computePlotRangeForParameter(name)
 
-- 
2.43.0


From 9739448a31a3f1dcf81841b89a5ed08d629f49d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:45 +0000
Subject: [PATCH 82/97] fix: biases of bins with two digits have labels of
 their own

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index c684c47..ae6be02 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -5,7 +5,7 @@ import copy
 
 class TeXTranslator:
     def __init__(self):
-        self.bias_regex = re.compile("bg(ph|sp)([0-9])")
+        self.bias_regex = re.compile("bg(ph|sp)([0-9]+)$")
         self.probe_regex = re.compile(r"(WL|GCph|GCsp)")
         self.column_name_regex = re.compile(r" (FoM|Omm|Omb|h|ns|sigma8|w0|wa) ")
         self.probe_name_to_tex = {
-- 
2.43.0


From 7ef3e71b98520dbd36e25464ab1025a500fad65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:45 +0000
Subject: [PATCH 83/97] fix: plot ranges are written only if asked

---
 seyfert/notebook_helpers/contours.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/notebook_helpers/contours.py b/seyfert/notebook_helpers/contours.py
index d84bad7..8720dd8 100644
--- a/seyfert/notebook_helpers/contours.py
+++ b/seyfert/notebook_helpers/contours.py
@@ -153,8 +153,9 @@ def do_tri_plot(plotter: "FisherPlotter", plots_dir: "Path", print_opts=False, *
     misc.add_scenario_n_bins_text_box(pl_obj=fig, x=x_text, y=y_text, scenario=scenario, n_bins=n_bins,
                                       fontsize=fontsize)
 
-    ranges_outfile = root_dir / f"configs/ranges/{scenario}/{case}_{subcase}_{n_bins}_bins_ranges.json"
-    plotter.writeParameterPlotRangesToFile(ranges_outfile, overwrite=True)
+    if kwds['write_ranges']:
+        ranges_outfile = root_dir / f"configs/ranges/{scenario}/{case}_{subcase}_{n_bins}_bins_ranges.json"
+        plotter.writeParameterPlotRangesToFile(ranges_outfile, overwrite=True)
     if kwds['save']:
         outdir = plots_dir / f"{case}/{subcase}"
         outdir.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 9ea1f97a4e056c7aaf8db4d59492adee22a28cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:45 +0000
Subject: [PATCH 84/97] fix: results of several cosmologies are plotted with
 their configuration and can be read back

---
 seyfert/fisher/fisher_results.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/seyfert/fisher/fisher_results.py b/seyfert/fisher/fisher_results.py
index 910238b..dc84bad 100644
--- a/seyfert/fisher/fisher_results.py
+++ b/seyfert/fisher/fisher_results.py
@@ -5,7 +5,7 @@ import logging
 from pathlib import Path
 from seyfert.fisher.fisher_analysis import FisherAnalysis
 from seyfert.cosmology.parameter import PhysicalParametersCollection
-from seyfert.fisher.fisher_plot import FisherPlotter, FisherPlotConfig
+from seyfert.fisher.fisher_plot import FisherPlotter
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import formatters as fm
 
@@ -104,15 +104,10 @@ class FisherResultsCollector:
         for cosmology_name, cosmo_dict in self.cosmologies_dict.items():
             fish_analysis = self.analysis_dict[cosmology_name]
             pars_to_plot = cosmo_dict["pars_to_plot"]
-            fisher_plot_config = FisherPlotConfig(fishers=fish_analysis.fisher_matrices,
-                                                  n_cosmo_pars=len(pars_to_plot))
-            fisher_plot_config.loadFromConfigDict(self.plot_config_dict)
-            if self.plot_ranges_file is not None:
-                fisher_plot_config.loadParameterPlotRangesFromFile(self.plot_ranges_file)
-            fisher_plotter = FisherPlotter(fisher_analysis=fish_analysis,
-                                           config=fisher_plot_config,
-                                           pars_to_plot=pars_to_plot)
-            fisher_plotter.setUpDefault()
+            fisher_plotter = FisherPlotter(fisher_analysis=fish_analysis)
+            fisher_plotter.setParamsToPlot(pars_to_plot)
+            fisher_plotter.setPlotConfig(config_dict=self.plot_config_dict)
+            fisher_plotter.setParametersPlotRanges(ranges_file=self.plot_ranges_file)
             self.plotters_dict[cosmology_name] = fisher_plotter
 
     def writeResultsAndDoPlots(self, outdir: Union[str, Path]) -> None:
@@ -162,8 +157,8 @@ class FisherResultsCollector:
             fish_analysis = FisherAnalysis(cosmology_name=cosmology_name)
             fish_analysis.loadBaseFishersFromDir(subdirs_dict["fishers"])
             fish_analysis.useBaseFishers()
-            errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'errors*.csv')
-            relative_errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'relative_errors*.csv')
+            errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'marginalized_errors*.csv')
+            relative_errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'relative_marginalized_errors*.csv')
             fish_analysis.marginalized_errors = pd.read_csv(errors_file, index_col=0)
             fish_analysis.relative_marginalized_errors = pd.read_csv(relative_errors_file, index_col=0)
             for corr_file in subdirs_dict["correlations"].iterdir():
-- 
2.43.0


From 93f9703cf9439fd0604f8104f07e5d464c6f64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:07 +0000
Subject: [PATCH 85/97] fix: a single parameter can be plotted

---
 seyfert/fisher/fisher_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index baf02d9..04d3c53 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -285,7 +285,7 @@ class FisherPlotter:
         plt.rcParams['text.usetex'] = self.config.use_tex
         fig, axes = plt.subplots(nrows=self.n_cosmo_pars, ncols=self.n_cosmo_pars, dpi=self.config.dpi,
                                  figsize=(self.config.fig_size_x_inches, self.config.fig_size_y_inches),
-                                 sharex=False, sharey=False)
+                                 sharex=False, sharey=False, squeeze=False)
 
         self.figure = fig
         self.axes = axes
-- 
2.43.0


From 07c1a7b5c90ca806be0e254f2e79d0ba390b3bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 86/97] fix: nuisance parameters of a saved configuration name
 their probe as the spectra do

---
 seyfert/gui/interface_window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index 319a3ae..740a5de 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -204,7 +204,7 @@ class GUIFileInterface:
                     fiducial = float(opts[key].text())
                     is_free_parameter = par_name != 'cIA' and include_IA
                     par_dict = dict(name=par_name, fiducial=fiducial, kind='NuisanceParameter', units='None',
-                                    probe=probe_name, is_free_parameter=is_free_parameter)
+                                    probe=ProbeName(probe_name).toLong().name, is_free_parameter=is_free_parameter)
                     extra_nuis_params.append(par_dict)
 
         return extra_nuis_params
-- 
2.43.0


From 4882b2f9ed79414fb4d37089cb41f89875570146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 87/97] fix: a file of multipoles is saved only while its field
 is enabled

---
 seyfert/gui/interface_window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index 740a5de..1ade169 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -153,7 +153,7 @@ class GUIFileInterface:
         }
 
         ell_input_file = opts['ell_external_filename'].text()
-        if ell_input_file:
+        if ell_input_file and opts['ell_external_filename'].isEnabled():
             json_opts['ell_external_filename'] = ell_input_file
         else:
             json_opts.update({
-- 
2.43.0


From bf89ad058c6f33288275002152496d6c5a939b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 88/97] fix: saved configurations with voids can be loaded

---
 seyfert/gui/interface_window.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index 1ade169..c467f53 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -170,6 +170,8 @@ class GUIFileInterface:
             json_opts["bias_file"] = opts['bias_file'].text()
         if 'bias_derivative_method' in opts:
             json_opts["bias_derivative_method"] = opts['bias_derivative_method'].currentText()
+        elif 'bias_file' in opts:
+            json_opts["bias_derivative_method"] = "SteM"
         if "marginalize_bias_flag" in opts:
             json_opts["marginalize_bias_flag"] = bool(opts["marginalize_bias_flag"].checkState())
 
-- 
2.43.0


From 7a749e0699c9ca80424b20b5a31345d29f92380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 89/97] fix: forecasts run with configurations made without
 synthetic options

---
 seyfert/config/forecast_config.py | 4 ++--
 seyfert/file_io/json_io.py        | 6 +++---
 seyfert/main/seyfert_core.py      | 2 +-
 seyfert/main/task_runners.py      | 3 ++-
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index 8f1b935..1f5ef8b 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -57,12 +57,12 @@ class ForecastConfig:
         return self.json_config.scenario
 
     @property
-    def n_sp_bins(self) -> "int":
+    def n_sp_bins(self) -> "Optional[int]":
         return self.json_config.n_sp_bins
 
     @property
     def shot_noise_sp_reduced(self) -> "bool":
-        return self.synthetic_opts["shot_noise_sp_reduced"]
+        return self.synthetic_opts.get("shot_noise_sp_reduced", False)
 
     @property
     def synthetic_opts(self) -> "Dict":
diff --git a/seyfert/file_io/json_io.py b/seyfert/file_io/json_io.py
index f33b55b..9db0ec8 100644
--- a/seyfert/file_io/json_io.py
+++ b/seyfert/file_io/json_io.py
@@ -1,5 +1,5 @@
 import os
-from typing import Dict
+from typing import Dict, Optional
 import json
 import datetime
 
@@ -46,8 +46,8 @@ class JSONForecastConfig:
         return self.synthetic_opts["scenario"]
 
     @property
-    def n_sp_bins(self) -> "int":
-        return self.synthetic_opts["n_sp_bins"]
+    def n_sp_bins(self) -> "Optional[int]":
+        return self.synthetic_opts.get("n_sp_bins")
 
     @property
     def synthetic_opts(self) -> "Dict":
diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 48d7cba..02753e7 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -253,7 +253,7 @@ def compute_bsub_options(args_dict, fcfg: "ForecastConfig"):
         "queue": args_dict['queue'],
         "n_cores": args_dict['n_cores_per_job']
     }
-    if n_sp_bins > 24 and bsub_opts['memory_MB'] < 1e4:
+    if n_sp_bins is not None and n_sp_bins > 24 and bsub_opts['memory_MB'] < 1e4:
         logger.warning(f"Provided memory {bsub_opts['memory_MB']} could not be enough for {n_sp_bins} GCsp bins, "
                        f"defaulting to 10GB")
         bsub_opts['memory_MB'] = 10000
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index f9efe84..5e2afb2 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -316,7 +316,8 @@ class FisherTaskRunner(TaskRunner):
     def submitBatchJobs(self):
         self.clearOutput()
         # set RAM usage according to the number of GCsp bins
-        if self.forecast_config.n_sp_bins > 24:
+        n_sp_bins = self.forecast_config.n_sp_bins
+        if n_sp_bins is not None and n_sp_bins > 24:
             self.RAM_memory_MB = 10000
 
         self.bsub.setOptions(queue=self.args.queue, memory_MB=self.RAM_memory_MB, n_cores=self.args.n_cores_per_job)
-- 
2.43.0


From f072f6b9758c4c69dc81d85197cb9da55501ce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 90/97] fix: saved configurations hold the parameters which the
 window does not show

---
 seyfert/gui/interface_window.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index c467f53..c0b3924 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -1,5 +1,6 @@
 import sys
-from typing import List, Tuple, Dict
+import json
+from typing import List, Tuple, Dict, Set
 from pathlib import Path
 import datetime
 import re
@@ -9,6 +10,7 @@ from PyQt5 import QtCore, QtWidgets
 
 from .gui_core import Ui_SeyfertConfigGUI
 from seyfert.file_io.json_io import JSONForecastConfig
+from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils.formatters import str_to_bool, datetime_str_format
 from seyfert import VERSION
 from seyfert.utils.shortcuts import ProbeName
@@ -106,6 +108,13 @@ class GUIFileInterface:
 
         return params
 
+    @staticmethod
+    def getCosmoParsNotShown(names: "Set[str]") -> "List[Dict]":
+        with open(fsu.config_files_dir() / "basic_forecast_config.json") as jsf:
+            basic_config = json.load(jsf)
+
+        return [par for par in basic_config["cosmology"]["parameters"] if par["name"] not in names]
+
     def readSurveyFSkyFromUI(self) -> "float":
         return float(self.ui.f_sky.text())
 
@@ -113,6 +122,7 @@ class GUIFileInterface:
         model = self.ui.cosmological_model.currentText()
         is_flat = bool(self.ui.is_universe_flat.checkState())
         cosmo_pars = self.readCosmoParsFromUI()
+        cosmo_pars += self.getCosmoParsNotShown({par["name"] for par in cosmo_pars})
 
         return model, is_flat, cosmo_pars
 
-- 
2.43.0


From 2550e3ba0d51f85a5aeab866102451747e695708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:19 +0000
Subject: [PATCH 91/97] fix: sums of matrices in the results are written under
 the name they are listed by

---
 seyfert/fisher/fisher_results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/fisher/fisher_results.py b/seyfert/fisher/fisher_results.py
index dc84bad..e64d308 100644
--- a/seyfert/fisher/fisher_results.py
+++ b/seyfert/fisher/fisher_results.py
@@ -92,6 +92,8 @@ class FisherResultsCollector:
             fish_analysis.sliceBaseFishers()
             if self.fishers_addends_list:
                 fish_analysis.evaluateFishersFromAddendsList(self.fishers_addends_list)
+                for name, fisher in fish_analysis.fisher_matrices.items():
+                    fisher.name = name
             else:
                 fish_analysis.useBaseFishers()
             fish_analysis.prepareFisherMatrices()
-- 
2.43.0


From 49c2e28290c3a7a6e702abc46816a5b55773142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:38 +0000
Subject: [PATCH 92/97] fix: spectra with a single row or column of bins can be
 drawn

---
 seyfert/plot_utils/cl_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/plot_utils/cl_plot.py b/seyfert/plot_utils/cl_plot.py
index 387c447..a83032f 100644
--- a/seyfert/plot_utils/cl_plot.py
+++ b/seyfert/plot_utils/cl_plot.py
@@ -27,7 +27,7 @@ def cl_plot(ell_list: "List[np.ndarray]", cl_data_list: "List[np.ndarray]", labe
     nrows = i_max - i_min + 1
     ncols = j_max - j_min + 1
 
-    fig, axes = plt.subplots(figsize=figsize, nrows=nrows, ncols=ncols)
+    fig, axes = plt.subplots(figsize=figsize, nrows=nrows, ncols=ncols, squeeze=False)
     plt.subplots_adjust(wspace=wspace, hspace=hspace)
 
     for i in range(i_min, i_max + 1):
@@ -69,7 +69,7 @@ def grid_plot(x: "np.ndarray", y: "np.ndarray", label: "str" = None, axes: "np.n
     if nrows != ncols and triangular:
         raise Exception("Cannot do traingular plot for non-square grid")
     if axes is None:
-        fig, axes = plt.subplots(nrows=nrows, ncols=ncols, figsize=figsize)
+        fig, axes = plt.subplots(nrows=nrows, ncols=ncols, figsize=figsize, squeeze=False)
         plt.subplots_adjust(hspace=hspace, wspace=wspace)
     else:
         fig = plt.gcf()
-- 
2.43.0


From 14f1234e968331e84218cecd16b154e66b91b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 93/97] fix: percentage differences of tables with negative
 elements are positive

---
 seyfert/numeric/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/numeric/general.py b/seyfert/numeric/general.py
index b9cb6fc..df87daa 100644
--- a/seyfert/numeric/general.py
+++ b/seyfert/numeric/general.py
@@ -44,7 +44,7 @@ def pad(x: "Any", y: "Any") -> "Any":
                             f"columns of x missing from y {set(x.columns) - set(y.columns)} \n"
                             f"columns of y missing from x {set(y.columns) - set(x.columns)} \n")
 
-        den = np.where(x + y != 0, (x + y)/2, 1)
+        den = np.where(x + y != 0, np.abs(x + y)/2, 1)
         num = np.abs(x - y)
         res = pd.DataFrame(100*(num / den), index=x.index, columns=x.columns)
     else:
-- 
2.43.0


From 26dd519ed9b16499976f437fd45dbf78ede312e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 94/97] fix: losses of a printed row have one minus sign

---
 seyfert/notebook_helpers/table_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 7f22ac4..80fec39 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -90,7 +90,7 @@ def get_latex_row(row: "pd.Series", float_fmt="%.4f", ref_fom=None):
     # Add delta fom if ref fom is given, else put double dash
     if ref_fom is not None:
         delta_fom = 100 * (row.loc['FoM'] - ref_fom) / ref_fom
-        str_delta_fom = r"+%.2f\%%" % delta_fom if delta_fom > 0 else r"-%.2f\%%" % delta_fom
+        str_delta_fom = r"%+.2f\%%" % delta_fom
         latex_row += f"{str_delta_fom} & "
     else:
         latex_row += "-- & "
-- 
2.43.0


From 4567dd8fe9b72bd9724720d3ca1aa111894fa092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 95/97] fix: a printed row without number of bins keeps its
 first error

---
 seyfert/notebook_helpers/table_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 80fec39..8f9d28f 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -95,7 +95,7 @@ def get_latex_row(row: "pd.Series", float_fmt="%.4f", ref_fom=None):
     else:
         latex_row += "-- & "
     # Add relative marg errors
-    latex_row += " & ".join([f"{float_fmt}" % el for el in row[3:]])
+    latex_row += " & ".join([f"{float_fmt}" % el for el in row.drop(["nbins", "fisher", "FoM"], errors="ignore")])
     latex_row += r" \\"
     latex_row = transl.translateToTeX(latex_row)
 
-- 
2.43.0


From 17a54fa96267564acbb86fc7f25b3efdd1b2fe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 96/97] fix: long names of matrices are printed in full

---
 seyfert/notebook_helpers/table_helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 8f9d28f..c6618f9 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -66,7 +66,9 @@ def write_latex_table(df: "pd.DataFrame", filepath=None, ret_text=True, **kwargs
     }
     kwds.update(kwargs)
 
-    raw_latex_text = df.to_latex(**kwds)
+    # pandas cuts long names otherwise
+    with pd.option_context("display.max_colwidth", None):
+        raw_latex_text = df.to_latex(**kwds)
     transl_latex_text = transl.transformRawTeXTable(raw_latex_text, use_aliases=True)
 
     if filepath is not None:
-- 
2.43.0


From df5c1cb2d3f81899552e0463c98ae8984baef561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 97/97] fix: the symbol of a single probe can be read back

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index ae6be02..b3dec05 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -61,7 +61,7 @@ class TeXTranslator:
 
     def ProbeTeXToName(self, tex_name: str) -> str:
         if '+' not in tex_name:
-            name = self.probe_name_to_tex[tex_name]
+            name = self.probe_tex_to_name[tex_name]
         else:
             probes = [self.probe_tex_to_name[p.strip()] for p in tex_name.split('+')]
             name = r'+'.join(probes)
-- 
2.43.0

