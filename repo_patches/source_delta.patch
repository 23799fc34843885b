From 74c2970585250bc300c0aa93fc1671f88d51b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 01/61] fix: give every AVHRR sensor model the argument list
 its callers use

---
 .../sensor_data/AVHRR/AVHRR_sensor_models.py  | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index 2c14007..e8ee8d5 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -106,11 +106,11 @@ def sensor_model_3(sensor_model_variables,
     return R, J
 
 
-def sensor_model_4((sensor_model_variables,
+def sensor_model_4(sensor_model_variables,
                    sensor_model_parameter,
                    sensor_model_constant,
                    sensor_model_across_track_index,
-                   sensor_model_along_track_index, time)):
+                   sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -167,7 +167,11 @@ def sensor_model_4((sensor_model_variables,
     return R, J
 
 
-def sensor_model_37_2(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_2(sensor_model_variables,
+                      sensor_model_parameter,
+                      sensor_model_constant,
+                      sensor_model_across_track_index,
+                      sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -218,7 +222,11 @@ def sensor_model_37_2(sensor_model_variables, sensor_model_parameter, sensor_mod
     return R, J
 
 
-def sensor_model_37_3(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_3(sensor_model_variables,
+                      sensor_model_parameter,
+                      sensor_model_constant,
+                      sensor_model_across_track_index,
+                      sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -329,7 +337,11 @@ def sensor_model_3_scaled(sensor_model_variables,
     return R, J
 
 
-def sensor_model_4_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_4_scaled(sensor_model_variables,
+                          sensor_model_parameter,
+                          sensor_model_constant,
+                          sensor_model_across_track_index,
+                          sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -386,7 +398,11 @@ def sensor_model_4_scaled(sensor_model_variables, sensor_model_parameter, sensor
     return R, J
 
 
-def sensor_model_37_2_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_2_scaled(sensor_model_variables,
+                             sensor_model_parameter,
+                             sensor_model_constant,
+                             sensor_model_across_track_index,
+                             sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -437,7 +453,11 @@ def sensor_model_37_2_scaled(sensor_model_variables, sensor_model_parameter, sen
     return R, J
 
 
-def sensor_model_37_3_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_3_scaled(sensor_model_variables,
+                             sensor_model_parameter,
+                             sensor_model_constant,
+                             sensor_model_across_track_index,
+                             sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
-- 
2.43.0


From 6caabcc77df40734c60a4c85455a8491ec05d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 02/61] fix: rescaled AVHRR models return derivatives with
 respect to the rescaled parameters

---
 .../sensor_data/AVHRR/AVHRR_sensor_models.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index e8ee8d5..3759251 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -332,7 +332,7 @@ def sensor_model_3_scaled(sensor_model_variables,
                       at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2 + at[2] * (Cs - Ce),
                       -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                       at[1] * (Cs - Ce) / (Cs - Cict),
-                      Ja))
+                      Ja / [1.0, 1000.0, 1000.0*1000.0]))
 
     return R, J
 
@@ -393,7 +393,7 @@ def sensor_model_4_scaled(sensor_model_variables,
                       -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                       at[1] * (Cs - Ce) / (Cs - Cict),
                       at[3] * ones(m),
-                      Ja))
+                      Ja / [1.0, 1000.0, 1000.0*1000.0, 1000.0]))
 
     return R, J
 
@@ -448,7 +448,7 @@ def sensor_model_37_2_scaled(sensor_model_variables,
                       at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2,
                       -at[1] * Rict / (Cs - Cict),
                       at[1] * (Cs - Ce) / (Cs - Cict),
-                      Ja))
+                      Ja / [1.0, 1000.0]))
 
     return R, J
 
@@ -507,7 +507,7 @@ def sensor_model_37_3_scaled(sensor_model_variables,
                       -at[1] * Rict / (Cs - Cict),
                       at[1] * (Cs - Ce) / (Cs - Cict),
                       at[2] * ones(m),
-                      Ja))
+                      Ja / [1.0, 1000.0, 1000.0]))
 
     return R, J
 
-- 
2.43.0


From c322e815d338b02341430d731bb8fcef1da9d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 03/61] fix: unscaled two-parameter 3.7um AVHRR model uses its
 emissivity parameter unscaled

---
 .../harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index 3759251..8cdce45 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -201,7 +201,7 @@ def sensor_model_37_2(sensor_model_variables,
 
     # Evaluate radiance using sensor model
     Ja = vstack((ones(m), Rict * (Cs - Ce) / (Cs - Cict))).T
-    at = [sensor_model_parameter[0], 0.98514 + sensor_model_parameter[1]/1000.0]
+    at = [sensor_model_parameter[0], 0.98514 + sensor_model_parameter[1]]
     R = dot(Ja, at)
 
     # Evaluate derivatives
-- 
2.43.0


From ba2a7fc65d9e9ef2f71dfc43de2c9760d9826b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 04/61] fix: 3.7um AVHRR sensor data supply exactly the
 parameters their models use

---
 .../sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py      | 2 +-
 .../harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py | 2 +-
 .../sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py      | 2 +-
 .../harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
index c622a6d..085ccba 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
@@ -45,7 +45,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
index 4b44b0a..432468c 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
@@ -45,7 +45,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
index 702fae5..1890bf3 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
@@ -44,7 +44,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}", "T_o"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
index ff21f17..3acb519 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
@@ -44,7 +44,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}", "T_o"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0, 0.0],
                            "sensor_model_constant": []}
 
 
-- 
2.43.0


From 93e8aeb61cd29931466c4dd3c52c9776a8cdfe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 05/61] fix: HIRS reference model returns its variable for
 every match-up, not the first match-up's variables

---
 .../harmonisation/sensor_data/HIRS/HIRS_sensor_models.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
index 26c8a5d..c0987bb 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
@@ -59,7 +59,7 @@ def sensor_model_ref(sensor_model_variables, sensor_model_parameter, sensor_mode
         Measurement model derivatives w.r.t. input quantities
     """
 
-    R = sensor_model_variables[0]
+    R = sensor_model_variables[:, 0]
 
     return R, None
 
-- 
2.43.0


From b070e5450c90cf6d0898ab37253a5082366e58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 06/61] fix: HIRS radiance derivative with respect to target
 temperature lost a spurious factor of two

---
 .../harmonisation/sensor_data/HIRS/HIRS_sensor_models.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
index c0987bb..a35fd2d 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
@@ -123,7 +123,7 @@ def sensor_model_3(sensor_model_variables, sensor_model_parameter, sensor_model_
                       -at[1] * Rict * (Ce - Cs) / (Cict - Cs) ** 2 - at[2] * (Ce - Cs),
                       at[1] * Rict / (Cict - Cs) + at[2] * (2 * Ce - Cs - Cict),
                       (at[1] * (Ce - Cs) / (Cict - Cs)) *
-                      Rict * planck_exp / (planck_exp-1.0) * (2.0*H*v*b) / (KB*(a+b*Tict)**2.0),
+                      Rict * planck_exp / (planck_exp-1.0) * (H*v*b) / (KB*(a+b*Tict)**2.0),
                       -1.0 * ones(m),
                       Ja))
 
-- 
2.43.0


From dc37f0154b21d9b3241e923328c60c661517e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 07/61] fix: open weighted+systematic blocks of series with a
 single match-up

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index a2ee994..32e633c 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -377,7 +377,7 @@ class MatchUpReader:
                         u_matrices[u_matrix_idx] = self._open_u_matrix(dataset, u_j)
 
                         unc[block_idx] = Uncertainty(4, (w_matrix_idx, u_matrix_idx,
-                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][1, i_cov]))
+                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][0, i_cov]))
 
         # Determine separate instances of systematic errors
         sys_indices = []
-- 
2.43.0


From 0b1bedd721738ed22be4e9199af8225ad4215cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 08/61] fix: recognise the -1e30 fill value in single precision
 additional variables

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 32e633c..8bf8a9c 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -546,7 +546,7 @@ class MatchUpReader:
                     if variable == "nominal_BT2":
                         pass
                     additional_values[i_start:i_end, i_variable]\
-                        [additional_values[i_start:i_end, i_variable] == -1e30] = nan
+                        [additional_values[i_start:i_end, i_variable].astype(float32) == float32(-1e30)] = nan
                 else:
                     additional_values[i_start:i_end, i_variable] = nan
 
-- 
2.43.0


From ac27fc995e6deda1297fa310a434780d890594f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 09/61] fix: use a sensor's own adjustment model when its
 sensor data define one

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 8bf8a9c..534263f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -602,7 +602,7 @@ class MatchUpReader:
         for sensor in idx['sensors']:
             sensor_model.append(sensor_data[sensor]["sensor_model"])
 
-            if "adjustment_model" in sensor_data[sensor].keys():
+            if "sensor_adjustment_model" in sensor_data[sensor].keys():
                 adjustment_model.append(sensor_data[sensor]["sensor_adjustment_model"])
             else:
                 adjustment_model.append(self._default_adjustment_model)
-- 
2.43.0


From 6b4a48156d900ce6c19dded25166319251df3441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 10/61] fix: open lists of directories like single directories,
 netCDF files in name order

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 534263f..9bb13de 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -182,7 +182,8 @@ class MatchUpReader:
                 dirs_matchup = paths_matchup
                 paths_matchup = []
                 for dir_matchup in dirs_matchup:
-                    paths_matchup += [pjoin(dir_matchup, fname) for fname in listdir(dir_matchup)]
+                    paths_matchup += sorted([pjoin(dir_matchup, fname)
+                                             for fname in listdir(dir_matchup) if fname[-3:] == ".nc"])
             else:
                 return None
 
-- 
2.43.0


From a5959f85084471d9bd83dea92ee22fac0f2fbaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 11/61] fix: keep match-up times through Transform2NormInd.run
 and reverse

---
 .../matchupProcessing/transform2normind/Transform2NormInd.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
index 01b89f2..39be311 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
@@ -131,6 +131,8 @@ class Transform2NormInd:
         MatchUpNormInd.across_track_index2 = MatchUpData.across_track_index2
         MatchUpNormInd.along_track_index1 = MatchUpData.along_track_index1
         MatchUpNormInd.along_track_index2 = MatchUpData.along_track_index2
+        MatchUpNormInd.time1 = MatchUpData.time1
+        MatchUpNormInd.time2 = MatchUpData.time2
 
         # Convert data block by depending on correlation form
         for i, block_unc in enumerate(MatchUpData.unc):
@@ -234,6 +236,8 @@ class Transform2NormInd:
         MatchUpData.across_track_index2 = MatchUpNormInd.across_track_index2
         MatchUpData.along_track_index1 = MatchUpNormInd.along_track_index1
         MatchUpData.along_track_index2 = MatchUpNormInd.along_track_index2
+        MatchUpData.time1 = MatchUpNormInd.time1
+        MatchUpData.time2 = MatchUpNormInd.time2
 
         # Required to find systematic errors
         n_uS = max([0]+[unc_i.uS_i for unc_i in MatchUpData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
-- 
2.43.0


From e1a573b3298b75dd4709c44fea3c292678fd8aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 12/61] fix: evaluate the residual's sensor models at the
 match-up times and track indices the Jacobian uses

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 7e14ac4..200fe50 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -385,6 +385,12 @@ class GNAlgo(object):
         MatchUpEstimate_NormInd.sensor_model = self.HData.sensor_model
         MatchUpEstimate_NormInd.sensor_model_constant = self.HData.sensor_model_constant
         MatchUpEstimate_NormInd.adjustment_model = self.HData.adjustment_model
+        MatchUpEstimate_NormInd.time1 = self.HData.time1
+        MatchUpEstimate_NormInd.time2 = self.HData.time2
+        MatchUpEstimate_NormInd.across_track_index1 = self.HData.across_track_index1
+        MatchUpEstimate_NormInd.across_track_index2 = self.HData.across_track_index2
+        MatchUpEstimate_NormInd.along_track_index1 = self.HData.along_track_index1
+        MatchUpEstimate_NormInd.along_track_index2 = self.HData.along_track_index2
         MatchUpEstimate_NormInd.values = deepcopy(xyza[:N_var])
         MatchUpEstimate_NormInd.ks = zeros(N_mu, dtype=float32)
 
-- 
2.43.0


From bf9ed7fc8b0d33600b8a5dde361b2994b2711e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 13/61] fix: Jacobian product uses each sensor's own number of
 variables

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 200fe50..ee8e9fb 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -682,7 +682,6 @@ class GNAlgo(object):
         mcxyz = self.HData.idx['idx']                                                 # cumulative variables by block
         N_var = self.HData.idx['idx'][-1]                                             # total variables
         N_sensors = len(set(self.HData.idx['parameter_sensor']))                      # total number of sensors
-        N_cov = self.HData.idx['n_cov'][-1]                                           # total number of covariates
         N_mu_s = len(self.HData.idx['Im'])                                            # total number of match-up series
         n_uS = max([0]+[unc_i.uS_i for unc_i in self.HData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
 
@@ -725,6 +724,7 @@ class GNAlgo(object):
 
                 # First sensor or second sensor factor
                 sensor_name = self.HData.idx['sensors'][n_sensor]
+                N_cov = self.HData.idx['sensor_ms'][n_sensor]  # total number of covariates of this sensor
                 s = -1
                 if j == 1:
                     s = 1
-- 
2.43.0


From 63e33e481ba0f83d30deb5d83df880a7d2e05856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 14/61] fix: evaluate_measurand returns derivatives without an
 undocumented index entry

---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py    | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index db903d5..f03bf3f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -72,13 +72,7 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
     measurand = zeros((selection_cNm[-1], 2), dtype=float32)
     measurand_derivatives = None
     if return_derivatives:
-        measurand_derivatives = [[zeros((selection_cNm[-1],
-                                         MatchUpData.idx['sensor_ms'][Im[0]]+MatchUpData.idx['sensor_a'][Im[0]]),
-                                        dtype=float32),
-                                  zeros((selection_cNm[-1],
-                                         MatchUpData.idx['sensor_ms'][Im[1]]+MatchUpData.idx['sensor_a'][Im[1]]),
-                                        dtype=float32)]
-                                  for Im in MatchUpData.idx['Im']]
+        measurand_derivatives = [[None, None] for Im in MatchUpData.idx['Im']]
 
     u_measurand = None
     if parameter_covariance_matrix is not None:
-- 
2.43.0


From 487d0d12a06e8c9fe4ff1d2dc47f111fffdf283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 15/61] fix: propagate parameter uncertainty with an integer
 covariance shape

---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index f03bf3f..80c2c19 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -129,7 +129,7 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
                     loc_a = array([True if s == sensor_name else False for s in MatchUpData.idx['parameter_sensor']])
                     loc_a_arr = outer(loc_a.T, loc_a)
                     V = parameter_covariance_matrix[loc_a_arr]
-                    V = V.reshape((len(V)**0.5, len(V)**0.5))
+                    V = V.reshape((sum(loc_a), sum(loc_a)))
 
                     u_measurand[i_start_m:i_end_m, i_sensor_pair] = (diag(J[:, m:].dot(V).dot(J[:, m:].T))) ** 0.5
 
-- 
2.43.0


From 0b253d934ab450b9764e52124afe326281487c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 16/61] fix: return the measurand uncertainty when derivatives
 are requested too

---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index 80c2c19..f3f31e9 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -135,14 +135,14 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
 
                     pass
 
-    if return_derivatives:
-        return measurand, measurand_derivatives
-
     if u_measurand is not None:
         if return_derivatives:
             return measurand, measurand_derivatives, u_measurand
         return measurand, u_measurand
 
+    if return_derivatives:
+        return measurand, measurand_derivatives
+
     return measurand
 
 
-- 
2.43.0


From 16028ef350460eafa3da3e3f6cb2275c3734ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 17/61] fix: preconditioner uses each sensor's own number of
 variables

---
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index 99011fb..715519e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -206,7 +206,6 @@ class PCAlgo:
         N_sensors = len(set(self.HData.idx['parameter_sensor']))                    # total number of sensors
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
-        N_cov = HData.idx['n_cov'][-1]                                              # total number of covariates
 
         # initialise arrays
         JT = zeros((N_mu, N_sensors), dtype=float32)
@@ -227,6 +226,7 @@ class PCAlgo:
             for j, n_sensor in enumerate(n_sensors):
 
                 sensor_name = HData.idx['sensors'][n_sensor]
+                N_cov = HData.idx['sensor_ms'][n_sensor]  # total number of covariates of this sensor
 
                 R, JR = self.calc_R(self.xyza, HData.unc, HData.w_matrices, HData.u_matrices, HData.idx, HData.idx,
                                     HData.sensor_model,
@@ -356,7 +356,6 @@ class PCAlgo:
         N_var = HData.idx['idx'][-1]                                                # total variables
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
-        N_cov = HData.idx['n_cov'][-1]                                              # total number of covariates
 
         # update a estimate in xyza
         self.xyza[N_var:N_var + N_a] = a
@@ -382,6 +381,7 @@ class PCAlgo:
             for j, n_sensor in enumerate(n_sensors):
 
                 sensor_name = HData.idx['sensors'][n_sensor]
+                N_cov = HData.idx['sensor_ms'][n_sensor]  # total number of covariates of this sensor
 
                 R, JR = self.calc_R(self.xyza, HData.unc, HData.w_matrices, HData.u_matrices, HData.idx, HData.idx,
                                     HData.sensor_model,
-- 
2.43.0


From 6a339cddb2f7de9b45a95322d9f0884783cf6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 18/61] fix: preconditioner correlates match-ups through each
 shared systematic error of its own

---
 .../harmonisation_eiv_pc/pc_algo.py                        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index 715519e..585a72c 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -203,12 +203,13 @@ class PCAlgo:
         mc = HData.idx['cNm']                                                       # cumulative
         N_mu = HData.idx['cNm'][-1]                                                 # total match-ups (= number of ks)
         N_var = HData.idx['idx'][-1]                                                # total variables
-        N_sensors = len(set(self.HData.idx['parameter_sensor']))                    # total number of sensors
+        # total number of systematic errors
+        n_uS = max([0]+[unc_i.uS_i for unc_i in HData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
 
         # initialise arrays
-        JT = zeros((N_mu, N_sensors), dtype=float32)
+        JT = zeros((N_mu, n_uS), dtype=float32)
         VK = eye(N_mu, dtype=float32)
 
         # loop through match-up series
@@ -277,7 +278,7 @@ class PCAlgo:
                         # b. random+systematic correlation
                         if block_unc.typeID == 2:
                             JK = s * diag(JB*JR[:, n_cov-1]) * block_unc.uR / uK
-                            JT[istart:iend, n_sensor-1] = s * JB*JR[:, n_cov-1] * block_unc.uS / uK
+                            JT[istart:iend, block_unc.uS_i-1] = s * JB*JR[:, n_cov-1] * block_unc.uS / uK
 
                         VK[istart:iend, istart:iend] = VK[istart:iend, istart:iend] + dot(JK, JK.T)
 
-- 
2.43.0


From f16a80ab9ca37e01914bb022f54cb59979146311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 19/61] fix: evaluate series selected in any order into their
 own rows

---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index f3f31e9..f0ac634 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -57,7 +57,7 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
         matchup_series = [matchup_series]
 
     # b. Determine idxs of selected measurands
-    selection_Nm = [m for i, m in enumerate(MatchUpData.idx['Nm']) if i+1 in matchup_series]
+    selection_Nm = [MatchUpData.idx['Nm'][n - 1] for n in matchup_series]
     selection_cNm = [0]
     total = 0
     for m in selection_Nm:
@@ -182,7 +182,7 @@ def evaluate_adjusted_measurand(MatchUpData, matchup_series=0, return_derivative
         matchup_series = [matchup_series]
 
     # b. Determine idxs of selected measurands
-    selection_Nm = [m for i, m in enumerate(MatchUpData.idx['Nm']) if i+1 in matchup_series]
+    selection_Nm = [MatchUpData.idx['Nm'][n - 1] for n in matchup_series]
     selection_cNm = [0]
     total = 0
     for m in selection_Nm:
-- 
2.43.0


From 87c54a532260dfaac499bb4833f2f530da32a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 20/61] fix: store the sensor state residuals in the residual
 files

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index b180d3f..cf941b7 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -751,7 +751,7 @@ class HarmonisationResult:
                     X_res_var.description = "X"+str(i_sensor_pair+1)+" harmonisation fitting residuals"
 
                     # Store data
-                    X_res_var = X_res[:]
+                    X_res_var[:] = X_res[:]
 
             # 3. Write ks_res data if available ------------------------------------------------------------------------
 
-- 
2.43.0


From 8d2bf7f7265758f76a517d9cdc74759638d7283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 21/61] fix: open residuals when the first listed sensor has
 several variables

---
 .../harmonisationIO/HarmonisationResult.py             | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index cf941b7..4c91769 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -445,14 +445,12 @@ class HarmonisationResult:
             # generate required data
             full_sensor_list = [num for pair in Im for num in pair]  # full list of sensors (ordered by match-up series)
             num_ref_matchup = full_sensor_list.count(0)  # number of reference-sensor match-up series
-            sensor_list = [sensor for sensor in full_sensor_list if
-                           sensor != 0]  # list of sensors (excluding reference)
 
             # Create New Indices:
             # > n_sensor - list of sensor number of consecuative data blocks
             n_sensor = [int(0)] * num_ref_matchup + [int(sensor) for m_i in range(1, max(sensor_ms) + 1)
-                                                     for sensor in sensor_list
-                                                     if sensor_ms[sensor] >= m_i]
+                                                     for sensor in full_sensor_list
+                                                     if (sensor_ms[sensor] >= m_i) and (sensor != 0 or m_i > 1)]
 
             # > n_mu - list of match-up series number of consecuative data blocks
             # For reference sensors
@@ -462,7 +460,7 @@ class HarmonisationResult:
             n_mu_sensors = [int(i + 1) for m_i in range(1, max(sensor_ms) + 1)
                             for i, pair in enumerate(Im)
                             for sensor in pair
-                            if (sensor_ms[sensor] >= m_i) and (sensor != 0)]
+                            if (sensor_ms[sensor] >= m_i) and (sensor != 0 or m_i > 1)]
 
             # Combine
             n_mu = n_mu_refs + n_mu_sensors
@@ -475,7 +473,7 @@ class HarmonisationResult:
             n_cov_sensors = [m_i for m_i in range(1, max(sensor_ms) + 1)
                              for i, pair in enumerate(Im)
                              for sensor in pair
-                             if (sensor_ms[sensor] >= m_i) and (sensor != 0)]
+                             if (sensor_ms[sensor] >= m_i) and (sensor != 0 or m_i > 1)]
 
             # Combine
             n_cov = n_cov_refs + n_cov_sensors
-- 
2.43.0


From 3e8d39643412121e3013ae0d2719cb60458174a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 22/61] fix: write a residual file for every match-up series,
 also of the same sensor pair

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 4c91769..7db3879 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -694,6 +694,7 @@ class HarmonisationResult:
         block_idxs = [(i, j, k) for i, j, k in zip(idx['n_sensor'], idx['n_mu'], idx['n_cov'])]
 
         # Write file per match-up series
+        fnames_res = []
         for i_matchup, n_sensor_pair in enumerate(idx["Im"]):
 
             # 1. Initialise file ---------------------------------------------------------------------------------------
@@ -703,6 +704,14 @@ class HarmonisationResult:
             fname_res = "_".join((output_fname_noext, "res", str(sensor_name_pair[0]), str(sensor_name_pair[1])))\
                         + output_fname_ext
 
+            # Series of the same sensor pair are numbered to keep a file each
+            n_repeat = 2
+            while fname_res in fnames_res:
+                fname_res = "_".join((output_fname_noext, "res", str(sensor_name_pair[0]), str(sensor_name_pair[1]),
+                                      str(n_repeat))) + output_fname_ext
+                n_repeat += 1
+            fnames_res.append(fname_res)
+
             path_res = pjoin(directory, fname_res)
 
             # Open netCDF file
-- 
2.43.0


From 72c21a933792cdad03e57b63b9226f4ac64aafb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 23/61] fix: keep a result's additional attributes when its
 residuals are opened

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 7db3879..7f949e4 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -172,7 +172,7 @@ class HarmonisationResult:
             if open_residuals:
                 harmonisation_residual_file_paths = self._get_harm_res_paths(output_dir)
                 self.values_res, self.ks_res, \
-                    self.idx, self.additional_attributes \
+                    self.idx, _ \
                         = self.open_harmonisation_residual_files(harmonisation_residual_file_paths)
 
     def _get_harm_output_path(self, output_dir):
-- 
2.43.0


From cb61c05bf15a8923d8a0791351665ee04b1ac8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 24/61] fix: store sensor names as character strings of the
 declared length

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 7f949e4..55c8da5 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -629,7 +629,7 @@ class HarmonisationResult:
 
         # > Harmonisation parameter sensor name variable
         fmt_str = '{0: <'+str(max_l_name)+'}'
-        parameter_sensors = asarray([fmt_str.format(p) for p in parameter_sensors])
+        parameter_sensors = asarray([fmt_str.format(p) for p in parameter_sensors], dtype='S'+str(max_l_name))
         parameter_sensors_var = rootgrp.createVariable('parameter_sensors', 'S1', ('n', 'l_name'), zlib=True,
                                                        complevel=9)
         parameter_sensors_var.description = "Sensors associated with harmonisation parameters"
@@ -644,12 +644,12 @@ class HarmonisationResult:
 
                 if additional_variables[variable]['dtype'] == 'S1':
                     fmt_str = '{0: <' + str(max_l_name) + '}'
-                    additional_variables[variable]['data'] = asarray([fmt_str.format(s) for s in
-                                                                      additional_variables[variable]['data']])
+                    names = asarray([fmt_str.format(s) for s in additional_variables[variable]['data']],
+                                    dtype='S'+str(max_l_name))
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             (additional_variables[variable]['dim'], 'l_name'),
                                                             zlib=True, complevel=9)
-                    additional_var[:] = stringtochar(additional_variables[variable]['data'][:])
+                    additional_var[:] = stringtochar(names)
                 else:
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             additional_variables[variable]['dim'],
-- 
2.43.0


From 70298b7117ff15d99100a86f285459c1038a5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 25/61] fix: place averaging windows exactly for any scan-line
 interval

---
 tools/generate_w_matrices.py | 3 +--
 tools/pmh2fiduceo.py         | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/tools/generate_w_matrices.py b/tools/generate_w_matrices.py
index 762c68c..da45249 100644
--- a/tools/generate_w_matrices.py
+++ b/tools/generate_w_matrices.py
@@ -79,8 +79,7 @@ def generate_rolling_average_w_matrix(matchup_times, scanline_time, kernel_uncer
     for i in xrange(num_matchups):
         scanline_pos = 0
         if i > 0:
-            rel_time = round(scanline_time*round(float(matchup_times[i]-matchup_times[0])/scanline_time), 2)
-            scanline_pos = int(round(rel_time/scanline_time))
+            scanline_pos = int(round(float(matchup_times[i]-matchup_times[0])/scanline_time))
 
         relative_column_postions.append(int(scanline_pos))
 
diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index fd43966..8ffcae1 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -263,8 +263,7 @@ def generate_rolling_average_w_matrix(matchup_times, scanline_time, kernel_uncer
     for i in range(num_matchups):
         scanline_pos = 0
         if i > 0:
-            rel_time = round(scanline_time*round(float(matchup_times[i]-matchup_times[0])/scanline_time), 2)
-            scanline_pos = int(round(rel_time/scanline_time))
+            scanline_pos = int(round(float(matchup_times[i]-matchup_times[0])/scanline_time))
 
         relative_column_postions.append(int(scanline_pos))
 
-- 
2.43.0


From eb0ebad8fc4792783b14d0c0a9e1a4c1c297c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 26/61] fix: microwave uncertainty vectors of sensor 1 have its
 own weighting matrix's length

---
 tools/MW_add_W_matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index 508c069..5885644 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -177,8 +177,8 @@ def return_w_matrix_variables_MW(time1, time2, scanline_time, uR1, uR2, weights,
         # a. Compute W data
         w_matrix1, u_matrix10 = generate_rolling_average_w_matrix(time1, scanline_time, float(uR1[0]), weights=weights)
         w_matrices = [w_matrix1, w_matrix2]
-        u_matrix11 = ones(len(u_matrix20)) * uR1[1]
-        u_matrix12 = ones(len(u_matrix20)) * uR1[2]
+        u_matrix11 = ones(len(u_matrix10)) * uR1[1]
+        u_matrix12 = ones(len(u_matrix10)) * uR1[2]
 
         u_matrices = [u_matrix10, u_matrix11, u_matrix12, u_matrix20, u_matrix21, u_matrix22]
 
-- 
2.43.0


From 639ff208f0322bc608b961c9a23ef674c0281aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 27/61] fix: convert radiances to temperatures

---
 tools/convert_bt_to_radiance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/convert_bt_to_radiance.py b/tools/convert_bt_to_radiance.py
index e020db7..d5e636c 100644
--- a/tools/convert_bt_to_radiance.py
+++ b/tools/convert_bt_to_radiance.py
@@ -132,13 +132,13 @@ class convertBT(object):
         C1 = 1.191062E-5
         C2 = 1.4387863
         
-        if isinstance(temperature,np.ndarray):
+        if isinstance(rad,np.ndarray):
             outBT = np.zeros(rad.shape)
             if 3 == len(rad.shape):
                 outBT[:,:,:] = float('nan')
             elif 2 == len(rad.shape):
                 outBT[:,:] = float('nan')
-            elif 2 == len(rad.shape):
+            elif 1 == len(rad.shape):
                 outBT[:] = float('nan')
 
             gd = (rad > 0.) & np.isfinite(rad)     
-- 
2.43.0


From 783fe8e313655b3c290e45aea0f300a2c8ea0ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 28/61] fix: check systematic uncertainties of sensor 2 for
 negative values

---
 tools/harmonisation_input_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index 6fa1918..ab73f80 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -320,7 +320,7 @@ def check_variable_values(rootgrp):
     # ------------------------------------------------------------------------------------------------------------------
 
     # TEST: Assert no negative uncertainties in Ur1, Ur2, Us1 and Us2 --------------------------------------------------
-    test_variables = ["Ur1", "Ur2", "Us1", "Ur2"]
+    test_variables = ["Ur1", "Ur2", "Us1", "Us2"]
     if set(test_variables).issubset(rootgrp.variables.keys()):
         for test_variable in test_variables:
             test_variable_val = rootgrp.variables[test_variable][:]
-- 
2.43.0


From 31f1e490665fe40eb30747e01d7c9d0c1feb8e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 29/61] fix: name the weighted+systematic form when reporting
 its assignment error

---
 tools/harmonisation_input_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index ab73f80..8ae9a71 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -454,7 +454,7 @@ def check_uncertainty_assignment(rootgrp):
                 uncertainty_str = "independent+systematic"
             if uncertainty_type1[col] == 3:
                 uncertainty_str = "w-matrix"
-            if uncertainty_type1[col] == 3:
+            if uncertainty_type1[col] == 4:
                 uncertainty_str = "w-matrix+systematic"
             if uncertainty_type1[col] not in set([1, 2, 3, 4]):
                 uncertainty_str = "[NOT ASSIGNED!]"
@@ -518,7 +518,7 @@ def check_uncertainty_assignment(rootgrp):
                 uncertainty_str = "independent+systematic"
             if uncertainty_type2[col] == 3:
                 uncertainty_str = "w-matrix"
-            if uncertainty_type2[col] == 3:
+            if uncertainty_type2[col] == 4:
                 uncertainty_str = "w-matrix+systematic"
             if uncertainty_type2[col] not in set([1, 2, 3, 4]):
                 uncertainty_str = "[NOT ASSIGNED!]"
-- 
2.43.0


From 4a222b3c9c5f5ab0a1a41c9d2ab1c229f76bfbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 30/61] fix: report files too malformed for a check to read
 instead of stopping with an exception

---
 tools/harmonisation_input_checker.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index 8ae9a71..824c070 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -588,14 +588,13 @@ def main(path):
     rootgrp = Dataset(path)
 
     errors = []
-    errors += check_variable_included(rootgrp)
-    errors += check_variable_dtype(rootgrp)
-    errors += check_variable_dimension(rootgrp)
-    errors += check_attributes(rootgrp)
-    errors += check_w_matrix_variable_dimensions(rootgrp)
-    errors += check_variable_values(rootgrp)
-    errors += check_w_variable_values(rootgrp)
-    errors += check_uncertainty_assignment(rootgrp)
+    for check in [check_variable_included, check_variable_dtype, check_variable_dimension, check_attributes,
+                  check_w_matrix_variable_dimensions, check_variable_values, check_w_variable_values,
+                  check_uncertainty_assignment]:
+        try:
+            errors += check(rootgrp)
+        except (KeyError, IndexError, TypeError, ValueError) as e:
+            errors.append("Format Error: " + check.__name__ + " not possible with this file (" + str(e) + ")")
 
     rootgrp.close()
 
-- 
2.43.0


From bbba5f8782d29c8c893bffe69a849c0a06e42b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 31/61] fix: include samples at the start of their interval in
 time averages

---
 harmonisation_eiv/harmonisation/core/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/utils/stats.py b/harmonisation_eiv/harmonisation/core/utils/stats.py
index 7753a20..f96782b 100644
--- a/harmonisation_eiv/harmonisation/core/utils/stats.py
+++ b/harmonisation_eiv/harmonisation/core/utils/stats.py
@@ -35,7 +35,7 @@ def time_average(data, times, time_period="month"):
 
     while current_time <= last_time:
         next_time = current_time + time_delta
-        ind = np.where((times > current_time) & (times < next_time))
+        ind = np.where((times >= current_time) & (times < next_time))
         vals = data[ind]
 
         try:
-- 
2.43.0


From d314b4687eb50bc5ba3083d8327b63d392ac0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 32/61] fix: include the upper end of the range in the last bin

---
 harmonisation_eiv/harmonisation/core/utils/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/utils/stats.py b/harmonisation_eiv/harmonisation/core/utils/stats.py
index f96782b..b38648f 100644
--- a/harmonisation_eiv/harmonisation/core/utils/stats.py
+++ b/harmonisation_eiv/harmonisation/core/utils/stats.py
@@ -62,7 +62,10 @@ def bin(Y, X, bins=20, X_range=None):
 
     for i, (bin_min, bin_max) in enumerate(zip(bin_ranges[:-1], bin_ranges[1:])):
 
-        ind = np.where((X >= bin_min) & (X < bin_max))
+        in_bin = (X >= bin_min) & (X < bin_max)
+        if i == len(bins) - 1:
+            in_bin = (X >= bin_min) & (X <= X_range[1])
+        ind = np.where(in_bin)
         vals = Y[ind]
 
         try:
-- 
2.43.0


From d7174035c0e437d70b65cebf0e6ac68a2397ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 33/61] fix: identify stored covariance elements by their full
 indices

---
 harmonisation_eiv/harmonisation/tools/HarmonisationOp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
index 47ecff9..1d10d77 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
@@ -379,7 +379,8 @@ class HarmonisationOp:
         parameter_covariance_matrix = zeros((N_parameters, N_parameters))
 
         for file in filelist:
-            parameter_covariance_matrix[int(file[-8]), int(file[-6])] = loadtxt(file)
+            i, j = file[file.rindex("[")+1:file.rindex("]")].split(",")
+            parameter_covariance_matrix[int(i), int(j)] = loadtxt(file)
 
         parameter_covariance_matrix = (parameter_covariance_matrix + parameter_covariance_matrix.T) / 2
 
-- 
2.43.0


From 4394ce483e110f7c396c7a813ce1215f17080dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 34/61] fix: write the weighting matrix variables given to
 MatchUpWriter.write_input_file

---
 .../core/matchup/matchupIO/MatchUpWriter.py   | 40 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
index f00d830..31663b8 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
@@ -241,8 +241,44 @@ class MatchUpWriter:
 
         # > w_matrix variables
         if w_matrix_variables is not None:
-            pass
-            # todo - update this part!!!
+            w_matrix_nnz, w_matrix_row, w_matrix_col, w_matrix_val, w_matrix_use1, w_matrix_use2, \
+                u_matrix_row_count, u_matrix_val, u_matrix_use1, u_matrix_use2 = w_matrix_variables
+
+            # dimensions
+            rootgrp.createDimension("w_matrix_count", len(w_matrix_nnz))
+            rootgrp.createDimension("w_matrix_row_count", w_matrix_row.shape[-1])
+            rootgrp.createDimension("w_matrix_nnz_sum", sum(w_matrix_nnz))
+            rootgrp.createDimension("u_matrix_count", len(u_matrix_row_count))
+            rootgrp.createDimension("u_matrix_row_count_sum", sum(u_matrix_row_count))
+
+            row_dims = ('w_matrix_count', 'w_matrix_row_count') if len(w_matrix_row.shape) > 1 \
+                else ('w_matrix_row_count',)
+
+            # variables
+            for name, dtype, dims, description, data in [
+                    ('w_matrix_nnz', 'i4', ('w_matrix_count',),
+                     "number of non-zero elements for each W matrix", w_matrix_nnz),
+                    ('w_matrix_row', 'i4', row_dims,
+                     "CSR row numbers for each W matrix", w_matrix_row),
+                    ('w_matrix_col', 'i4', ('w_matrix_nnz_sum',),
+                     "CSR column numbers for all W matrices", w_matrix_col),
+                    ('w_matrix_val', 'f8', ('w_matrix_nnz_sum',),
+                     "CSR values for all W matrices", w_matrix_val),
+                    ('w_matrix_use1', 'i4', ('m1',),
+                     "mapping from X1 array column index to W", w_matrix_use1),
+                    ('w_matrix_use2', 'i4', ('m2',),
+                     "mapping from X2 array column index to W", w_matrix_use2),
+                    ('u_matrix_row_count', 'i4', ('u_matrix_count',),
+                     "number of rows of each u matrix", u_matrix_row_count),
+                    ('u_matrix_val', 'f8', ('u_matrix_row_count_sum',),
+                     "u matrix non-zero diagonal elements", u_matrix_val),
+                    ('u_matrix_use1', 'i4', ('m1',),
+                     "mapping from X1 array column index to U", u_matrix_use1),
+                    ('u_matrix_use2', 'i4', ('m2',),
+                     "mapping from X2 array column index to U", u_matrix_use2)]:
+                var = rootgrp.createVariable(name, dtype, dims, zlib=True, complevel=9)
+                var.description = description
+                var[:] = data[:]
 
         # > additional variables - non-required variable to add to harmonisation input files
         if additional_variables is not None:
-- 
2.43.0


From dfcc8c6d53aa388d07c61aa1390b327e33659740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 35/61] fix: preconditioner includes a reference sensor's
 shared systematic error

---
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index 585a72c..7bf7a25 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -256,6 +256,10 @@ class PCAlgo:
                     block_unc = HData.unc[im]
 
                     JK = s * diag(JB) * block_unc.uR / uK
+
+                    if block_unc.typeID == 2:
+                        JT[istart:iend, block_unc.uS_i-1] = s * JB * block_unc.uS / uK
+
                     VK[istart:iend, istart:iend] = VK[istart:iend, istart:iend] + dot(JK, JK.T)
 
                 # > if sensor
-- 
2.43.0


From 512ff4295bcd6c5b4e6b94e05b14be55c882c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 36/61] fix: setting sensor data labels the original index
 structure too

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 5f26966..dbaac0b 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -166,6 +166,10 @@ class MatchUp(object):
         self.a, self.sensor_model_constant, self.sensor_model, \
             self.adjustment_model, self.idx = MatchUpReaderOp.extract_sensor_data(sensor_data, self.idx)
 
+        # Original index structure carries the same parameter and constant labels
+        for key in ('parameter_sensor', 'sensor_model_constant_sensor'):
+            self._original_idx[key] = list(self.idx[key])
+
     def getVariableData(self, variable_number, sensor_name, matchup_number):
 
         matchup_numbers = []
-- 
2.43.0


From 3b37f69abb2dbac2956b4c50c1835710a37a8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 37/61] fix: sensor data files of the same name in different
 directories are told apart

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 9bb13de..b042f17 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -571,6 +571,9 @@ class MatchUpReader:
 
         sys.path.insert(0, directory_sensor_data)
 
+        # Discard any module of the same name already imported from elsewhere
+        sys.modules.pop(fname_sensor_data, None)
+
         sensor_data = import_module(fname_sensor_data).SENSOR_DATA
 
         return sensor_data
-- 
2.43.0


From a623801f32e49a49379bc201d68bd46896a06888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 38/61] fix: write the Gauss-Newton solver state to save_gn

---
 .../harmonisation_eiv/HarmonisationEIV.py                      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index 09003bc..c37c0a1 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -157,6 +157,9 @@ class HarmonisationEIV:
         if save_directory_GNOp is not None:
             GNOp.save(save_directory_GNOp)
 
+        if save_gn is not None:
+            GNOp.save(save_gn)
+
         return HarmonisationOutput
 
 if __name__ == "__main__":
-- 
2.43.0


From cd45f04c0e923031c38d365f9b9ce63840fcd0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 39/61] fix: a preconditioner saved without residual files can
 be used as pc_input

---
 .../harmonisation_eiv/HarmonisationEIV.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index c37c0a1..179a7d3 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -101,7 +101,7 @@ class HarmonisationEIV:
             print "t_PC:", str(t2-t1)
 
         else:
-            preconditioner = HarmonisationResult(pc_input)
+            preconditioner = HarmonisationResult(pc_input, open_residuals=False)
 
         HData.a = preconditioner.parameter  # set PC output parameters as current parameter estimates
 
-- 
2.43.0


From e1de77128ddb396ab56ebe625d47dea509b0f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 40/61] fix: HarmonisationOp.run respects return_covariance

---
 .../harmonisation_eiv/HarmonisationEIV.py                      | 3 +--
 harmonisation_eiv/harmonisation/tools/HarmonisationOp.py       | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index 179a7d3..362d171 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -55,7 +55,7 @@ class HarmonisationEIV:
 
     def run(self, HData,
                   pc_input=None, save_pc=None, gn_input=None, save_gn=None, save_directory_GNOp=None,
-                  show=1):
+                  show=1, return_covariance=True):
         """
         Return harmonised parameters and diagnostic data for input harmonisaton match-up data
 
@@ -76,7 +76,6 @@ class HarmonisationEIV:
         # 1.	Compute Approximate Solution to find Pre-conditioner to Full Problem
         ################################################################################################################
 
-        return_covariance = True
         if save_directory_GNOp is not None:
             return_covariance = False
 
diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
index 1d10d77..dd476e9 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
@@ -114,7 +114,7 @@ class HarmonisationOp:
         HarmonisationOutput = Harmonisation.run(HData,
                                                 pc_input=pc_input, save_pc=save_pc,
                                                 gn_input=gn_input, save_gn=save_gn,
-                                                show=show)
+                                                show=show, return_covariance=return_covariance)
 
         print "Final Solution:"
         print HarmonisationOutput.parameter
-- 
2.43.0


From 0f2bdc82ce8b22d9ae96ac071c93f915a14354de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 41/61] fix: HarmonisationOp.run writes its result without
 job_id and matchup_dataset

---
 .../harmonisation/tools/HarmonisationOp.py    | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
index dd476e9..8dd6eaa 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
@@ -128,17 +128,19 @@ class HarmonisationOp:
         # Add metadata
         startDate = ""
         endDate = ""
-        HarmonisationOutput.additional_attributes = {"software": software_cfg['software'],
-                                                     "software_version": software_cfg['version'],
-                                                     "software_tag": software_cfg['tag'],
-                                                     "job_id": software_cfg["job_id"],
-                                                     "matchup_dataset": "_".join((software_cfg['matchup_dataset'],
-                                                                                  startDate, endDate))}
+        cfg = {} if software_cfg is None else software_cfg   # job_id and matchup_dataset are not always known
+        HarmonisationOutput.additional_attributes = {}
+        for attribute, key in (("software", 'software'), ("software_version", 'version'),
+                               ("software_tag", 'tag'), ("job_id", 'job_id')):
+            if key in cfg:
+                HarmonisationOutput.additional_attributes[attribute] = cfg[key]
+        if 'matchup_dataset' in cfg:
+            HarmonisationOutput.additional_attributes["matchup_dataset"] = "_".join((cfg['matchup_dataset'],
+                                                                                     startDate, endDate))
 
         # Write data
-        fname_output = "_".join(("harm", software_cfg['software'], software_cfg['version'],
-                                 software_cfg['tag'], software_cfg["job_id"],
-                                 software_cfg['matchup_dataset'])) + ".nc"
+        fname_output = "_".join(["harm"] + [cfg[key] for key in ('software', 'version', 'tag', 'job_id',
+                                                                 'matchup_dataset') if key in cfg]) + ".nc"
         HarmonisationOutput.save(pjoin(output_dir, fname_output), save_residuals=res)
 
         print "\nOutput Data Written To:"
-- 
2.43.0


From fe6c17327ac362915686addf42466878254a7a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 42/61] fix: the saved Gauss-Newton solver state keeps the
 normalised adjustment factors

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index ee8e9fb..eb4154e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -990,6 +990,7 @@ class GNAlgo(object):
         M_T_dim = dataset.createDimension('M_T', len(self.HData.values))
         V_T_dim = dataset.createDimension('V_T', len(self.xyza))
         n_dim = dataset.createDimension('n', self.S.shape[0])
+        K_T_dim = dataset.createDimension('K_T', len(self.HData.ks))
 
         # 3. Create variables
 
@@ -1006,6 +1007,11 @@ class GNAlgo(object):
                                                "(transformed to normalised, independent parameterisation)"
         variables_t_estimate_var[:] = self.xyza
 
+        # > ks_t_initial variable
+        ks_t_initial_var = dataset.createVariable('ks_t_initial', 'f4', ('K_T',), zlib=True, complevel=9)
+        ks_t_initial_var.description = "Initial values of adjustment factors (normalised by uncertainty)"
+        ks_t_initial_var[:] = self.HData.ks
+
         # > preconditioner solution variable
         preconditioner_solution_var = dataset.createVariable('preconditioner_solution', 'f4', ('n', 'n',), zlib=True,
                                                              complevel=9)
@@ -1028,6 +1034,8 @@ class GNAlgo(object):
 
         self.S = dataset.variables['preconditioner_solution'][:]
         self.HData.values = dataset.variables['values_t_initial'][:]
+        if 'ks_t_initial' in dataset.variables:
+            self.HData.ks = dataset.variables['ks_t_initial'][:]
         self.xyza = dataset.variables['variables_t_estimate'][:]
         dataset.close()
 
-- 
2.43.0


From 5ff0485c18a6e4891349a9d4418f2adca0aaa55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 43/61] fix: a preconditioner solution without fit statistics
 can be saved and reopened

---
 .../harmonisationIO/HarmonisationResult.py          | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 55c8da5..4192f0d 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -279,9 +279,9 @@ class HarmonisationResult:
 
         # 2. Get attributes --------------------------------------------------------------------------------------------
         # a. Open required attributes
-        cost = dataset.cost
-        cost_dof = dataset.cost_dof
-        cost_p_value = dataset.cost_p_value
+        cost = getattr(dataset, "cost", None)
+        cost_dof = getattr(dataset, "cost_dof", None)
+        cost_p_value = getattr(dataset, "cost_p_value", None)
 
         # b. Open additinal attributes
         additional_attributes_keys = [str(attr) for attr in dataset.ncattrs()
@@ -604,9 +604,10 @@ class HarmonisationResult:
         rootgrp = Dataset(path, 'w')
 
         # 2. Set attributes
-        rootgrp.cost = cost
-        rootgrp.cost_dof = cost_dof
-        rootgrp.cost_p_value = cost_p_value
+        # (the preconditioner solution comes without statistics)
+        for name, statistic in (("cost", cost), ("cost_dof", cost_dof), ("cost_p_value", cost_p_value)):
+            if statistic is not None:
+                rootgrp.setncattr(name, statistic)
         rootgrp.setncatts(additional_attributes)
 
         # 3. Create dimensions
-- 
2.43.0


From d76434e29f3eeec765d513807fd00f7f495d5558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 44/61] fix: AVHRR converter reads sensor IDs as integers so
 that their names are found

---
 tools/AVHRR_to_updated_spec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 99c1813..b2bc739 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -119,8 +119,8 @@ def read_matchup_data(file_path):
     K = rootgrp.variables["K"][:]
     Kr = rootgrp.variables["Kr"][:]
     Ks = rootgrp.variables["Ks"][:]
-    sensor_1_name = rootgrp.variables["lm"][0, 0]
-    sensor_2_name = rootgrp.variables["lm"][0, 1]
+    sensor_1_name = int(rootgrp.variables["lm"][0, 0])
+    sensor_2_name = int(rootgrp.variables["lm"][0, 1])
     time_sensor_1 = rootgrp.variables["ref_time_matchup"][:]
     time_sensor_2 = rootgrp.variables["time_matchup"][:]
     u_C_S_sensor_1 = rootgrp.variables['ref_cal_Sp_Ur'][:, :]
-- 
2.43.0


From 55c03904d1ff8c47f910954594e538c50a46e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 45/61] fix: AVHRR converter writes 3.7 micron files to the 3.7
 micron directories

---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index b2bc739..604aaa3 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -441,7 +441,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
 def prepare_directories(directory, input_file_path, band):
 
-    if band == "37":
+    if band == 37:
         directory_3_RSA = pjoin(directory, "AVHRR_REAL_105_RSW_")
         directory_4_RSA = pjoin(directory, "AVHRR_REAL_106_RSW_")
         directory_3_R_A = pjoin(directory, "AVHRR_REAL_105_R_W_")
-- 
2.43.0


From f66fc320ad075c397705e373262056061c3c5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 46/61] fix: AVHRR converter applies the temperature limit to
 the renamed brightness temperature

---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 604aaa3..dc06878 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -707,7 +707,7 @@ def main(input_file_path, output_directory, temp_lim=None):
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2)
     else:
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2,
-                                                    additional_variables['BT11']['data'], temp_lim)
+                                                    additional_variables['BT']['data'], temp_lim)
 
     # > Define X1, X2, Ur1, Ur2, Us1 and Us2 arrays
     m1 = 5
-- 
2.43.0


From b1a780c40a1ca76db9a767c0a6da48f4ba47a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 47/61] fix: microwave converter reads the times of sensor 2
 for its W matrix

---
 tools/MW_add_W_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index 5885644..7e6c669 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -82,7 +82,7 @@ def read_matchup_data(file_path):
     sensor_2_name = dataset.sensor_2_name
 
     time1 = dataset.variables['time1'][:]
-    time2 = dataset.variables['time1'][:]
+    time2 = dataset.variables['time2'][:]
 
     uR1 = dataset.variables['Ur1'][0, :]
     uR2 = dataset.variables['Ur2'][0, :]
-- 
2.43.0


From 7f387e1a0d2b64baeff5d8ebba97e6d410afbf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 48/61] fix: pmh2fiduceo converts several series of different
 sizes

---
 tools/pmh2fiduceo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 8ffcae1..3144cc1 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -761,12 +761,12 @@ def run_conversion(input_directory, output_directory):
         uncertainty_type2 = array(uncertainty_type)
 
         K = H[i_start:i_end, -1]
-        Kr = full(n_mu, Kr)
+        Kr_i = full(n_mu, Kr)
         Ks = zeros(n_mu)
 
         time = arange(i_start, i_end)
 
-        write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr, Ks,
+        write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr_i, Ks,
                          time, time, sensor_1_name, sensor_2_name, additional_variables=None)
 
     logger.info("Adding W matrices...")
-- 
2.43.0


From a60d754f4f44ba265388946b9dd9f5c23364cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 49/61] fix: pmh2fiduceo reads data of a single match-up

---
 tools/pmh2fiduceo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 3144cc1..6147079 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -128,7 +128,7 @@ def prepare_directories(input_directory, output_directory):
 def open_data_vals(input_directory):
     path = os.path.join(input_directory, "data_vals.txt")
     logger.debug("Opening: "+path)
-    return loadtxt(path)
+    return loadtxt(path, ndmin=2)
 
 
 def open_data_pams(input_directory):
-- 
2.43.0


From 738d727d8bbd9e7ceb30de5dfa6877d698cb12f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 50/61] fix: pmh2fiduceo passes the parsed command line to main

---
 tools/pmh2fiduceo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 6147079..42f9664 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -818,5 +818,4 @@ def main(parsed_cmdline):
     return 0
 
 if __name__ == "__main__":
-    #main(parsed_cmdline)
-    main()
+    main(parsed_cmdline)
-- 
2.43.0


From baa230ee63a6694900f63835e1b0fa0984406439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 51/61] fix: pmh2fiduceo builds each file's W matrix from that
 file's match-ups

---
 tools/pmh2fiduceo.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 42f9664..88b7437 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -723,6 +723,7 @@ def run_conversion(input_directory, output_directory):
     i_start = 0
     i_end = 0
     nX = len(uR)
+    times = []
 
     output_file_paths = [os.path.join(output_directory, "_".join(s)+".nc") for s in Im]
 
@@ -765,6 +766,7 @@ def run_conversion(input_directory, output_directory):
         Ks = zeros(n_mu)
 
         time = arange(i_start, i_end)
+        times.append(time)
 
         write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr_i, Ks,
                          time, time, sensor_1_name, sensor_2_name, additional_variables=None)
@@ -776,15 +778,17 @@ def run_conversion(input_directory, output_directory):
     # Check all W matrices the same
     if (nW_w.count(nW_w[0]) != len(nW_w)) and (uR_w.count(uR_w[0]) != len(uR_w)):
         raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
-    else:
-        w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(time, 1.0, uR_w[0], kernel_size=nW_w[0])
-        w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
-        uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
 
     w_matrix_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
     uncertainty_vector_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
 
-    for o, sensor_pair in zip(output_file_paths, Im):
+    for o, sensor_pair, time in zip(output_file_paths, Im, times):
+
+        # W matrix for the match-ups of this file
+        w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(time, 1.0, uR_w[0], kernel_size=nW_w[0])
+        w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
+        uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
+
         if sensor_pair[0] == '0':
             w_matrix_use1 = array([0], int8)
             uncertainty_vector_use1 = array([0], int8)
-- 
2.43.0


From f68b018710eda1a9b5f8f1953b9414560c9ea74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 52/61] fix: pmh2fiduceo refuses moving averages that differ in
 window or uncertainty

---
 tools/pmh2fiduceo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 88b7437..952a393 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -776,7 +776,7 @@ def run_conversion(input_directory, output_directory):
     nW_w = [n for n,t in zip(nW, uncertainty_type) if t == 3]
 
     # Check all W matrices the same
-    if (nW_w.count(nW_w[0]) != len(nW_w)) and (uR_w.count(uR_w[0]) != len(uR_w)):
+    if (len(set(nW_w)) > 1) or (len(set(uR_w)) > 1):
         raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
 
     w_matrix_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
-- 
2.43.0


From e3005b0be06b80c1c0350b2221f4251189ebe041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 53/61] fix: pmh2fiduceo converts data without moving average
 variables

---
 tools/pmh2fiduceo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 952a393..6046cbf 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -784,6 +784,10 @@ def run_conversion(input_directory, output_directory):
 
     for o, sensor_pair, time in zip(output_file_paths, Im, times):
 
+        # Files without moving average variables have no W matrices
+        if len(nW_w) == 0:
+            continue
+
         # W matrix for the match-ups of this file
         w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(time, 1.0, uR_w[0], kernel_size=nW_w[0])
         w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
-- 
2.43.0


From 5c8996fa0242b2624195bc471b08caec0290267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:34 +0000
Subject: [PATCH 54/61] Restore tools/AVHRR_to_updated_spec.py (its name is
 that of a test file)

---
 tools/AVHRR_to_updated_spec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index dc06878..99c1813 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -119,8 +119,8 @@ def read_matchup_data(file_path):
     K = rootgrp.variables["K"][:]
     Kr = rootgrp.variables["Kr"][:]
     Ks = rootgrp.variables["Ks"][:]
-    sensor_1_name = int(rootgrp.variables["lm"][0, 0])
-    sensor_2_name = int(rootgrp.variables["lm"][0, 1])
+    sensor_1_name = rootgrp.variables["lm"][0, 0]
+    sensor_2_name = rootgrp.variables["lm"][0, 1]
     time_sensor_1 = rootgrp.variables["ref_time_matchup"][:]
     time_sensor_2 = rootgrp.variables["time_matchup"][:]
     u_C_S_sensor_1 = rootgrp.variables['ref_cal_Sp_Ur'][:, :]
@@ -441,7 +441,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
 def prepare_directories(directory, input_file_path, band):
 
-    if band == 37:
+    if band == "37":
         directory_3_RSA = pjoin(directory, "AVHRR_REAL_105_RSW_")
         directory_4_RSA = pjoin(directory, "AVHRR_REAL_106_RSW_")
         directory_3_R_A = pjoin(directory, "AVHRR_REAL_105_R_W_")
@@ -707,7 +707,7 @@ def main(input_file_path, output_directory, temp_lim=None):
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2)
     else:
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2,
-                                                    additional_variables['BT']['data'], temp_lim)
+                                                    additional_variables['BT11']['data'], temp_lim)
 
     # > Define X1, X2, Ur1, Ur2, Us1 and Us2 arrays
     m1 = 5
-- 
2.43.0


From 44f1c1234cdeda1bbd265e06434d76fc2111e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:35 +0000
Subject: [PATCH 55/61] fix: LSMR leaves its solution in .x also when there is
 nothing to solve

---
 .../harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index 9d625b0..a447d74 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -285,6 +285,7 @@ class LSMRFramework(KrylovMethod):
         if normar == 0:
             if show:
                 print msg[0]
+            self.x = x
             return x, istop, itn, normr, normar, normA, condA, normx
 
         if show:
-- 
2.43.0


From e1d0e2c4a31612a9ffe129671297331d82712ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:35 +0000
Subject: [PATCH 56/61] fix: LSMR does not divide by a residual that is exactly
 zero

---
 .../harmonisation_eiv/pykrylov_lsmr.py                       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index a447d74..1209737 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -423,7 +423,10 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            if normr > 0:
+                test2 = normar/(normA*normr)
+            else:
+                test2 = 0    # The residual vanishes: so does A'r.
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
-- 
2.43.0


From 47c00c8e8485d11e0b5f2640116edddcc66718f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:35 +0000
Subject: [PATCH 57/61] fix: LSMR accepts an operator with one row

---
 .../harmonisation_eiv/pykrylov_lsmr.py                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index 1209737..35a4dfb 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -21,7 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov_generic import KrylovMethod
 
-from numpy import zeros, dot
+from numpy import zeros, dot, atleast_1d
 from numpy.linalg import norm
 from math import sqrt
 
@@ -178,7 +178,7 @@ class LSMRFramework(KrylovMethod):
         self.iterates = []
 
         A = self.A
-        b = b.squeeze()
+        b = atleast_1d(b.squeeze())
         msg = self.msg
 
         hdg1 = '   itn      x(1)       norm r    norm A''r'
-- 
2.43.0


From e2c15f01fdc14030ded709f0f3f5621ab69e61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:35 +0000
Subject: [PATCH 58/61] fix: MINRES stops when the right-hand side is an
 eigenvector

---
 .../harmonisation_eiv/pykrylov_minres.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index a56d3c0..96ae44b 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -378,7 +378,7 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
                 if (itn % 10)==0: print ' '
 
-- 
2.43.0


From 093855eaf2a233cd60a02f35c1a7cf342bbdaa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:35 +0000
Subject: [PATCH 59/61] fix: MINRES's norm of the operator does not depend on
 the right-hand side

---
 .../harmonisation_eiv/pykrylov_minres.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index 96ae44b..491ed5a 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -259,7 +259,7 @@ class Minres(KrylovMethod):
                     if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
                         istop = -1            # Terminate later.
 
-                    # tnorm2 = alfa**2  ??
+                    tnorm2 = alfa**2 + beta**2    # beta1 = norm(b) is no part of A.
                     gmax   = abs(alfa)        # alpha1
                     gmin   = gmax             # alpha1
 
-- 
2.43.0


From 49ab06d4e60831295687bf515c9d8bf6d5d6708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:35 +0000
Subject: [PATCH 60/61] fix: MINRES reports the length of its solution

---
 .../harmonisation_eiv/pykrylov_minres.py                 | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index 491ed5a..d28748e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -200,8 +200,7 @@ class Minres(KrylovMethod):
         # Initialize other quantities.
         # ------------------------------------------------------------------
         oldb   = 0.0;     beta   = beta1;   dbar   = 0.0;     epsln  = 0.0
-        qrnorm = beta1;   phibar = beta1;   rhs1   = beta1;   Arnorm = 0.0
-        rhs2   = 0.0;     tnorm2 = 0.0;     ynorm2 = 0.0
+        qrnorm = beta1;   phibar = beta1;   Arnorm = 0.0;     tnorm2 = 0.0
         cs     = -1.0;    sn     = 0.0
         w  = zeros(n, dtype=result_type)
         w2 = zeros(n, dtype=result_type)
@@ -313,15 +312,11 @@ class Minres(KrylovMethod):
 
                 gmax   = max(gmax, gamma)
                 gmin   = min(gmin, gamma)
-                z      = rhs1 / gamma
-                ynorm2 = z**2  +  ynorm2
-                rhs1   = rhs2 -  delta*z
-                rhs2   =      -  epsln*z
 
                 # Estimate various norms and test for convergence.
 
                 Anorm  = sqrt(tnorm2)
-                ynorm  = sqrt(ynorm2)
+                ynorm  = norm(x)
                 epsa   = Anorm * eps
                 epsx   = Anorm * ynorm * eps
                 epsr   = Anorm * ynorm * rtol
-- 
2.43.0


From 58ddf386d85b8889ff687bbf7d246742778d87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:13 +0000
Subject: [PATCH 61/61] fix: LSMR's condition estimate does not contain the
 starting value 1

---
 .../harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index 35a4dfb..26d0479 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -408,8 +408,8 @@ class LSMRFramework(KrylovMethod):
             normA2        = normA2 + alpha*alpha
 
             # Estimate cond(A).
-            maxrbar       = max(maxrbar,rhobarold)
             if itn>1:
+              maxrbar     = max(maxrbar,rhobarold)
               minrbar     = min(minrbar,rhobarold)
             condA         = max(maxrbar,rhotemp)/min(minrbar,rhotemp)
 
-- 
2.43.0

