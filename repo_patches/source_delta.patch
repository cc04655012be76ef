From 80d3758d452031d3693df1e6a07ac14c74538700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:49 +0000
Subject: [PATCH 01/79] fix: interlace navigation data by numeric timestamp

Timestamps were compared as strings, so readings whose epochs have a
different number of digits (or a sign) were written out of order.
---
 src/auv_nav/parsers/parse_interlacer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_interlacer.py b/src/auv_nav/parsers/parse_interlacer.py
index b6e6b34..786245d 100644
--- a/src/auv_nav/parsers/parse_interlacer.py
+++ b/src/auv_nav/parsers/parse_interlacer.py
@@ -31,7 +31,7 @@ def parse_interlacer(outpath, filename):
         with filepath.open("r") as json_file:
             data = json.load(json_file)
             for i, data_packet in enumerate(data):
-                value.append(str(float(data_packet["epoch_timestamp"])))
+                value.append(float(data_packet["epoch_timestamp"]))
 
     except ValueError:
         Console.quit("Error: no data in JSON file")
-- 
2.43.0


From f235aff1967bf9f48b3b761a771a18caf262c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 02/79] fix: do not carry image timestamps over from one dive
 to the next

parse_acfr_images and parse_biocam_images kept their timestamps in
module-level lists, so when several dives are parsed in one run the second
dive's images were given the first dive's timestamps and stereo pairs.
---
 src/auv_nav/parsers/parse_acfr_images.py   |  6 ++----
 src/auv_nav/parsers/parse_biocam_images.py | 10 ++++------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/auv_nav/parsers/parse_acfr_images.py b/src/auv_nav/parsers/parse_acfr_images.py
index 560e515..8f2756b 100644
--- a/src/auv_nav/parsers/parse_acfr_images.py
+++ b/src/auv_nav/parsers/parse_acfr_images.py
@@ -16,10 +16,6 @@ import os
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -105,6 +101,8 @@ def parse_acfr_images(mission, vehicle, category, ftype, outpath):
         Console.warn("   --  Will assume that you want to process one camera only.")
         camera2_filename = camera1_filename
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
diff --git a/src/auv_nav/parsers/parse_biocam_images.py b/src/auv_nav/parsers/parse_biocam_images.py
index 5ea0ad9..58257f0 100644
--- a/src/auv_nav/parsers/parse_biocam_images.py
+++ b/src/auv_nav/parsers/parse_biocam_images.py
@@ -20,12 +20,6 @@ from scipy.stats import linregress
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-stamp_pc1 = []
-stamp_pc2 = []
-stamp_cam1 = []
-stamp_cam2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -168,6 +162,10 @@ def parse_biocam_images(mission, vehicle, category, ftype, outpath):
         + " BioCam images!"
     )
 
+    stamp_pc1 = []
+    stamp_pc2 = []
+    stamp_cam1 = []
+    stamp_cam2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
-- 
2.43.0


From e422ad0463dd8d238517ce3d62f291bed5b2d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 03/79] fix: only treat a dive as parsed when an output of
 parse exists

The camera file check was for the processed folder itself, so any
pre-existing processed folder (e.g. the log folder) made parse skip the dive
unless it was forced to overwrite.
---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index e2549bc..e764f8e 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -790,7 +790,7 @@ def check_output_files_exist(processed_dataset_folder):
     """Check if any of the files exist, which `auv_nav parse` writes to disk"""
     mission_file = processed_dataset_folder / "mission.yaml"
     vehicle_file = processed_dataset_folder / "vehicle.yaml"
-    camera_file = processed_dataset_folder / ""
+    camera_file = processed_dataset_folder / "camera.yaml"
     nav_file = processed_dataset_folder / "nav" / "nav_standard.json"
     data_plot_file = processed_dataset_folder / "nav" / "json_data_info.html"
     history_plot_file = processed_dataset_folder / "nav" / "timestamp_history.html"
-- 
2.43.0


From 8da5ec637f30a08e20d4ec804ef50d9268076bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 04/79] fix: tidal correction of every reading within the tide
 data

Readings in the last tide interval and at the first tide sample were left
uncorrected, and readings or tide files that are not in chronological order
were interpolated on the wrong interval.
---
 src/auv_nav/parse.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index e764f8e..0eb2f46 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -651,6 +651,8 @@ def parse_single(filepath, force_overwrite):
             tide_list = parse_tide_CTI(mission, vehicle, "tide", ftype, outpath)
         else:
             Console.quit("Mission tide format", mission.tide.format, "not supported.")
+        # tide files are listed in arbitrary order
+        tide_list.sort(key=lambda tide: tide["epoch_timestamp"])
     else:
         tide_list = None
 
@@ -712,23 +714,30 @@ def parse_single(filepath, force_overwrite):
                 missing_tide_data_after = False
                 j = 0
                 for k in range(len(results)):
+                    # readings are not necessarily in chronological order
                     while (
-                        j < len(tide_list)-2
+                        j > 0
+                        and tide_list[j - 1]["epoch_timestamp"]
+                        >= results[k]["epoch_timestamp"]
+                    ):
+                        j = j - 1
+                    while (
+                        j < len(tide_list) - 1
                         and tide_list[j]["epoch_timestamp"]
                         < results[k]["epoch_timestamp"]
                     ):
                         j = j + 1
 
-                    if j == 0:
+                    if results[k]["epoch_timestamp"] < tide_list[0]["epoch_timestamp"]:
                         missing_tide_data_before = True
                     elif (
                         results[k]["epoch_timestamp"] <= tide_list[j]["epoch_timestamp"]
                     ):
                         _result = interpolate(
                             results[k]["epoch_timestamp"],
-                            tide_list[j - 1]["epoch_timestamp"],
+                            tide_list[max(j - 1, 0)]["epoch_timestamp"],
                             tide_list[j]["epoch_timestamp"],
-                            tide_list[j - 1]["data"][0]["height"],
+                            tide_list[max(j - 1, 0)]["data"][0]["height"],
                             tide_list[j]["data"][0]["height"],
                         )
                         if results[0]["category"] == Category.DEPTH:
-- 
2.43.0


From 2386411cec61e58d235223124479201590cd99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:06 +0000
Subject: [PATCH 05/79] fix: merged dives can be written and processed

Merging copied configuration files from the processed folder, where parse
never puts them, and process looked for them in a raw folder that a merged
dive does not have. Laser readings that keep their filename per camera also
stopped the merge.
---
 src/auv_nav/parse.py   | 14 +++++++-------
 src/auv_nav/process.py |  7 +++++--
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 0eb2f46..18af3e8 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -90,7 +90,7 @@ def merge_json_files(json_file_list):
                 item["camera3"][0]["filename"] = (
                     dive_prefix + item["camera3"][0]["filename"]
                 )
-            if item["category"] == "laser":
+            if item["category"] == "laser" and "filename" in item:
                 item["filename"] = dive_prefix + item["filename"]
             data_list.append(item)
 
@@ -155,15 +155,15 @@ def parse(filepath, force_overwrite, merge):
 
         # copy mission.yaml and vehicle.yaml to processed folder for
         # process step
-        mission_processed = get_processed_folder(filepath[0]) / "mission.yaml"
-        vehicle_processed = get_processed_folder(filepath[0]) / "vehicle.yaml"
-        camera_processed = get_processed_folder(filepath[0]) / "camera.yaml"
+        mission_raw = get_raw_folder(filepath[0]) / "mission.yaml"
+        vehicle_raw = get_raw_folder(filepath[0]) / "vehicle.yaml"
+        camera_raw = get_raw_folder(filepath[0]) / "camera.yaml"
         mission_merged = processed_path / foldername / "mission.yaml"
         vehicle_merged = processed_path / foldername / "vehicle.yaml"
         camera_merged = processed_path / foldername / "camera.yaml"
-        mission_processed.copy(mission_merged)
-        vehicle_processed.copy(vehicle_merged)
-        camera_processed.copy(camera_merged)
+        mission_raw.copy(mission_merged)
+        vehicle_raw.copy(vehicle_merged)
+        camera_raw.copy(camera_merged)
 
         # interlace the data based on timestamps
         Console.info("Interlacing merged data...")
diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 632374e..323cadc 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -360,12 +360,15 @@ def process(
 
     Console.info("Loading vehicle.yaml")
     vehicle_file = filepath / "vehicle.yaml"
-    vehicle_file = get_raw_folder(vehicle_file)
+    if get_raw_folder(vehicle_file).exists() or not vehicle_file.exists():
+        # Merged dives only have their configuration in the processed folder
+        vehicle_file = get_raw_folder(vehicle_file)
     vehicle = Vehicle(vehicle_file)
 
     Console.info("Loading mission.yaml")
     mission_file = filepath / "mission.yaml"
-    mission_file = get_raw_folder(mission_file)
+    if get_raw_folder(mission_file).exists() or not mission_file.exists():
+        mission_file = get_raw_folder(mission_file)
     mission = Mission(mission_file)
 
     time_str = time.strftime("%Y%m%d_%H%M%S", time.localtime())
-- 
2.43.0


From 22654f7a6711cf27685e129120dae7ef5dc4f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:29 +0000
Subject: [PATCH 06/79] fix: read the timestamp and filename of BioCam laser
 images

Laser readings of BioCam are stored under camera3, but were looked up under
camera1, leaving them without timestamp and filename.
---
 src/auv_nav/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 323cadc..1ebf36d 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -501,7 +501,7 @@ def process(
 
             if "laser" in parsed_json_data[i]["category"]:
                 camera3 = Camera()
-                camera3.from_json(parsed_json_data[i], "camera1")
+                camera3.from_json(parsed_json_data[i], "camera3")
                 camera3_list.append(camera3)
 
     camera1_dr_list = copy.deepcopy(camera1_list)
-- 
2.43.0


From 10c26c75dd96ea478e9c55157a3d75f038afe7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:29 +0000
Subject: [PATCH 07/79] fix: georeference EKF camera poses at the camera

Latitude and longitude were computed from the northings and eastings of the
vehicle origin, inconsistent with the camera's own northings and eastings.
---
 src/auv_nav/sensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index ffdafb6..2b485bc 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1898,8 +1898,8 @@ class Camera(SyncedOrientationBodyVelocity):
         [self.latitude, self.longitude] = metres_to_latlon(
             latitude_reference,
             longitude_reference,
-            other.eastings,
-            other.northings,
+            self.eastings,
+            self.northings,
         )
 
         self.updated = True
-- 
2.43.0


From ecce4f75f744032fa2192566622056d054e0c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:36 +0000
Subject: [PATCH 08/79] fix: interpolate the ship heading along the shortest
 arc

Interpolating across north gave a heading pointing the opposite way.
---
 src/auv_nav/parsers/parse_gaps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index 5f92c1a..bcf0449 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -316,7 +316,8 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                         + latitude_prior
                     )
                     heading_ship = (
-                        inter_time * (heading_ship_posterior - heading_ship_prior)
+                        inter_time
+                        * ((heading_ship_posterior - heading_ship_prior + 180) % 360 - 180)
                         + heading_ship_prior
                     )
 
-- 
2.43.0


From 47dceff0d41204e590c916a740146e1a0b605777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:45 +0000
Subject: [PATCH 09/79] fix: use the time offset given for a camera

Only timeoffset_s was read, so the SeaXerocks image parser failed (None + float)
on missions that give no offset, or give it as timeoffset.
---
 src/oplab/mission.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 508dc6f..9b8aa16 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -131,8 +131,7 @@ class CameraEntry:
             if "timeoffset" in node:
                 self.timeoffset = node["timeoffset"]
             self.records_laser = node.get("records_laser", False)
-            if "timeoffset_s" in node:
-                self.timeoffset_s = node["timeoffset_s"]
+            self.timeoffset_s = node.get("timeoffset_s", self.timeoffset)
 
     def write(self, node):
         node["name"] = self.name
-- 
2.43.0


From de07ad94518e8df87e6721a7b4cd9ca916be3375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:27 +0000
Subject: [PATCH 10/79] fix: give images at the end of the track their own pose

Images after the last pose that is not later than the last image were
extrapolated from the previous interval, all but the first image in the
last interval were dropped, the first image after the end of the track was
kept, and a list without any overlap was kept without poses.
---
 src/auv_nav/tools/interpolate.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index e62e609..cf27cb4 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -326,6 +326,7 @@ def interpolate_sensor_list(
             "{} timestamps does not overlap with dead reckoning data, "
             "check timestamp_history.pdf via -v option.".format(sensor_name)
         )
+        del sensor_list[:]
     else:
         sensor_overlap_flag = 0
         for i in range(len(sensor_list)):
@@ -350,7 +351,7 @@ def interpolate_sensor_list(
                     del sensor_list[:i]
                 break
         for i in range(len(sensor_list)):
-            if j >= len(_centre_list) - 1:
+            if sensor_list[i].epoch_timestamp > end_time:
                 ii = len(sensor_list) - i
                 if ii > 0:
                     Console.warn(
@@ -370,12 +371,6 @@ def interpolate_sensor_list(
                 sensor_overlap_flag = 1
                 break
             while _centre_list[j].epoch_timestamp < sensor_list[i].epoch_timestamp:
-                if (
-                    j + 1 > len(_centre_list) - 1
-                    or _centre_list[j + 1].epoch_timestamp
-                    > sensor_list[-1].epoch_timestamp
-                ):
-                    break
                 j += 1
             # if j>=1: ?
 
-- 
2.43.0


From af54309f289e117a1bb531adb8e35a9a86e1abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 11/79] fix: give a single image its pose and write tables with
 one row

---
 src/auv_nav/process.py         | 18 +++++++++---------
 src/auv_nav/tools/csv_tools.py |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 1ebf36d..1abc5c9 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1222,7 +1222,7 @@ def process(
     ]
     latlon_reference = [mission.origin.latitude, mission.origin.longitude]
 
-    if len(camera1_dr_list) > 1:
+    if len(camera1_dr_list) > 0:
         interpolate_sensor_list(
             camera1_dr_list,
             mission.image.cameras[0].name,
@@ -1231,7 +1231,7 @@ def process(
             latlon_reference,
             dead_reckoning_centre_list,
         )
-    if len(camera2_dr_list) > 1:
+    if len(camera2_dr_list) > 0:
         interpolate_sensor_list(
             camera2_dr_list,
             mission.image.cameras[1].name,
@@ -1240,7 +1240,7 @@ def process(
             latlon_reference,
             dead_reckoning_centre_list,
         )
-    if len(camera3_dr_list) > 1 and camera3_dr_list[0].epoch_timestamp is not None:
+    if len(camera3_dr_list) > 0 and camera3_dr_list[0].epoch_timestamp is not None:
         if len(mission.image.cameras) > 2:
             interpolate_sensor_list(
                 camera3_dr_list,
@@ -1261,7 +1261,7 @@ def process(
             )
 
     if len(pf_fusion_centre_list) > 1:
-        if len(camera1_pf_list) > 1:
+        if len(camera1_pf_list) > 0:
             interpolate_sensor_list(
                 camera1_pf_list,
                 mission.image.cameras[0].name,
@@ -1270,7 +1270,7 @@ def process(
                 latlon_reference,
                 pf_fusion_centre_list,
             )
-        if len(camera2_pf_list) > 1:
+        if len(camera2_pf_list) > 0:
             interpolate_sensor_list(
                 camera2_pf_list,
                 mission.image.cameras[1].name,
@@ -1279,7 +1279,7 @@ def process(
                 latlon_reference,
                 pf_fusion_centre_list,
             )
-        if len(camera3_pf_list) > 1:
+        if len(camera3_pf_list) > 0:
             if len(mission.image.cameras) > 2:
                 interpolate_sensor_list(
                     camera3_pf_list,
@@ -1714,7 +1714,7 @@ def process(
     if csv_output_activate:
         Console.info("Writing csv outputs to {}".format(csvpath))
         if csv_usbl:
-            if len(usbl_list) > 1:
+            if len(usbl_list) > 0:
                 if not csvpath.exists():
                     csvpath.mkdir()
                 auv_usbl_file = csvpath / "auv_usbl.csv"
@@ -1863,7 +1863,7 @@ def process(
                 )
                 t.start()
                 threads.append(t)
-        if len(camera2_dr_list) > 1:
+        if len(camera2_dr_list) > 0:
             t = threading.Thread(
                 target=write_csv,
                 args=[
@@ -1899,7 +1899,7 @@ def process(
                 )
                 t.start()
                 threads.append(t)
-        if len(camera3_dr_list) > 1:
+        if len(camera3_dr_list) > 0:
             if len(mission.image.cameras) > 2:
                 t = threading.Thread(
                     target=write_csv,
diff --git a/src/auv_nav/tools/csv_tools.py b/src/auv_nav/tools/csv_tools.py
index 35d0207..05b4765 100644
--- a/src/auv_nav/tools/csv_tools.py
+++ b/src/auv_nav/tools/csv_tools.py
@@ -45,7 +45,7 @@ def write_csv(
     csv_flag: Optional[bool] = True,
     mutex: Optional[Lock] = None,
 ):
-    if csv_flag is True and len(data_list) > 1:
+    if csv_flag is True and len(data_list) > 0:
         csv_file = Path(csv_filepath)
 
         if not csv_file.exists():
-- 
2.43.0


From 1700c8aeaada13fad85437d2a1352cb25ff4e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:37 +0000
Subject: [PATCH 12/79] fix: latitude and longitude of the particle filter
 track

---
 src/auv_nav/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 1abc5c9..91e6147 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1189,8 +1189,10 @@ def process(
         )
         pf_fusion_centre_list = copy.deepcopy(pf_fusion_dvl_list)
         for i in range(len(pf_fusion_centre_list)):
-            pf_fusion_dvl_list[i].latitude,
-            pf_fusion_dvl_list[i].longitude = metres_to_latlon(
+            (
+                pf_fusion_dvl_list[i].latitude,
+                pf_fusion_dvl_list[i].longitude,
+            ) = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
                 pf_fusion_dvl_list[i].eastings,
-- 
2.43.0


From ea0b50d49a4a2e3a9985b3bc1a5e8437a3686fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:37 +0000
Subject: [PATCH 13/79] fix: do not modify lists that are still being written

The SLAM++ conversion and the removal of the first inertial velocity
changed lists while the csv writer threads were using them.
---
 src/auv_nav/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 91e6147..26f3fd5 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -606,7 +606,7 @@ def process(
     threads.append(t)
     t = threading.Thread(
         target=write_csv,
-        args=[raw_sensor_path, velocity_inertial_list, "velocity_inertial"],
+        args=[raw_sensor_path, list(velocity_inertial_list), "velocity_inertial"],
         kwargs={"mutex": mutex},
     )
     t.start()
@@ -2034,6 +2034,8 @@ def process(
             t.start()
             threads.append(t)
     if spp_output_activate and ekf_activate:
+        # The csv writers may still be using the poses
+        camera1_ekf_list = copy.deepcopy(camera1_ekf_list)
         Console.info("Converting covariance matrices into information matrices...")
         for i in range(len(camera1_ekf_list)):
             camera1_ekf_list[i].get_info()
-- 
2.43.0


From 5cc43682d9805af51b4095be5dc8f1fd40fc01d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:37 +0000
Subject: [PATCH 14/79] fix: keep the first dead reckoning pose

It was removed when exactly one orientation preceded the first velocity,
although that orientation is not part of the track.
---
 src/auv_nav/process.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 26f3fd5..86d7b79 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -785,9 +785,6 @@ def process(
     # do something? because time_orientation may be way before
     # time_velocity_body
 
-    if start_interpolate_index == 1:
-        interpolate_remove_flag = True
-
     # time_velocity_body)):
     for i in range(start_interpolate_index, len(orientation_list)):
         # interpolate to find the appropriate dvl time for the orientation
@@ -977,12 +974,6 @@ def process(
         dead_reckoning_centre_list[i].depth += z_offset
     # correct for altitude and depth offset too!
 
-    # remove first term if first time_orientation is < velocity_body time
-    if interpolate_remove_flag:
-        # del time_orientation[0]
-        del dead_reckoning_centre_list[0]
-        del dead_reckoning_dvl_list[0]
-        interpolate_remove_flag = False  # reset flag
     Console.info(
         "Completed interpolation and coordinate transfomations for",
         "velocity_body",
-- 
2.43.0


From 92fadac2d86ef789bd0927fe9c289c9d98586355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:58 +0000
Subject: [PATCH 15/79] fix: offset dead reckoning by all overlapping USBL
 fixes

The search for a start point crashed for fixes more than 20 s apart, a
single fix and fixes outside of dead reckoning, and skipped the first
fix.
---
 src/auv_nav/localisation/usbl_offset.py | 51 +++++--------------------
 1 file changed, 10 insertions(+), 41 deletions(-)

diff --git a/src/auv_nav/localisation/usbl_offset.py b/src/auv_nav/localisation/usbl_offset.py
index 9e9ad1d..59cf536 100644
--- a/src/auv_nav/localisation/usbl_offset.py
+++ b/src/auv_nav/localisation/usbl_offset.py
@@ -27,48 +27,17 @@ def usbl_offset(
 ):
     # ===============Average Offset============================================
     start_dead_reckoning = 0
-    start_usbl = 0
 
-    threshold = 20  # what to consider a big jump in time
-    exit_flag = False
-
-    # Find suitable start points
-    if time_usbl[0] < time_dead_reckoning[0]:
-        Console.info("USBL starts before dead_reckoning")
-        while exit_flag is False:
-            if start_usbl + 1 >= len(time_usbl):
-                break
-            if (
-                time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl + 1]
-                > 0
-            ):
-                start_usbl = start_usbl + 1
-            else:
-                if (
-                    time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl]
-                    < threshold
-                    and time_usbl[start_usbl + 1] - time_usbl[start_usbl] < threshold
-                ):
-                    start_usbl += 1
-                    exit_flag = True
-                else:
-                    start_dead_reckoning = start_dead_reckoning + 1
-    else:
-        # print('usbl starts after dead_reckoning')
-        while exit_flag is False:
-            if time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl] < 0:
-                start_dead_reckoning = start_dead_reckoning + 1
-
-            else:
-                if (
-                    time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl]
-                    < threshold
-                    and time_usbl[start_usbl + 1] - time_usbl[start_usbl] < threshold
-                ):
-                    start_usbl += 1
-                    exit_flag = True
-                else:  # if the jump is too big, ignore and try another fix
-                    start_usbl = start_usbl + 1
+    # Only fixes received during dead reckoning can be compared to it
+    overlapping = [
+        i
+        for i in range(len(time_usbl))
+        if time_dead_reckoning[0] <= time_usbl[i] <= time_dead_reckoning[-1]
+    ]
+    if len(overlapping) == 0:
+        Console.warn("No USBL fix overlaps with dead reckoning. Not offsetting it...")
+        return 0.0, 0.0
+    start_usbl = overlapping[0]
 
     northings_dead_reckoning_interpolated = []
     eastings_dead_reckoning_interpolated = []
-- 
2.43.0


From 716641fbb24593156e82f56438103b4d538b030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 16/79] fix: use every fix of the track in the particle filter

---
 src/auv_nav/localisation/pf.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 1e84b2b..9d0cc96 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -383,18 +383,12 @@ def get_prior(dr_list, usbl_list):
     eastings_mean = np.mean(eastings_error)
     northings_mean = np.mean(northings_error)
 
-    dr_index = 0
+    # Skip the fixes taken before the start of DR
     usbl_index = 0
-    usbl_t = usbl_list[usbl_index].epoch_timestamp
-    dr_t = dr_list[usbl_index].epoch_timestamp
-
-    while dr_index < len(dr_list) and usbl_t > dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
-        dr_index += 1
-    while usbl_index < len(usbl_list) and usbl_t < dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
+    while (
+        usbl_index < len(usbl_list)
+        and usbl_list[usbl_index].epoch_timestamp < dr_list[0].epoch_timestamp
+    ):
         usbl_index += 1
 
     # Fix DR to index zero
-- 
2.43.0


From 2d6d277d87047f46f532e20e3e0fd572f32dac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 17/79] fix: altitude of the particle filter poses

---
 src/auv_nav/localisation/pf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 9d0cc96..2c02824 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -196,6 +196,7 @@ class DeadReckoningMovementModel:
         p.state[Index.VZ, 0] = linear_noise(
             Index.VZ, velocity_std_factor_z, velocity_std_offset_z, k_dvl
         )
+        p.state[Index.ALT, 0] = self.movement[Index.ALT, 0]
 
         cr = math.cos(p.state[Index.ROLL, 0])
         sr = math.sin(p.state[Index.ROLL, 0])
-- 
2.43.0


From 02fb2c8fd67d4e8f58f8919f65df25b7642bd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:01 +0000
Subject: [PATCH 18/79] fix: particle filter pose of a fix at the start of the
 track

---
 src/auv_nav/localisation/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 2c02824..57724c0 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -492,6 +492,8 @@ def run_particle_filter(
 
     pf = ParticleFilter(num_particles, mm, om, expected_iterations=len(dr_list))
     pf.set_prior(prior)
+    # A fix can coincide with the first pose
+    pf.set_movement(dr_list[dr_idx])
 
     last_t = dr_list[dr_idx].epoch_timestamp
 
-- 
2.43.0


From 3b39484dfd034076bfd5445d2aadb83f48f2fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:53 +0000
Subject: [PATCH 19/79] fix: linear uncertainty model of negative velocities
 and angles

---
 src/auv_nav/sensors.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 2b485bc..9c46ac0 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -377,23 +377,23 @@ class BodyVelocity(OutputFormat):
         elif sensor_std["model"] == "linear":
             if "offset_x" in sensor_std:
                 self.x_velocity_std = (
-                    sensor_std["offset_x"] + sensor_std["factor_x"] * self.x_velocity
+                    sensor_std["offset_x"] + sensor_std["factor_x"] * abs(self.x_velocity)
                 )
                 self.y_velocity_std = (
-                    sensor_std["offset_y"] + sensor_std["factor_y"] * self.y_velocity
+                    sensor_std["offset_y"] + sensor_std["factor_y"] * abs(self.y_velocity)
                 )
                 self.z_velocity_std = (
-                    sensor_std["offset_z"] + sensor_std["factor_z"] * self.z_velocity
+                    sensor_std["offset_z"] + sensor_std["factor_z"] * abs(self.z_velocity)
                 )
             else:
                 self.x_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.x_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.x_velocity)
                 )
                 self.y_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.y_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.y_velocity)
                 )
                 self.z_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.z_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.z_velocity)
                 )
         else:
             Console.error("The STD model you entered for DVL is not supported.")
@@ -764,9 +764,9 @@ class Orientation(OutputFormat):
             self.pitch_std = json["data"][2]["pitch_std"]
             self.yaw_std = json["data"][0]["heading_std"]
         elif sensor_std["model"] == "linear":
-            self.roll_std = sensor_std["offset"] + sensor_std["factor"] * self.roll
-            self.pitch_std = sensor_std["offset"] + sensor_std["factor"] * self.pitch
-            self.yaw_std = sensor_std["offset"] + sensor_std["factor"] * self.yaw
+            self.roll_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.roll)
+            self.pitch_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.pitch)
+            self.yaw_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.yaw)
         else:
             Console.error("The STD model you entered for Orientation is not supported.")
             Console.quit("STD model not supported.")
-- 
2.43.0


From 3b1cfae3503695be0584b59ba564a7ecbe2e2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:35 +0000
Subject: [PATCH 20/79] fix: keep the attitude, depth and velocity of each
 particle filter pose

---
 src/auv_nav/localisation/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 57724c0..615330e 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -219,7 +219,7 @@ class DeadReckoningMovementModel:
         # Propagate the p.state forward
         p.state = f @ p.state
         p.time += dt
-        p.trajectory.append(p.state)
+        p.trajectory.append(p.state.copy())
         p.trajectory_time.append(p.time)
 
 
-- 
2.43.0


From 0fc12a8fdec6fa1e19a12b04c61901c245192a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 21/79] fix: do not fail when a writer thread creates the csv
 folder first

---
 src/auv_nav/process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 86d7b79..09b470e 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1708,8 +1708,7 @@ def process(
         Console.info("Writing csv outputs to {}".format(csvpath))
         if csv_usbl:
             if len(usbl_list) > 0:
-                if not csvpath.exists():
-                    csvpath.mkdir()
+                csvpath.mkdir(parents=True, exist_ok=True)
                 auv_usbl_file = csvpath / "auv_usbl.csv"
                 with auv_usbl_file.open("w") as fileout:
                     fileout.write(
-- 
2.43.0


From 9472fe1cb9811032d30e403434daabb562504586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 22/79] fix: no particle filter tables without a particle
 filter track

---
 src/auv_nav/process.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 09b470e..e212bc4 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1207,6 +1207,13 @@ def process(
             )
             pf_fusion_centre_list[i].latitude = lat
             pf_fusion_centre_list[i].longitude = lon
+    elif particle_filter_activate:
+        Console.warn("There are no USBL measurements. Particle filter disabled.")
+        particle_filter_activate = False
+        camera1_pf_list = []
+        camera2_pf_list = []
+        camera3_pf_list = []
+        payload_dict = {k: v for k, v in payload_dict.items() if "_pf" not in k}
 
     origin_offsets = [
         vehicle.origin.surge,
-- 
2.43.0


From 63393366f784ae9798e9564f5ed51b9b421cc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:40 +0000
Subject: [PATCH 23/79] fix: altitude of the EKF poses at the vehicle origin

---
 src/auv_nav/localisation/ekf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 018464f..eb534b0 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -1117,6 +1117,8 @@ def save_ekf_to_list(
             dead_reckoning_dvl_list[dr_idx - 1].altitude,
             dead_reckoning_dvl_list[dr_idx].altitude,
         )
+        if shift_to_origin:
+            b.altitude -= z_offset
         ekf_list.append(b)
     return ekf_list
 
-- 
2.43.0


From ea03e5ba0a060d6c3e548484244aee87ae806120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:40 +0000
Subject: [PATCH 24/79] fix: EKF poses of images with equal timestamps

---
 src/auv_nav/localisation/ekf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index eb534b0..d9e6c66 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -1169,5 +1169,4 @@ def update_camera_list(
             c.filename = camera_list[c_idx].filename
             valid_camera_list.append(c)
             c_idx += 1
-            ekf_idx += 1
     return valid_camera_list
-- 
2.43.0


From c214064d1713ea2191939ca28e73d9b528ae5bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:40 +0000
Subject: [PATCH 25/79] fix: depth and altitude of the particle filter poses at
 the vehicle origin

---
 src/auv_nav/process.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index e212bc4..22c014c 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1189,7 +1189,7 @@ def process(
                 pf_fusion_dvl_list[i].eastings,
                 pf_fusion_dvl_list[i].northings,
             )
-            [x_offset, y_offset, z_offset] = body_to_inertial(
+            [x_offset, y_offset, a_offset] = body_to_inertial(
                 pf_fusion_centre_list[i].roll,
                 pf_fusion_centre_list[i].pitch,
                 pf_fusion_centre_list[i].yaw,
@@ -1197,8 +1197,18 @@ def process(
                 vehicle.origin.sway - vehicle.dvl.sway,
                 vehicle.origin.heave - vehicle.dvl.heave,
             )
+            [_, _, z_offset] = body_to_inertial(
+                pf_fusion_centre_list[i].roll,
+                pf_fusion_centre_list[i].pitch,
+                pf_fusion_centre_list[i].yaw,
+                vehicle.origin.surge - vehicle.depth.surge,
+                vehicle.origin.sway - vehicle.depth.sway,
+                vehicle.origin.heave - vehicle.depth.heave,
+            )
             pf_fusion_centre_list[i].northings += x_offset
             pf_fusion_centre_list[i].eastings += y_offset
+            pf_fusion_centre_list[i].altitude -= a_offset
+            pf_fusion_centre_list[i].depth += z_offset
             lat, lon = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
-- 
2.43.0


From 23a5f17e6d707a7f84e86410c4fbe8e78ff3fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:46 +0000
Subject: [PATCH 26/79] fix: smooth the first state of the EKF

---
 src/auv_nav/localisation/ekf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index d9e6c66..75524ea 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -648,7 +648,7 @@ class EkfImpl(object):
                 A = self.compute_transfer_function_jacobian(delta, x_prior, f)
 
                 p_prior_pred = A @ p_prior @ A.T + self.process_noise_covariance * delta
-                J = p_prior * A.T * np.linalg.inv(p_prior_pred)
+                J = p_prior @ A.T @ np.linalg.inv(p_prior_pred)
 
                 innovation = x_smoothed - f @ x_prior
                 # Wrap angles of the innovation_subset
-- 
2.43.0


From 5e66f9bf8662396697784d0a988db55b227fabbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:33 +0000
Subject: [PATCH 27/79] fix: compute attenuation parameters from the images of
 all dives

---
 src/correct_images/corrector.py | 40 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index c9dcde2..2ea70ae 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -111,6 +111,7 @@ class Corrector:
         self.processed_image_list = []
         self.altitude_list = []
         self.depth_map_list = []
+        self.path_raw_list = []  # raw folders of all dives in use
 
         # Members for folder paths
         self.output_dir_path = None
@@ -162,6 +163,7 @@ class Corrector:
         self.path_raw = get_raw_folder(path)
         self.path_processed = get_processed_folder(path)
         self.path_config = get_config_folder(path)
+        self.path_raw_list.append(self.path_raw)
 
         self.mission = Mission(self.path_raw / "mission.yaml")
 
@@ -666,17 +668,17 @@ class Corrector:
             )
         else:
             # Copy the images list from the camera
-            self.camera_image_list = self.camera.image_list
+            self.camera_image_list = list(self.camera.image_list)
 
-            # Join the current image list with the original image list (copy)
-            self.camera_image_list.extend(_original_image_list)
-            # Show size of the extended image list
-            # Informative for message for multidive
-            Console.info(
-                "The camera image list has", len(self.camera_image_list), "entries"
-            )
-            # Join the current image list with the original image list (copy)
-            self.altitude_list.extend(_original_altitude_list)
+        # Join the current image list with the original image list (copy)
+        self.camera_image_list.extend(_original_image_list)
+        # Show size of the extended image list
+        # Informative for message for multidive
+        Console.info(
+            "The camera image list has", len(self.camera_image_list), "entries"
+        )
+        # Join the current altitude list with the original altitude list (copy)
+        self.altitude_list.extend(_original_altitude_list)
 
     def get_altitude_and_depth_maps(self):
         """Generate distance matrix numpy files and save them"""
@@ -691,14 +693,20 @@ class Corrector:
             return
         elif self.distance_metric == "depth_map":
             # Load depth maps
-            path_depth = (
-                self.path_processed / "3d_reconstruction/depth_maps/gp_smoothed"
-            )
-            if not path_depth.exists():
-                Console.quit("Depth maps folder", path_depth, "does not exist.")
             images_to_drop = []
             for img_idx, image_path in enumerate(self.camera_image_list):
-                p = path_depth / os.path.relpath(image_path, self.path_raw)
+                # Find the dive the image belongs to
+                path_raw = self.path_raw
+                for path in self.path_raw_list:
+                    if path in Path(image_path).parents:
+                        path_raw = path
+                path_depth = (
+                    get_processed_folder(path_raw)
+                    / "3d_reconstruction/depth_maps/gp_smoothed"
+                )
+                if not path_depth.exists():
+                    Console.quit("Depth maps folder", path_depth, "does not exist.")
+                p = path_depth / os.path.relpath(image_path, path_raw)
                 p = p.with_name(p.stem + "_depthmap.npy")
                 if p.exists():
                     self.depth_map_list.append(p)
-- 
2.43.0


From 1d98bf090d2f1f4a7c0b43f5454310a518f1f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:33 +0000
Subject: [PATCH 28/79] fix: trimmed mean of monochrome and colour images

---
 src/correct_images/tools/numerical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index 5b6062a..8ad3f4c 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -302,7 +302,9 @@ def image_mean_std_trimmed(data, ratio_trimming=0.2, calculate_std=True):
     ret_mean = np.zeros((a, b, c), np.float32)
     ret_std = np.zeros((a, b, c), np.float32)
 
-    effective_index = [list(range(0, n))]
+    if len(data.shape) == 3:
+        # Monochrome
+        data = data.reshape((n, a, b, 1))
 
     message = "calculating mean and std of images " + datetime.datetime.now().strftime(
         "%Y-%m-%d %H:%M:%S"
@@ -318,7 +320,7 @@ def image_mean_std_trimmed(data, ratio_trimming=0.2, calculate_std=True):
                 results = [None] * b
                 for idx_b in range(b):
                     results[idx_b] = calc_mean_and_std_trimmed(
-                        data[effective_index, idx_a, idx_b, ch],
+                        data[:, idx_a, idx_b, ch],
                         ratio_trimming,
                         calculate_std,
                     )
-- 
2.43.0


From 9acbec171b08fcc579e1ecca7b755b9fff983b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:54 +0000
Subject: [PATCH 29/79] fix: keep the colour order of rgb cameras and accept
 grayscale cameras in manual balance

---
 src/correct_images/corrector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 2ea70ae..550b8f7 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1377,7 +1377,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr" and self._type != "grayscale":
+            elif self._type == "bgr":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
@@ -1391,7 +1391,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr":
+            elif self._type == "bgr":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
-- 
2.43.0


From 69a22e797da06a518c18aeb546ac62e74bc4eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:54 +0000
Subject: [PATCH 30/79] fix: manual balance does not need a navigation table

---
 src/correct_images/corrector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 550b8f7..9a1bcc7 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1279,6 +1279,10 @@ class Corrector:
             )
 
         # write a filelist.csv containing image filenames and navigation
+        if self.altitude_csv_path is None:
+            Console.info("No navigation in use. Skipping filelist.csv")
+            Console.info("Processing of images is completed")
+            return
         image_names = []
         for path in self.processed_image_list:
             if path is not None:
-- 
2.43.0


From 76ad8af7ddcf9d6dd1a2737c68a13d2fa0ae367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:54 +0000
Subject: [PATCH 31/79] fix: correct command passes parse a list of dives

---
 src/correct_images/correct_images.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/correct_images.py b/src/correct_images/correct_images.py
index 9de5230..eb96979 100644
--- a/src/correct_images/correct_images.py
+++ b/src/correct_images/correct_images.py
@@ -59,7 +59,9 @@ def main(args=None):
         default="",
         help="Expected suffix for correct_images configuration and output folders.",
     )
-    subparser_correct.set_defaults(func=call_correct)
+    subparser_correct.set_defaults(
+        func=call_correct, memmap_location=".", memmap_size_gb=50
+    )
 
     # subparser parse
     subparser_parse = subparsers.add_parser(
@@ -316,7 +318,10 @@ def call_correct(args):
     args : parse_args object
         User provided arguments for path of source images
     """
-    call_parse(args)
+    # parse expects a list of dives
+    args_parse = argparse.Namespace(**vars(args))
+    args_parse.path = [args.path]
+    call_parse(args_parse)
     call_process(args)
 
 
-- 
2.43.0


From 2f7ded5294d8905a9075a5ae5710a232c85da504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:54 +0000
Subject: [PATCH 32/79] fix: zeroes to be ignored do not count in the running
 mean

---
 src/correct_images/tools/numerical.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index 8ad3f4c..dad46fb 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -82,7 +82,6 @@ def running_mean_std(
     (np.ndarray, np.ndarray)
         Mean and std arrays
     """
-    count = 0
     tmp = None
     if width is not None and height is not None:
         tmp = loader(file_list[0], width, height)
@@ -93,6 +92,8 @@ def running_mean_std(
     mean = np.zeros(dimensions, dtype=np.float32)
     mean2 = np.zeros(dimensions, dtype=np.float32)
     std = np.zeros(dimensions, dtype=np.float32)
+    # Number of valid values of each pixel
+    count = np.zeros(dimensions, dtype=np.float32)
 
     for item in file_list:
         if width is not None and height is not None:
@@ -100,14 +101,16 @@ def running_mean_std(
         else:
             value = loader(item).astype(np.float32)
         if ignore_zeroes:
-            value[value == 0] = mean[value == 0]
-        count += 1
+            valid = value != 0
+        else:
+            valid = np.ones(dimensions, dtype=bool)
+        count[valid] += 1
         delta = value - mean
-        mean += delta / count
+        mean[valid] += delta[valid] / count[valid]
         delta2 = value - mean
-        mean2 += delta * delta2
-    if count > 1:
-        std = np.sqrt(mean2 / count)
+        mean2[valid] += delta[valid] * delta2[valid]
+    several = count > 1
+    std[several] = np.sqrt(mean2[several] / count[several])
     return mean, std
 
 
-- 
2.43.0


From d6443dae18c903808210a66b2a9948371a803580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:47 +0000
Subject: [PATCH 33/79] fix: find the camera calibration for undistortion

auv_cal writes mono_<camera>.yaml; correct_images looked for mono<camera>.yaml
and silently skipped the requested undistortion.
---
 src/correct_images/corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 9a1bcc7..ab0f668 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1250,7 +1250,7 @@ class Corrector:
         # check for calibration file if distortion correction needed
         if self.undistort:
             camera_params_folder = Path(self.path_processed).parents[0] / "calibration"
-            camera_params_filename = "mono" + self.camera_name + ".yaml"
+            camera_params_filename = "mono_" + self.camera_name + ".yaml"
             camera_params_file_path = camera_params_folder / camera_params_filename
 
             if not camera_params_file_path.exists():
-- 
2.43.0


From d379e5e30e23577ae8346e062504e813db484c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:21 +0000
Subject: [PATCH 34/79] fix: image times from a timestamp file

The times were assigned to the copies of the rows that iterrows() hands out, so
every image indexed in a timestamp file got an empty time.
---
 src/oplab/filename_to_date.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oplab/filename_to_date.py b/src/oplab/filename_to_date.py
index 9493234..66550a4 100644
--- a/src/oplab/filename_to_date.py
+++ b/src/oplab/filename_to_date.py
@@ -186,10 +186,11 @@ class FilenameToDate:
         last_idx = int(df.shape[0])
         Console.info("Found", last_idx, "timestamp records in", filename)
 
-        for index, row in df.iterrows():
-            row["epoch_timestamp"] = self.string_to_epoch(
-                row["combined"], row["combined_format"]
-            )
+        # rows handed out by iterrows() are copies, so assign the whole column
+        df["epoch_timestamp"] = [
+            self.string_to_epoch(stamp, stamp_format)
+            for stamp, stamp_format in zip(df["combined"], df["combined_format"])
+        ]
 
         df = df.drop("combined", axis=1)
         df = df.drop("combined_format", axis=1)
-- 
2.43.0


From b91ac2b75851fb50a1b0fda983a33bcde06c9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:21 +0000
Subject: [PATCH 35/79] fix: last named column of a timestamp file with unnamed
 columns

The line break became part of its name, so the column was not found.
---
 src/oplab/filename_to_date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/filename_to_date.py b/src/oplab/filename_to_date.py
index 66550a4..6891a1b 100644
--- a/src/oplab/filename_to_date.py
+++ b/src/oplab/filename_to_date.py
@@ -150,7 +150,7 @@ class FilenameToDate:
         header = lines[0]
         first_row = lines[1]
 
-        headers = header.split(",")
+        headers = header.strip().split(",")
 
         hn = len(headers)
         ln = len(first_row.split(","))
-- 
2.43.0


From b73edede88ed4836fc6660aea86883f5d0beaf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:28 +0000
Subject: [PATCH 36/79] fix: written missions keep mounting frames, topics,
 filters and payloads

Mission.write() tested the empty output node instead of the entry, so the
frame and topic of every sensor were dropped, and left out the USBL
selection; payloads were written as a list of their names (crash) and a
single payload not at all.
---
 src/oplab/mission.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 9b8aa16..92ee3e2 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -139,8 +139,12 @@ class CameraEntry:
         node["type"] = self.type
         node["path"] = self.path
         node["records_laser"] = self.records_laser
+        if getattr(self, "topic", None) is not None:
+            node["topic"] = self.topic
         if hasattr(self, "timeoffset"):
             node["timeoffset"] = self.timeoffset
+        if self.timeoffset_s is not None:
+            node["timeoffset_s"] = self.timeoffset_s
 
 
 
@@ -279,9 +283,9 @@ class DefaultEntry(TimeZoneEntry):
     def write(self, node):
         super().write(node)
         node["format"] = self.format
-        if "origin" in node:
+        if hasattr(self, "origin"):
             node["origin"] = self.origin
-        if "topic" in node:
+        if self.topic is not None:
             node["topic"] = self.topic
         node["filepath"] = self.filepath
         node["filename"] = self.filename
@@ -289,6 +293,9 @@ class DefaultEntry(TimeZoneEntry):
         node["id"] = self.label
         node["std_factor"] = self.std_factor
         node["std_offset"] = self.std_offset
+        node["field_id"] = self.field_id
+        node["apply_depth_filter"] = self.apply_depth_filter
+        node["apply_north_east_filter"] = self.apply_north_east_filter
 
 
 class Mission:
@@ -494,12 +501,11 @@ class Mission:
                 if not self.image.empty():
                     mission_dict["image"] = OrderedDict()
                     self.image.write(mission_dict["image"])
-                if len(self.payloads) > 1:
-                    mission_dict["payloads"] = []
-                    for payload in self.payloads:
-                        payload_entry = OrderedDict()
-                        payload.write(payload_entry)
-                        mission_dict["payloads"].append(payload_entry)
+                if len(self.payloads) > 0:
+                    mission_dict["payloads"] = OrderedDict()
+                    for name, payload in self.payloads.items():
+                        mission_dict["payloads"][name] = OrderedDict()
+                        payload.write(mission_dict["payloads"][name])
                 yaml.dump(
                     mission_dict,
                     f,
-- 
2.43.0


From 23b58c8ffdcf38dd8e41fe3ef5db828922392c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 37/79] fix: report images without calibration pattern

---
 src/auv_cal/camera_calibrator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index ed209ed..c5973b9 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -662,6 +662,9 @@ class MonoCalibrator(Calibrator):
 
                         if name == "":
                             name = i[2].stem
+        if not self.good_corners:
+            raise CalibrationException("No corners found in images!")
+
         filename = Path("/tmp/" + self.name + "_corners.png")
         if self.resize:
             filename = Path("/tmp/resized_" + self.name + "_corners.png")
@@ -670,8 +673,6 @@ class MonoCalibrator(Calibrator):
         print("Writing corners image to " + str(filename))
         cv2.imwrite(str(filename), all_detections)
 
-        if not self.good_corners:
-            raise CalibrationException("No corners found in images!")
         print("Using " + str(len(self.good_corners)) + " inlier files!")
         filename = Path("/tmp/" + self.name + "/" + name + "_inliers.txt")
         if self.resize:
-- 
2.43.0


From 9269a17627dcf8f0442802f072956b31ac10b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 38/79] fix: laser calibration uses synchronised image pairs
 only

---
 src/auv_cal/laser_calibrator.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 3a8f7ea..d118826 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -988,10 +988,13 @@ class LaserCalibrator:
         if len(limages[0].stem) < 26:
             for i, lname in enumerate(limages):
                 for j, rname in enumerate(rimages):
-                    name = lname.stem
-                    if "image" in name:
-                        name = name[5:]
-                    if name == rname.stem:
+                    left_name = lname.stem
+                    if left_name.startswith("image"):
+                        left_name = left_name[5:]
+                    right_name = rname.stem
+                    if right_name.startswith("image"):
+                        right_name = right_name[5:]
+                    if left_name == right_name:
                         limages_sync.append(lname)
                         rimages_sync.append(rname)
         else:
@@ -1026,17 +1029,17 @@ class LaserCalibrator:
         limages_rs = []
         rimages_rs = []
         rs_size = 500
-        if len(limages) > rs_size:
+        if len(limages_sync) > rs_size:
             f = lambda m, n: [  # noqa
                 i * n // m + n // (2 * m) for i in range(m)
             ]  # See https://stackoverflow.com/a/9873804/707946
-            selection = f(rs_size, len(limages))
+            selection = f(rs_size, len(limages_sync))
             for s in selection:
                 limages_rs.append(limages_sync[s])
                 rimages_rs.append(rimages_sync[s])
         else:
-            limages_rs = limages
-            rimages_rs = rimages
+            limages_rs = limages_sync
+            rimages_rs = rimages_sync
 
         Console.info("Processing", str(len(limages_sync)), "synchronised images...")
         result = joblib.Parallel(n_jobs=-1)(
-- 
2.43.0


From 2a7c479f1ff9f51403065da6bfeb73e9b2c50ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 39/79] fix: second stereo pair with images in the processed
 folder

---
 src/auv_cal/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index d1b04c2..33de1fd 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -481,7 +481,8 @@ class Calibrator:
             left_extension = str(c0["camera_calibration"]["glob_pattern"])
             right_name = c2["name"]
             right_filepaths = build_filepath(
-                self.filepath, c2["camera_calibration"]["path"]
+                get_processed_folder(self.filepath),
+                c2["camera_calibration"]["path"],
             )
             right_extension = str(c2["camera_calibration"]["glob_pattern"])
             left_calibration_file = self.output_path / str(
-- 
2.43.0


From 7e58053663932abde14ef425771db11925826087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 40/79] fix: find raw laser images without a raw calibration
 folder

---
 src/auv_cal/calibration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index 33de1fd..17ad131 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -614,14 +614,14 @@ class Calibrator:
                 self.stereo()
 
         non_laser_cam_name = c0["name"]
-        non_laser_cam_filepath = get_raw_folder(self.filepath) / str(
-            c0["laser_calibration"]["path"]
-        )
+        non_laser_cam_filepath = (
+            get_raw_folder(self.filepath) / str(c0["laser_calibration"]["path"])
+        ).resolve()
         non_laser_cam_extension = str(c0["laser_calibration"]["glob_pattern"])
         laser_cam_name = c1["name"]
-        laser_cam_filepath = get_raw_folder(self.filepath) / str(
-            c1["laser_calibration"]["path"]
-        )
+        laser_cam_filepath = (
+            get_raw_folder(self.filepath) / str(c1["laser_calibration"]["path"])
+        ).resolve()
         laser_cam_extension = str(c1["laser_calibration"]["glob_pattern"])
         if not non_laser_cam_filepath.exists():
             non_laser_cam_filepath = get_processed_folder(non_laser_cam_filepath)
-- 
2.43.0


From b74e2b0435032b2de0002c0d402fa939a4d66508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 41/79] fix: uncertainty planes of the second laser

---
 src/auv_cal/laser_calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index d118826..2ecf040 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -838,6 +838,10 @@ class LaserCalibrator:
             [inliers_cloud, np.ones((inliers_cloud.shape[0], 1))], axis=1
         )
 
+        # Planes of a previously fitted laser do not belong to this one
+        self.triples = []
+        self.uncertainty_planes = []
+
         Console.info("Generating", self.num_uncert_planes, "uncertainty planes...")
         generate_planes_start = time.time()
         tries = 0
-- 
2.43.0


From e0057f18bbb07d48e4c8c7b23c69df7c03f19646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 42/79] fix: read max_points_per_bin from the laser calibration
 configuration

---
 src/auv_cal/laser_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 2ecf040..3aca428 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -629,7 +629,7 @@ class LaserCalibrator:
         self.min_z_m = stratify.get("min_z_m", 1)
         self.max_z_m = stratify.get("max_z_m", 20)
         self.number_of_bins = stratify.get("number_of_bins", 5)
-        self.max_points_per_bin = stratify.get("max_bin_elements", 300)
+        self.max_points_per_bin = stratify.get("max_points_per_bin", 300)
 
         self.max_point_cloud_size = ransac.get("max_cloud_size", 10000)
         self.mdt = ransac.get("min_distance_threshold", 0.002)
-- 
2.43.0


From 6ca59215e6b89b07e5842fe6cb0794e8a16578cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 43/79] fix: read back detections of images without a laser
 line

---
 src/auv_cal/laser_calibrator.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 3aca428..31e7dcc 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -401,8 +401,8 @@ def get_laser_pixels_in_image_pair(
             start_row=start_row,
             end_row=end_row,
         )
-        write_str = "top: \n- " + "- ".join(
-            ["[" + str(p1[i][0]) + ", " + str(p1[i][1]) + "]\n" for i in range(len(p1))]
+        write_str = "top: \n" + "".join(
+            ["- [" + str(p[0]) + ", " + str(p[1]) + "]\n" for p in p1]
         )
         if two_lasers:
             p1b = findLaserInImage(
@@ -413,11 +413,8 @@ def get_laser_pixels_in_image_pair(
                 start_row=start_row_b,
                 end_row=end_row_b,
             )
-            write_str += "bottom: \n- " + "- ".join(
-                [
-                    "[" + str(p1b[i][0]) + ", " + str(p1b[i][1]) + "]\n"
-                    for i in range(len(p1b))
-                ]
+            write_str += "bottom: \n" + "".join(
+                ["- [" + str(p[0]) + ", " + str(p[1]) + "]\n" for p in p1b]
             )
         with filename.open("w") as f:
             f.write(write_str)
@@ -485,11 +482,8 @@ def get_laser_pixels_in_image_pair(
             with filename.open("r") as f:
                 r = yaml.safe_load(f)
             if r is not None:
-                a1 = r["top"]
-                if "bottom" in r:
-                    a1b = r["bottom"]
-                else:
-                    a1b = []
+                a1 = r["top"] or []
+                a1b = r.get("bottom") or []
                 i = 0
                 for i in range(len(a1)):
                     points.append([a1[i][0], a1[i][1]])
-- 
2.43.0


From cb6da59f636ad4b95ef33f0ea129e9ea174f4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:49 +0000
Subject: [PATCH 44/79] fix: redo the resized calibration when the camera was
 calibrated again

---
 src/auv_cal/calibration.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index 17ad131..082f527 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -154,8 +154,14 @@ def calibrate_stereo(
             )
             Console.info("  Camera:", left_name, "is", model.left.size)
             Console.info("  Camera:", right_name, "is", model.right.size)
+            own_json = right_calib.with_suffix(".json")
             right_calib = right_calib.parent / ("resized_" + right_calib.name)
-            if not right_calib.with_suffix(".json").exists():
+            resized_json = right_calib.with_suffix(".json")
+            # The resized calibration must not be older than the camera's own
+            if (
+                not resized_json.exists()
+                or resized_json.stat().st_mtime < own_json.stat().st_mtime
+            ):
                 calibrate_mono(
                     right_name,
                     right_filepaths,
@@ -163,7 +169,7 @@ def calibrate_stereo(
                     config,
                     right_calib,
                     fo,
-                    foa,
+                    True,
                     target_width=model.left.image_width,
                     target_height=model.left.image_height,
                 )
-- 
2.43.0


From 71464303d6bbe07b50607580b90967954ebf5a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:38 +0000
Subject: [PATCH 45/79] fix: a parser that quits stops parse instead of hanging
 it

---
 src/auv_nav/parse.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 18af3e8..ab39dee 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -176,6 +176,20 @@ def parse(filepath, force_overwrite, merge):
         Console.info("Complete merging data")
 
 
+def run_parser(parser, args):
+    """Run a parser and return its results, or None if it quits.
+    An exit within a thread of the pool would leave the pool waiting for ever."""
+    try:
+        return parser(*args)
+    except SystemExit:
+        return None
+
+
+class ParserPool(ThreadPool):
+    def apply_async(self, parser, args=()):
+        return super().apply_async(run_parser, [parser, args])
+
+
 def parse_single(filepath, force_overwrite):
     # initiate data and processing flags
     filepath = Path(filepath).resolve()
@@ -240,7 +254,7 @@ def parse_single(filepath, force_overwrite):
         cpu_to_use = multiprocessing.cpu_count() - 2
 
     try:
-        pool = ThreadPool(cpu_to_use)
+        pool = ParserPool(cpu_to_use)
     except AttributeError as e:
         print(
             "Error: ",
@@ -687,6 +701,8 @@ def parse_single(filepath, force_overwrite):
         correcting_timestamps = False
     for i in pool_list:
         results = i.get()
+        if results is None:
+            Console.quit("A sensor log could not be parsed.")
         if len(results) < 1:
             continue
         if results[0] is None:
-- 
2.43.0


From 94a1f5fc3291ff54f9a777679ad7be727341c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:42 +0000
Subject: [PATCH 46/79] fix: particles drawn when resampling all weigh the same

---
 src/auv_nav/localisation/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 615330e..2aeb545 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -318,6 +318,8 @@ class ParticleFilter:
                 cumulative_weight += self.particles[source_index].weight
             # copy particle (via assignment operator)
             new_particles[dest_index] = copy.deepcopy(self.particles[source_index])
+            # The number of copies already accounts for the weight
+            new_particles[dest_index].weight = inverse_num
         # Update the particle list
         self.particles = new_particles
 
-- 
2.43.0


From d567000c5b37f442997bc04f2207eab6c6852f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:51 +0000
Subject: [PATCH 47/79] fix: usbl_dump fixes in the southern and western
 hemispheres

---
 src/auv_nav/parsers/parse_usbl_dump.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index ba3293b..aab2072 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -86,22 +86,18 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                     latitude_degrees = int(latitude_list[0])
                     latitude_minutes = float(latitude_list[1])
 
-                    if latitude_full[1] != "N":
-                        latitude_degrees = latitude_degrees * -1  # southern hemisphere
-
                     latitude = latitude_degrees + latitude_minutes / 60
+                    if latitude_full[1] != "N":
+                        latitude = latitude * -1  # southern hemisphere
 
                     longitude_full = line_split[7].split(" ")
                     longitude_list = longitude_full[0].split("-")
                     longitude_degrees = int(longitude_list[0])
                     longitude_minutes = float(longitude_list[1])
 
-                    if longitude_full[1] != "E":
-                        longitude_degrees = (
-                            longitude_degrees * -1
-                        )  # southern hemisphere
-
                     longitude = longitude_degrees + longitude_minutes / 60
+                    if longitude_full[1] != "E":
+                        longitude = longitude * -1  # western hemisphere
 
                     depth_full = line_split[8].split("=")
                     depth = float(depth_full[1])
-- 
2.43.0


From 0306441a8ce76440252f500b4a4480ffbea8c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:51 +0000
Subject: [PATCH 48/79] fix: times of Sonardyne logs do not depend on the time
 zone of the computer

---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index ed7bfaf..7c19e19 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -33,9 +33,11 @@ class MRTBase:  # 9
 
     def __post_init__(self):
         try:
-            self.epoch_timestamp = datetime.datetime.strptime(
-                self.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-            ).timestamp()
+            self.epoch_timestamp = (
+                datetime.datetime.strptime(self.time_stamp, "%Y-%m-%d %H:%M:%S.%f")
+                .replace(tzinfo=datetime.timezone.utc)
+                .timestamp()
+            )
         except ValueError:
             pass
 
@@ -822,7 +824,7 @@ def parse_sonardyne_gga(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -945,7 +947,7 @@ def parse_sonardyne_gga2(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -1068,7 +1070,7 @@ def parse_sonardyne_gga3(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -1191,7 +1193,7 @@ def parse_sonardyne_gga4(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
-- 
2.43.0


From c1fe8d35f598a9b305fb3d0b46cdff540a1b9457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:51 +0000
Subject: [PATCH 49/79] fix: JobData lines of Sonardyne MRT logs do not repeat
 the previous observation

---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index 7c19e19..68714dc 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -548,7 +548,7 @@ def parse_mrt_csv(filename):
                 obs = AlarmStateChange(*values[1:])
             elif values[0] == "JobData":
                 # Ignore this
-                pass
+                continue
             else:
                 print(f"Unknown observation type: {values[0]}")
                 continue
-- 
2.43.0


From a1ed6c9fce397edafead54055bd3d63176b89156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:33 +0000
Subject: [PATCH 50/79] fix: times of EIVA Navipac logs follow the mission's
 time zone and offset

---
 src/auv_nav/parsers/parse_eiva_navipac.py | 18 +++++++++++++++---
 src/auv_nav/sensors.py                    | 15 +++++++++------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/auv_nav/parsers/parse_eiva_navipac.py b/src/auv_nav/parsers/parse_eiva_navipac.py
index 7e2bd78..0a7cc9b 100644
--- a/src/auv_nav/parsers/parse_eiva_navipac.py
+++ b/src/auv_nav/parsers/parse_eiva_navipac.py
@@ -7,6 +7,7 @@ See LICENSE.md file in the project root for full license information.
 """
 
 from auv_nav.sensors import Category, Depth, Orientation, Usbl
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 
@@ -15,15 +16,26 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
     # Get your data from a file using mission paths, for example
     filepath = None
     category_str = None
+    timezone = 0
+    timeoffset = 0.0
     if category == Category.ORIENTATION:
         category_str = "orientation"
         filepath = mission.orientation.filepath
+        timezone = mission.orientation.timezone
+        timeoffset = mission.orientation.timeoffset_s
     elif category == Category.DEPTH:
         category_str = "depth"
         filepath = mission.depth.filepath
+        timezone = mission.depth.timezone
+        timeoffset = mission.depth.timeoffset_s
     elif category == Category.USBL:
         category_str = "usbl"
         filepath = mission.usbl.filepath
+        timezone = mission.usbl.timezone
+        timeoffset = mission.usbl.timeoffset_s
+
+    # convert to seconds from utc
+    timeoffset_s = -read_timezone(timezone) * 60 * 60 + timeoffset
 
     log_file_path = get_raw_folder(outpath / ".." / filepath)
 
@@ -58,7 +70,7 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 # For each line in the file
                 for line in filein.readlines():
                     if line.startswith("R132  4") and "$PRDID" in line:
-                        orientation.from_eiva_navipac(line)
+                        orientation.from_eiva_navipac(line, timeoffset_s)
                         num_entries += 1
                         if orientation.roll is None:
                             continue
@@ -70,7 +82,7 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 Console.info("... parsing depth")
                 for line in filein.readlines():
                     if line[0:14] == "D     " + str(usbl_id) + "  19  1":
-                        depth.from_eiva_navipac(line)
+                        depth.from_eiva_navipac(line, timeoffset_s)
                         num_entries += 1
                         if depth.valid():
                             num_valid_entries += 1
@@ -81,7 +93,7 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 for line in filein.readlines():
                     if line.startswith("P  D") and int(line[6:10]) == usbl_id:
                         num_entries += 1
-                        usbl.from_eiva_navipac(line)
+                        usbl.from_eiva_navipac(line, timeoffset_s)
                         if usbl.valid():
                             num_valid_entries += 1
                             data = usbl.export(output_format)
diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 9c46ac0..9d98359 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -648,11 +648,12 @@ class Orientation(OutputFormat):
             self.yaw_std,
         )
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timeoffset_s=0.0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[2], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        date_time_obj = date_time_obj.replace(tzinfo=datetime.timezone.utc)
+        self.epoch_timestamp = date_time_obj.timestamp() + timeoffset_s
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
@@ -884,11 +885,12 @@ class Depth(OutputFormat):
         if self.depth_std == 0:
             self.depth_std = self.depth * self.depth_std_factor
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timeoffset_s=0.0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[4], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        date_time_obj = date_time_obj.replace(tzinfo=datetime.timezone.utc)
+        self.epoch_timestamp = date_time_obj.timestamp() + timeoffset_s
         self.depth_timestamp = self.epoch_timestamp
         if self.epoch_timestamp == 0:
             # Invalid timestamp
@@ -1269,11 +1271,12 @@ class Usbl(OutputFormat):
             Console.quit("USBL ROS parser for", msg_type, "not supported.")
         self.epoch_timestamp = ros_stamp_to_epoch(msg.header.stamp) - self.tz_offset_s
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timeoffset_s=0.0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[3], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        date_time_obj = date_time_obj.replace(tzinfo=datetime.timezone.utc)
+        self.epoch_timestamp = date_time_obj.timestamp() + timeoffset_s
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
-- 
2.43.0


From 01dd9a4480450aacd9820b1e6f0cfb37578c9cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:33 +0000
Subject: [PATCH 51/79] fix: times of NTNU DVL logs follow the mission's time
 zone and offset

---
 src/auv_nav/parsers/parse_ntnu_dvl.py | 14 +++++++++++---
 src/auv_nav/sensors.py                | 10 ++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_dvl.py b/src/auv_nav/parsers/parse_ntnu_dvl.py
index a3d5e98..e38b7f8 100644
--- a/src/auv_nav/parsers/parse_ntnu_dvl.py
+++ b/src/auv_nav/parsers/parse_ntnu_dvl.py
@@ -9,6 +9,7 @@ See LICENSE.md file in the project root for full license information.
 import pandas as pd
 
 from auv_nav.sensors import Altitude, BodyVelocity, Category
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 header_list = [
@@ -88,12 +89,19 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
     log_file_path = get_raw_folder(outpath / ".." / filepath)
 
     category_str = None
+    timezone = 0
+    timeoffset = 0.0
     if category == Category.VELOCITY:
         category_str = "velocity"
+        timezone = mission.velocity.timezone
+        timeoffset = mission.velocity.timeoffset_s
     elif category == Category.ALTITUDE:
         category_str = "altitude"
+        timezone = mission.altitude.timezone
+        timeoffset = mission.altitude.timeoffset_s
 
-    # TODO handle timezone and timeoffsets
+    # convert to seconds from utc
+    timeoffset_s = -read_timezone(timezone) * 60 * 60 + timeoffset
 
     velocity_std_factor = mission.velocity.std_factor
     velocity_std_offset = mission.velocity.std_offset
@@ -119,7 +127,7 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
             Console.info("... parsing velocity")
             # For each row in the file
             for index, row in df.iterrows():
-                body_velocity.from_ntnu_dvl(str(log_file.name), row)
+                body_velocity.from_ntnu_dvl(str(log_file.name), row, timeoffset_s)
                 num_entries += 1
                 if body_velocity.valid():
                     # DVL provides -32 when no bottom lock
@@ -131,7 +139,7 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
             # For each row in the file
             for index, row in df.iterrows():
                 num_entries += 1
-                altitude.from_ntnu_dvl(str(log_file.name), row)
+                altitude.from_ntnu_dvl(str(log_file.name), row, timeoffset_s)
                 if altitude.valid():
                     num_valid_entries += 1
                     data = altitude.export(output_format)
diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 9d98359..fc7d1b3 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -222,12 +222,13 @@ class BodyVelocity(OutputFormat):
         self.z_velocity_std = self.get_std(vz)
         self.epoch_timestamp_dvl = self.parse_dvl_time(line)
 
-    def from_ntnu_dvl(self, filename, line):
+    def from_ntnu_dvl(self, filename, line, timeoffset_s=0.0):
         self.sensor_string = "ntnu_dvl"
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(line["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        date_time_obj = date_time_obj.replace(tzinfo=datetime.timezone.utc)
+        self.epoch_timestamp = date_time_obj.timestamp() + timeoffset_s
         self.epoch_timestamp_dvl = self.epoch_timestamp
         vx = float(line["u_dvl"])
         vy = float(line["v_dvl"])
@@ -1037,12 +1038,13 @@ class Altitude(OutputFormat):
         self.altitude_timestamp = self.epoch_timestamp
         self.altitude_std = self.altitude * self.altitude_std_factor
 
-    def from_ntnu_dvl(self, filename, row):
+    def from_ntnu_dvl(self, filename, row, timeoffset_s=0.0):
         self.sensor_string = "ntnu_dvl"
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(row["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        date_time_obj = date_time_obj.replace(tzinfo=datetime.timezone.utc)
+        self.epoch_timestamp = date_time_obj.timestamp() + timeoffset_s
         self.altitude_timestamp = self.epoch_timestamp
         # alt0 = float(row["dvl_alt0"])  # fore
         alt1 = float(row["dvl_alt1"])  # left
-- 
2.43.0


From ef00a74d243a0556d615f07959dbbd1e6694e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:33 +0000
Subject: [PATCH 52/79] fix: times of koyo21rov logs follow the mission's time
 zone and offset

---
 src/auv_nav/parsers/parse_koyo21rov.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_koyo21rov.py b/src/auv_nav/parsers/parse_koyo21rov.py
index 6acefac..d0e2a28 100644
--- a/src/auv_nav/parsers/parse_koyo21rov.py
+++ b/src/auv_nav/parsers/parse_koyo21rov.py
@@ -5,12 +5,14 @@ All rights reserved.
 Licensed under the BSD 3-Clause License.
 See LICENSE.md file in the project root for full license information.
 """
+import calendar
 import time
 from math import isnan
 
 import pandas as pd
 
 from auv_nav.sensors import Altitude, BodyVelocity, Category, Depth, Orientation, Usbl
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 
@@ -32,6 +34,14 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
         filename = mission.orientation.filename
         filepath = mission.orientation.filepath
 
+    # The clock settings are those of the sensor that is parsed
+    entry = {
+        Category.USBL: mission.usbl,
+        Category.VELOCITY: mission.velocity,
+        Category.DEPTH: mission.depth,
+        Category.ALTITUDE: mission.altitude,
+    }.get(category, mission.orientation)
+
     # ALR std models
     depth_std_factor = mission.depth.std_factor
     # velocity_std_factor = mission.velocity.std_factor
@@ -83,7 +93,7 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     if "timestamp" in mission_data.columns:
         # filtered position. Convert on the fly using a lambda function
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
+            lambda row: calendar.timegm(
                 time.strptime(row["timestamp"], "%Y-%m-%d %H:%M:%S")
             ),
             axis=1,
@@ -91,13 +101,17 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     else:
         # raw data
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
+            lambda row: calendar.timegm(
                 time.strptime(
                     str(row["Date"]) + " " + str(row["Time"]), "%Y/%m/%d %H:%M:%S"
                 )
             ),
             axis=1,
         )
+    # convert to seconds from utc
+    mission_data["epoch_timestamp"] += (
+        -read_timezone(entry.timezone) * 60 * 60 + entry.timeoffset_s
+    )
 
     data_list = []
     if category == Category.ORIENTATION:
-- 
2.43.0


From 63d2dc14d34d01217e8a5917cb38167e8b057147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:31 +0000
Subject: [PATCH 53/79] fix: every AE2000 sensor uses its own log folder and
 time offset

---
 src/auv_nav/parsers/parse_ae2000.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ae2000.py b/src/auv_nav/parsers/parse_ae2000.py
index beee8d9..6a3fcc0 100644
--- a/src/auv_nav/parsers/parse_ae2000.py
+++ b/src/auv_nav/parsers/parse_ae2000.py
@@ -27,10 +27,13 @@ def parse_ae2000(mission: Mission, vehicle: Vehicle, category, ftype, outpath):
     class_string = "measurement"
     sensor_string = "ae2000"
 
+    # each sensor has its own log and clock settings
+    entry = getattr(mission, category)
+    timezone = entry.timezone
+    timeoffset = entry.timeoffset_s
+    filepath = entry.filepath
+
     # read in date from filename
-    timezone = mission.velocity.timezone
-    timeoffset = mission.velocity.timeoffset_s
-    filepath = mission.velocity.filepath
 
     if category == "velocity" or category == "altitude":
         if category == "velocity":
-- 
2.43.0


From f2b665655737da7cf0a1fd141dcf8f1c304d8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:31 +0000
Subject: [PATCH 54/79] fix: attitudes of RDI logs are recorded in degrees

---
 src/auv_nav/parsers/parse_rdi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index b4108b3..0258232 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -67,9 +67,9 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
             # Lines start with TS, BI, BS, BE, BD, SA
             parts = line.split(",")
             if parts[0] == ":SA" and len(parts) == 4:
-                ot.roll = math.radians(float(parts[2]))
-                ot.pitch = math.radians(float(parts[1]))
-                ot.yaw = math.radians(float(parts[3]))
+                ot.roll = float(parts[2])
+                ot.pitch = float(parts[1])
+                ot.yaw = float(parts[3])
             elif parts[0] == ":TS" and len(parts) == 7:
                 # Every time a new TimeStamp is received, send the previous
                 # data packet
-- 
2.43.0


From 739cbcd46f56e668babf1b82924b6ca08c480b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:31 +0000
Subject: [PATCH 55/79] fix: the time zone of RDI logs is subtracted, not added

---
 src/auv_nav/parsers/parse_rdi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 0258232..2247fd7 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -47,16 +47,16 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
         Console.info("... parsing RDI velocity")
         filename = mission.velocity.filename
         filepath = mission.velocity.filepath
-        timeoffset_s = mission.velocity.offset_s
+        timeoffset_s = -mission.velocity.timezone_s + mission.velocity.timeoffset_s
     elif category == Category.ORIENTATION:
         Console.info("... parsing RDI orientation")
         filename = mission.orientation.filename
         filepath = mission.orientation.filepath
-        timeoffset_s = mission.orientation.offset_s
+        timeoffset_s = -mission.orientation.timezone_s + mission.orientation.timeoffset_s
     elif category == Category.ALTITUDE:
         Console.info("... parsing RDI altitude")
         filename = mission.altitude.filename
-        timeoffset_s = mission.altitude.offset_s
+        timeoffset_s = -mission.altitude.timezone_s + mission.altitude.timeoffset_s
         filepath = mission.altitude.filepath
 
     logfile = get_raw_folder(outpath / ".." / filepath / filename)
-- 
2.43.0


From 0d3f89ca75ef4e39908d7bf8066cf390233527ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:31 +0000
Subject: [PATCH 56/79] fix: the mounting angle of an RDI DVL is in degrees

---
 src/auv_nav/parsers/parse_rdi.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 2247fd7..9f5ab78 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -120,12 +120,9 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
                     altitude_valid = True
                     x = float(parts[1]) * 0.001
                     y = float(parts[2]) * 0.001
-                    bv.x_velocity = x * math.cos(headingoffset) - y * math.sin(
-                        headingoffset
-                    )
-                    bv.y_velocity = x * math.sin(headingoffset) + y * math.cos(
-                        headingoffset
-                    )
+                    yaw = math.radians(headingoffset)
+                    bv.x_velocity = x * math.cos(yaw) - y * math.sin(yaw)
+                    bv.y_velocity = x * math.sin(yaw) + y * math.cos(yaw)
                     bv.z_velocity = float(parts[3]) * 0.001
                     bv.x_velocity_std = float(parts[4]) * 0.001
                     bv.y_velocity_std = float(parts[4]) * 0.001
-- 
2.43.0


From 56d5d0ca809ee3d5687f02ef89b305eed2be114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:31 +0000
Subject: [PATCH 57/79] fix: the last packet of RDI logs is recorded

---
 src/auv_nav/parsers/parse_rdi.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 9f5ab78..c8b3fda 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -61,6 +61,18 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
 
     logfile = get_raw_folder(outpath / ".." / filepath / filename)
     data_list = []
+    sensors = {
+        Category.VELOCITY: bv,
+        Category.ORIENTATION: ot,
+        Category.ALTITUDE: al,
+    }
+
+    def export_packet():
+        if category in sensors:
+            data = sensors[category].export(output_format)
+            if data is not None:
+                data_list.append(data)
+
     altitude_valid = False
     with logfile.open("r", errors="ignore") as rdi_file:
         for line in rdi_file.readlines():
@@ -73,18 +85,7 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
             elif parts[0] == ":TS" and len(parts) == 7:
                 # Every time a new TimeStamp is received, send the previous
                 # data packet
-                if category == Category.VELOCITY:
-                    data = bv.export(output_format)
-                    if data is not None:
-                        data_list.append(data)
-                if category == Category.ORIENTATION:
-                    data = ot.export(output_format)
-                    if data is not None:
-                        data_list.append(data)
-                if category == Category.ALTITUDE:
-                    data = al.export(output_format)
-                    if data is not None:
-                        data_list.append(data)
+                export_packet()
 
                 date = parts[1]
                 year = int(prepend_year + date[0:2])
@@ -130,5 +131,6 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
             elif parts[0] == ":BD" and len(parts) == 6 and altitude_valid:
                 al.altitude = float(parts[4])
                 al.altitude_std = altitude_std_factor * al.altitude
-    # print(data_list)
+    # The last packet is not followed by a TimeStamp
+    export_packet()
     return data_list
-- 
2.43.0


From d72c8ed473b5ad7de80aa0c67fbb2aa94fa0cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:43 +0000
Subject: [PATCH 58/79] fix: fractions of seconds of NTNU stereo image names
 have four digits

---
 src/auv_nav/parsers/parse_ntnu_stereo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index ca1c72f..13bc793 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -38,10 +38,10 @@ def timestamp_from_filename(filename, timezone_offset, timeoffset):
     hour = int(filename[7:9])
     mins = int(filename[9:11])
     secs = int(filename[11:13])
-    msec = int(filename[14:18])
+    frac = int(filename[14:18])  # 1/10000 s
 
     epoch_time = date_time_to_epoch(yyyy, mm, dd, hour, mins, secs, timezone_offset)
-    epoch_timestamp = float(epoch_time + msec / 1000 + timeoffset)
+    epoch_timestamp = float(epoch_time + frac / 10000 + timeoffset)
     return epoch_timestamp
 
 
-- 
2.43.0


From 0e651c8210cca47e4dcb705304f87620e5fbc905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:43 +0000
Subject: [PATCH 59/79] fix: image times of one NTNU stereo dive are not used
 for the next

---
 src/auv_nav/parsers/parse_ntnu_stereo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index 13bc793..cff38e0 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -14,10 +14,6 @@ See LICENSE.md file in the project root for full license information.
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -93,6 +89,8 @@ def parse_ntnu_stereo_images(mission, vehicle, category, ftype, outpath):
     camera2_relpath = [x.relative_to(mission_path) for x in p if x.is_file()]
     camera2_filename = [x.name for x in camera2_relpath]
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
-- 
2.43.0


From b608fe3420ee0bf2a461283fad0297a495a0c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:43 +0000
Subject: [PATCH 60/79] fix: stereo_gopro images are looked for in the dive
 folder

---
 src/auv_nav/parsers/parse_stereo_gopro.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_stereo_gopro.py b/src/auv_nav/parsers/parse_stereo_gopro.py
index 8e72a78..f2eea48 100644
--- a/src/auv_nav/parsers/parse_stereo_gopro.py
+++ b/src/auv_nav/parsers/parse_stereo_gopro.py
@@ -27,7 +27,8 @@ def parse_stereo_gopro_images(mission, vehicle, category, ftype, outpath):
     Console.info("... parsing " + sensor_string + " images")
 
     # Read filelist.csv
-    df = pd.read_csv(get_raw_folder(camera1_filepath.parent / "filelist.csv"))
+    dive_folder = get_raw_folder(outpath / "..")
+    df = pd.read_csv(dive_folder / camera1_filepath.parent / "filelist.csv")
 
     data_list = []
 
@@ -36,10 +37,10 @@ def parse_stereo_gopro_images(mission, vehicle, category, ftype, outpath):
         file_left = row["file_left"]
         file_right = row["file_right"]
         # Check files exist
-        if not os.path.isfile(camera1_filepath / file_left):
+        if not os.path.isfile(dive_folder / camera1_filepath / file_left):
             Console.warn("File " + file_left + " does not exist")
             continue
-        if not os.path.isfile(camera2_filepath / file_right):
+        if not os.path.isfile(dive_folder / camera2_filepath / file_right):
             Console.warn("File " + file_right + " does not exist")
             continue
         data = {
-- 
2.43.0


From 69c232e646487aae59fbaccb63f0e048dce1b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:43 +0000
Subject: [PATCH 61/79] fix: Voyis laser images are recorded under their own
 names

---
 src/auv_nav/parsers/parse_voyis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_voyis.py b/src/auv_nav/parsers/parse_voyis.py
index ea2ab6b..0dcdf71 100644
--- a/src/auv_nav/parsers/parse_voyis.py
+++ b/src/auv_nav/parsers/parse_voyis.py
@@ -107,7 +107,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
                 "camera1": [
                     {
                         "epoch_timestamp": float(epoch)+timeoffset_s,
-                        "filename": str(stills_image_list_rel[i]),
+                        "filename": str(laser_image_list_rel[i]),
                     }
                 ],
             }
-- 
2.43.0


From 9952ebe9f849e443ef7a64acbf51f8278f225171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:43 +0000
Subject: [PATCH 62/79] fix: system times of Voyis image names are used

---
 src/auv_nav/parsers/parse_voyis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_voyis.py b/src/auv_nav/parsers/parse_voyis.py
index 0dcdf71..c631c74 100644
--- a/src/auv_nav/parsers/parse_voyis.py
+++ b/src/auv_nav/parsers/parse_voyis.py
@@ -68,7 +68,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
         for i, img in enumerate(stills_image_list):
             if str(Path(img).name)[15:18]=='PPS':
                 epoch = stills_filename_to_date_PPS(str(Path(img).name))
-            elif str(Path(img).name)[15:18]=='SYSTEM':
+            elif str(Path(img).name)[15:21]=='SYSTEM':
                 epoch = stills_filename_to_date_SYS(str(Path(img).name))
             data = {
                 "epoch_timestamp": float(epoch)+timeoffset_s,
@@ -96,7 +96,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
         for i, img in enumerate(laser_image_list):
             if str(Path(img).name[16:19])=='PPS':
                 epoch = laser_filename_to_date_PPS(str(Path(img).name))
-            elif str(Path(img).name[16:19])=='SYSTEM':
+            elif str(Path(img).name[16:22])=='SYSTEM':
                 epoch = laser_filename_to_date_SYS(str(Path(img).name))        
             data = {
                 "epoch_timestamp": float(epoch)+timeoffset_s,
-- 
2.43.0


From 571e4775846196f381f8c0942f53604618d8a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 63/79] fix: acfr_to_oplab does not overwrite earlier results
 without -F

---
 src/auv_nav/convert.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/convert.py b/src/auv_nav/convert.py
index 86c507f..a901cda 100644
--- a/src/auv_nav/convert.py
+++ b/src/auv_nav/convert.py
@@ -132,19 +132,23 @@ def acfr_to_oplab(args):
 
         print("Found", len(dr), "dr entries")
 
-        csv_filename = "auv_acfr_centre.csv"
+        csv_filename = "auv_acfr_centre"
+        csv_file = csv_filepath / (csv_filename + ".csv")
 
-        if (csv_filepath / csv_filename).exists() and not force_overwite:
+        if csv_file.exists() and not force_overwite:
             Console.error("The DR file already exists. Use -F to force overwrite it")
             Console.quit("Default behaviour: not to overwrite results")
         else:
             write_csv(csv_filepath, dr, csv_filename, csv_flag=True)
-            Console.info("Output vehicle pose written to", csv_filepath / csv_filename)
+            Console.info("Output vehicle pose written to", csv_file)
     if args.stereo_pose:
         Console.info("Stereo pose provided! Converting it to camera CSVs...")
         spp = AcfrStereoPoseParser(args.stereo_pose)
         cam1, cam2 = spp.get_cameras()
-        if (csv_filepath / "auv_dr_LC.csv").exists() and not force_overwite:
+        if (
+            (csv_filepath / "auv_acfr_LC.csv").exists()
+            or (csv_filepath / "auv_acfr_RC.csv").exists()
+        ) and not force_overwite:
             Console.error(
                 "The camera files already exists. Use -F to force overwrite it"
             )
-- 
2.43.0


From eb85cd00a95ccd729b0aa6ccb78afc0a0b44173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 64/79] fix: read roll and pitch of ACFR vehicle poses from
 their own columns

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 49938bd..86247f6 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -185,8 +185,8 @@ class AcfrVehiclePoseParser:
             dr.depth = entry.z_depth
             dr.latitude = entry.latitude
             dr.longitude = entry.longitude
-            dr.roll = entry.y_euler_angle
-            dr.pitch = -entry.x_euler_angle
+            dr.roll = entry.x_euler_angle
+            dr.pitch = entry.y_euler_angle
             dr.yaw = entry.z_euler_angle
             dr.altitude = entry.altitude
 
-- 
2.43.0


From 05b835e839615e36e85f6511be623619577fcf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 65/79] fix: write the angles of ACFR pose files in radians

---
 src/auv_nav/parsers/acfr_stereo_pose.py  | 6 +++---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_stereo_pose.py b/src/auv_nav/parsers/acfr_stereo_pose.py
index a2bb6f2..84be397 100644
--- a/src/auv_nav/parsers/acfr_stereo_pose.py
+++ b/src/auv_nav/parsers/acfr_stereo_pose.py
@@ -289,11 +289,11 @@ class AcfrStereoPoseWriter:
                     + " \t"
                     + str(c1.depth)
                     + " \t"
-                    + str(c1.roll)
+                    + str(math.radians(c1.roll))
                     + " \t"
-                    + str(c1.pitch)
+                    + str(math.radians(c1.pitch))
                     + " \t"
-                    + str(c1.yaw)
+                    + str(math.radians(c1.yaw))
                     + " \t"
                     + str(c1.filename)
                     + " \t"
diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 86247f6..203804b 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -228,11 +228,11 @@ class AcfrVehiclePoseWriter:
                     + " \t"
                     + str(dr.depth)
                     + " \t"
-                    + str(dr.roll)
+                    + str(math.radians(dr.roll))
                     + " \t"
-                    + str(dr.pitch)
+                    + str(math.radians(dr.pitch))
                     + " \t"
-                    + str(dr.yaw)
+                    + str(math.radians(dr.yaw))
                     + " \t"
                     + str(dr.altitude)
                     + "\n"
-- 
2.43.0


From 292201bce7711fb3b5b48f00e398677cd1462320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 66/79] fix: interpolate laser poses from the two neighbouring
 poses, heading along the shortest arc

---
 src/auv_nav/tools/interpolate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index cf27cb4..cc4fd2f 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -142,7 +142,7 @@ def interpolate_camera(query_timestamp, camera_list, filename):
             break
     c1 = camera_list[i]
     c2 = camera_list[i]
-    if i > 1:
+    if i > 0:
         c1 = camera_list[i - 1]
 
     c = Camera()
@@ -197,8 +197,14 @@ def interpolate_camera(query_timestamp, camera_list, filename):
         c1.pitch,
         c2.pitch,
     )
+    # Interpolate the heading along the shortest arc
+    yaw_difference = (c2.yaw - c1.yaw + 180) % 360 - 180
     c.yaw = interpolate(
-        query_timestamp, c1.epoch_timestamp, c2.epoch_timestamp, c1.yaw, c2.yaw
+        query_timestamp,
+        c1.epoch_timestamp,
+        c2.epoch_timestamp,
+        c1.yaw,
+        c1.yaw + yaw_difference,
     )
     c.x_velocity = interpolate(
         query_timestamp,
-- 
2.43.0


From 72ab7cd75cdd8af73404e2e6676bc4a0fdc282d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 67/79] fix: hybis_to_oplab reads the reference position as
 numbers

---
 src/auv_nav/auv_nav.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/auv_nav.py b/src/auv_nav/auv_nav.py
index ba3d24b..81fa440 100644
--- a/src/auv_nav/auv_nav.py
+++ b/src/auv_nav/auv_nav.py
@@ -266,11 +266,13 @@ def main(args=None):
     subparser_hybis_to_oplab.add_argument(
         "--reference-lat",
         dest="reference_lat",
+        type=float,
         help="Reference latitude for northing/easting.",
     )
     subparser_hybis_to_oplab.add_argument(
         "--reference-lon",
         dest="reference_lon",
+        type=float,
         help="Reference longitude for northing/easting.",
     )
     subparser_hybis_to_oplab.add_argument(
-- 
2.43.0


From 871e876ea1ca09f84b24159244cc7830be9c7228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 68/79] fix: interpolate hybis images between the records
 around them

---
 src/auv_nav/parsers/hybis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 11d769f..c445697 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -167,7 +167,7 @@ class HybisParser:
             i = 0
             while (
                 i < len(hybis_vec) - 2
-                and hybis_vec[i].epoch_timestamp < modification_time
+                and hybis_vec[i + 1].epoch_timestamp < modification_time
             ):
                 i += 1
 
@@ -211,8 +211,11 @@ class HybisParser:
                 hybis_vec[i].epoch_timestamp,
                 hybis_vec[i + 1].epoch_timestamp,
                 hybis_vec[i].heading,
-                hybis_vec[i + 1].heading,
+                hybis_vec[i].heading
+                + (hybis_vec[i + 1].heading - hybis_vec[i].heading + 180) % 360
+                - 180,
             )
+            heading = heading % 360
             altitude = interpolate(
                 modification_time,
                 hybis_vec[i].epoch_timestamp,
-- 
2.43.0


From 051e42f8c7912010971f9489b23d4a49b399a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:07 +0000
Subject: [PATCH 69/79] fix: read the vehicle poses of an ACFR file whatever
 the length of its header

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 203804b..6317a4b 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -159,15 +159,18 @@ class AcfrVehiclePoseParser:
         f = Path(filename)
         stream = f.open("r")
 
-        for i, line in enumerate(stream):
+        for line in stream:
+            # Skip the comments of the header, whose length varies
+            if not line.strip() or line.startswith("%"):
+                continue
             # Read origins
-            # Line 56: ORIGIN_LATITUDE  59.8136000000000010
-            # Line 57: ORIGIN_LONGITUDE -7.3532999999999999
-            if i == 44:
+            # ORIGIN_LATITUDE  59.8136000000000010
+            # ORIGIN_LONGITUDE -7.3532999999999999
+            if line.startswith("ORIGIN_LATITUDE"):
                 self.origin_latitude = float(line.split()[1])
-            if i == 45:
+            elif line.startswith("ORIGIN_LONGITUDE"):
                 self.origin_longitude = float(line.split()[1])
-            if i > 45:
+            else:
                 self._entries.append(AcfrVehiclePose(line))
         print("Parsed", len(self._entries), "entries")
 
-- 
2.43.0


From a2290930db2908fa22c87310778e506b03d9a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:45 +0000
Subject: [PATCH 70/79] fix: Sonardyne MRT fixes take the ship and heading
 observations closest in time

---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index 68714dc..50b9911 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -600,10 +600,15 @@ def find_closest_observations(observations):
             hdg_idx += 1
             hdg_stamp = heading_observations[hdg_idx].epoch_timestamp
 
-        if ship_idx < len(ship_observations):
-            auv_obs.closest_ship_obs = ship_observations[ship_idx]
-        if hdg_idx < len(heading_observations):
-            auv_obs.closest_heading_obs = heading_observations[hdg_idx]
+        # The observation before may be closer than the one just reached
+        auv_obs.closest_ship_obs = min(
+            ship_observations[max(ship_idx - 1, 0) : ship_idx + 1],
+            key=lambda x: abs(x.epoch_timestamp - stamp),
+        )
+        auv_obs.closest_heading_obs = min(
+            heading_observations[max(hdg_idx - 1, 0) : hdg_idx + 1],
+            key=lambda x: abs(x.epoch_timestamp - stamp),
+        )
     return auv_observations
 
 
-- 
2.43.0


From 04f9b9ab138fc0e814d5494978cf1dd4f05e3b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:14 +0000
Subject: [PATCH 71/79] fix: relative pose uncertainties are computed at the
 DVL, as their name says

The table auv_ekf_cov_based_on_ekf_propagation_*_laser_at_dvl was filled from
the states at the vehicle's origin, while the states it continues from and the
table it is compared with are those at the DVL.
---
 src/auv_nav/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 22c014c..e0959d4 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1448,7 +1448,7 @@ def process(
     if compute_relative_pose_uncertainty:
         camera3_ekf_list_cropped = update_camera_list(
             camera3_ekf_list_cropped,
-            ekf_list,
+            ekf_list_dvl,
             [0, 0, 0],
             [0, 0, 0],
             latlon_reference,
-- 
2.43.0


From 9fbb9f124799293c1516987c0dfd87f7f9463496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:14 +0000
Subject: [PATCH 72/79] fix: relative pose uncertainties of missions with two
 cameras

The earlier states were looked up under the name of a third camera, so the
command failed with an IndexError for a mission with two cameras.
---
 src/auv_nav/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index e0959d4..c000589 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1337,11 +1337,12 @@ def process(
         ekf_activate = True
 
         # Load previously computed states and covariances
+        laser_camera = mission.image.cameras[2 if len(mission.image.cameras) > 2 else 1]
         ekf_state_file_path = (
             renavpath
             / "csv"
             / "ekf"
-            / ("auv_ekf_" + mission.image.cameras[2].name + "_laser_at_dvl.csv")
+            / ("auv_ekf_" + laser_camera.name + "_laser_at_dvl.csv")
         )
         laser_camera_at_dvl_states = load_states(
             ekf_state_file_path, start_image_identifier, end_image_identifier
-- 
2.43.0


From 5acf7113f5f8323db86b468a37de8c463a86ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 73/79] fix: a dive whose altitudes all precede its depths
 crashed process

---
 src/auv_nav/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index c000589..caf9b38 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -667,7 +667,8 @@ def process(
 
     non_processed_altitude_index_list.reverse()
     for i in non_processed_altitude_index_list:
-        altitude_list[i].seafloor_depth = altitude_list[i + 1].seafloor_depth
+        if i + 1 < len(altitude_list):
+            altitude_list[i].seafloor_depth = altitude_list[i + 1].seafloor_depth
 
     # # if velocity_body_list is empty, then estimate it from velocity_inertial_list
     # # and orientation_list
-- 
2.43.0


From 6284d9de788532da1e43a79f615e343cf317addd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 74/79] fix: manual balance of a monochrome camera with single
 values crashed correct_images

---
 src/correct_images/corrector.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index ab0f668..a0495e4 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -433,17 +433,9 @@ class Corrector:
             developed_folder_str += "manual"
             developed_folder_str += (
                 "_gain_"
-                + str(self.color_gain_matrix_rgb[0, 0])
-                + "_"
-                + str(self.color_gain_matrix_rgb[1, 1])
-                + "_"
-                + str(self.color_gain_matrix_rgb[2, 2])
+                + "_".join(str(gain) for gain in np.diag(self.color_gain_matrix_rgb))
                 + "_sub_"
-                + str(self.subtractors_rgb[0])
-                + "_"
-                + str(self.subtractors_rgb[1])
-                + "_"
-                + str(self.subtractors_rgb[2])
+                + "_".join(str(sub) for sub in self.subtractors_rgb)
             )
         # Accept suffixes for the output directories
         if self.suffix:
-- 
2.43.0


From cfc9ebbaa0bf0d0a93e51ffd3086bbe5b628fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 75/79] fix: koyo20rov conversion kept no ship log's first
 record

Every ship_log file's first record was compared with its own time and so
counted as a temporal outlier; images taken before the second record were
left out of the tables. A first line without a date also ended the
conversion with a TypeError.
---
 src/auv_nav/parsers/koyo20rov.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 00bd39f..4c73037 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -394,14 +394,7 @@ class RovParser:
             lat = list(dataframe_pos[31])
             lon = list(dataframe_pos[32])
             vector_pos = []
-            current_epoch = RovPos(
-                depth[0],
-                altitude[0],
-                lon[0],
-                lat[0],
-                date[0],
-                timestr[0],
-            ).epoch_timestamp
+            current_epoch = -np.inf
             for i, this_date in enumerate(date):
                 if not isinstance(this_date, str):
                     continue
-- 
2.43.0


From ab0f050d11008668108f33848535acb5cc831a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 76/79] fix: koyo20rov conversion interpolated headings the
 long way round

A heading between 359 and 1 degrees came out as 180.
---
 src/auv_nav/parsers/koyo20rov.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 4c73037..04789df 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -782,12 +782,19 @@ class RovParser:
             while image_epoch > self.vector_rot[i].epoch_timestamp:
                 i += 1
             # Interpolate.
-            image_object.heading = interpolate(
-                image_epoch,
-                self.vector_rot[i - 1].epoch_timestamp,
-                self.vector_rot[i].epoch_timestamp,
-                self.vector_rot[i - 1].heading,
-                self.vector_rot[i].heading,
+            # Headings wrap around: take the shorter way between the two.
+            heading_0 = self.vector_rot[i - 1].heading
+            heading_1 = self.vector_rot[i].heading
+            heading_1 = heading_0 + (heading_1 - heading_0 + 180) % 360 - 180
+            image_object.heading = (
+                interpolate(
+                    image_epoch,
+                    self.vector_rot[i - 1].epoch_timestamp,
+                    self.vector_rot[i].epoch_timestamp,
+                    heading_0,
+                    heading_1,
+                )
+                % 360
             )
             image_object.pitch = interpolate(
                 image_epoch,
-- 
2.43.0


From 220e3a671ad1d52dc20162696417c0b17125058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 77/79] fix: koyo20rov conversion used missing readings to fill
 in missing ones

A zero depth or altitude next to another zero was replaced by a value
halfway to zero, one in the first record by a mixture with the last
record, and one in the last record not at all.
---
 src/auv_nav/parsers/koyo20rov.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 04789df..c8358d1 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -435,23 +435,16 @@ class RovParser:
             key=return_epoch_timestamp,
         )
         # Deal with missing values
-        for i in range(len(self.vector_pos) - 1):
-            if self.vector_pos[i].altitude == 0:
-                self.vector_pos[i].altitude = interpolate(
-                    self.vector_pos[i].epoch_timestamp,
-                    self.vector_pos[i - 1].epoch_timestamp,
-                    self.vector_pos[i + 1].epoch_timestamp,
-                    self.vector_pos[i - 1].altitude,
-                    self.vector_pos[i + 1].altitude,
-                )
-            if self.vector_pos[i].depth == 0:
-                self.vector_pos[i].depth = interpolate(
-                    self.vector_pos[i].epoch_timestamp,
-                    self.vector_pos[i - 1].epoch_timestamp,
-                    self.vector_pos[i + 1].epoch_timestamp,
-                    self.vector_pos[i - 1].depth,
-                    self.vector_pos[i + 1].depth,
-                )
+        for name in ("altitude", "depth"):
+            known = [pos for pos in self.vector_pos if getattr(pos, name) != 0]
+            if len(known) == 0:
+                continue
+            known_times = [pos.epoch_timestamp for pos in known]
+            known_values = [getattr(pos, name) for pos in known]
+            for pos in self.vector_pos:
+                if getattr(pos, name) == 0:
+                    value = np.interp(pos.epoch_timestamp, known_times, known_values)
+                    setattr(pos, name, float(value))
 
         dataframe_rot = pd.read_csv(self.filepath_rot)
         Console.info(f"Found {len(dataframe_rot)} rotation records!")
-- 
2.43.0


From a4605363493870555dfb95b87df06a4216cddeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 78/79] fix: koyo20rov conversion named its output folder in
 local time

Everything else in the pipeline names processed folders in UTC.
---
 src/auv_nav/parsers/koyo20rov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index c8358d1..30c778f 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -8,7 +8,7 @@ See LICENSE.md file in the project root for full license information.
 
 
 from copy import deepcopy
-from datetime import datetime
+from datetime import datetime, timezone
 from pathlib import Path
 from typing import Union
 
@@ -249,7 +249,7 @@ def epoch_to_timestr(epoch: Union[int, float]) -> str:
     Returns:
         str: date as YYYYMMDD_hhmmss
     """
-    time = datetime.fromtimestamp(epoch)
+    time = datetime.fromtimestamp(epoch, timezone.utc)
     timestr = (
         f"{time.year:04}{time.month:02}{time.day:02}"
         f"_{time.hour:02}{time.minute:02}{time.second:02}"
-- 
2.43.0


From e1d1622fc44acb407c3c998258bd5ffef2728cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 79/79] fix: koyo20rov conversion crashed when a camera had no
 images to write

With no image of a camera within the navigation data (or none at all), the
progress lines failed with a NameError or a ZeroDivisionError and nothing
was written.
---
 src/auv_nav/parsers/koyo20rov.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 30c778f..ec06e5b 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -670,7 +670,7 @@ class RovParser:
                 current_pos = self.vector_pos[i]
                 new_vector_pos.append(current_pos)
                 i += 1
-        print(f" - {100*(i+1)/n:6.2f}%")
+        print(f" - {100:6.2f}%")
         Console.info(f"...finished (removed {len(outlier_vector_pos)} outliers).")
         for pos_object in outlier_vector_pos:
             print(f" - epoch: {pos_object.epoch_timestamp}")
@@ -739,7 +739,7 @@ class RovParser:
                 self.vector_pos[i - 1].altitude,
                 self.vector_pos[i].altitude,
             )
-        print(f"Interpolating {name} from position vectors" f" - {100*(j+1)/n:6.2f}%")
+        print(f"Interpolating {name} from position vectors" f" - {100:6.2f}%")
         return vector_cam
 
     def interpolate_vector_rot(
@@ -803,7 +803,7 @@ class RovParser:
                 self.vector_rot[i - 1].roll,
                 self.vector_rot[i].roll,
             )
-        print(f"Interpolating {name} from rotation vectors" f" - {100*(j+1)/n:6.2f}%")
+        print(f"Interpolating {name} from rotation vectors" f" - {100:6.2f}%")
         return vector_cam
 
     def interpolate_to_images(self):
@@ -857,7 +857,7 @@ class RovParser:
                 continue
             else:
                 new_vector_LM165_at_dvl.append(image_object)
-        print(f" - for LM165 - {100*(i+1)/n:6.2f}%")
+        print(f" - for LM165 - {100:6.2f}%")
         self.vector_LM165_at_DVL = new_vector_LM165_at_dvl
         print(f"- removed {n_removed} entries")
 
@@ -879,7 +879,7 @@ class RovParser:
                 continue
             else:
                 new_vector_Xviii.append(image_object)
-        print(f" - for Xviii - {100*(i+1)/n:6.2f}%")
+        print(f" - for Xviii - {100:6.2f}%")
         self.vector_Xviii = new_vector_Xviii
         print(f"- removed {n_removed} entries")
         return
@@ -904,7 +904,7 @@ class RovParser:
                 self.ref_lat,
                 self.ref_lon,
             )
-        print(f" - for LM165 - {100*(i+1)/n:6.2f}%")
+        print(f" - for LM165 - {100:6.2f}%")
         # Create vectors for the two colour cameras
         self.vector_camA = deepcopy(self.vector_Xviii)
         self.vector_camB = deepcopy(self.vector_Xviii)
@@ -922,7 +922,7 @@ class RovParser:
                 self.ref_lat,
                 self.ref_lon,
             )
-        print(f" - for camA - {100*(i+1)/n:6.2f}%")
+        print(f" - for camA - {100:6.2f}%")
         # for camB
         n = len(self.vector_camB)
         for i, image_object in enumerate(self.vector_camB):
@@ -937,7 +937,7 @@ class RovParser:
                 self.ref_lat,
                 self.ref_lon,
             )
-        print(f" - for camB - {100*(i+1)/n:6.2f}%")
+        print(f" - for camB - {100:6.2f}%")
         Console.info("...finished adding lever arms.")
         return
 
@@ -962,7 +962,7 @@ class RovParser:
             )
             image_object.northing = lateral_distance * np.cos(bearing * np.pi / 180.0)
             image_object.easting = lateral_distance * np.sin(bearing * np.pi / 180.0)
-        print(f" - for LM165 - {100*(i+1)/n:6.2f}%")
+        print(f" - for LM165 - {100:6.2f}%")
         # for camA
         n = len(self.vector_Xviii)
         for i, image_object in enumerate(self.vector_Xviii):
@@ -979,7 +979,7 @@ class RovParser:
             )
             image_object.northing = lateral_distance * np.cos(bearing * np.pi / 180.0)
             image_object.easting = lateral_distance * np.sin(bearing * np.pi / 180.0)
-        print(f" - for Xviii - {100*(i+1)/n:6.2f}%")
+        print(f" - for Xviii - {100:6.2f}%")
         Console.info("...finished calculating northings and eastings.")
         return
 
@@ -1024,7 +1024,7 @@ class RovParser:
                 f" {image_object.lon}\n"
             )
             self.data_for_LM165_at_DVL.append(msg)
-        print(f" - for LM165_at_DVL - {100*(i+1)/n:6.2f}%")
+        print(f" - for LM165_at_DVL - {100:6.2f}%")
 
         self.data_for_camA = deepcopy(headers)
         n = len(self.vector_camA)
@@ -1044,7 +1044,7 @@ class RovParser:
                 f" {image_object.lon}\n"
             )
             self.data_for_camA.append(msg)
-        print(f" - for camA - {100*(i+1)/n:6.2f}%")
+        print(f" - for camA - {100:6.2f}%")
 
         self.data_for_camB = deepcopy(headers)
         n = len(self.vector_camB)
@@ -1064,11 +1064,11 @@ class RovParser:
                 f" {image_object.lon}\n"
             )
             self.data_for_camB.append(msg)
-        print(f" - for camB - {100*(i+1)/n:6.2f}%")
+        print(f" - for camB - {100:6.2f}%")
         Console.info("...finished generating .csv data strings.")
 
         Console.info("Writing outputs...")
-        n = len(self.vector_LM165_at_DVL)
+        n = len(self.data_for_LM165_at_DVL)
         i = 0
         with self.outpath_LM165_at_dvl.open("w", encoding="utf-8") as fileout:
             for line in self.data_for_LM165_at_DVL:
@@ -1081,7 +1081,7 @@ class RovParser:
                 i += 1
         print(f" - for LM165_at_DVL - {100*i/n:6.2f}%")
 
-        n = len(self.vector_camA)
+        n = len(self.data_for_camA)
         i = 0
         with self.outpath_camA.open("w", encoding="utf-8") as fileout:
             for line in self.data_for_camA:
@@ -1094,7 +1094,7 @@ class RovParser:
                 i += 1
         print(f" - for camA - {100*i/n:6.2f}%")
 
-        n = len(self.vector_camB)
+        n = len(self.data_for_camB)
         i = 0
         with self.outpath_camB.open("w", encoding="utf-8") as fileout:
             for line in self.data_for_camB:
-- 
2.43.0

