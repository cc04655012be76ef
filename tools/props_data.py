NOT_APPLICABLE = {}
WHY = "The unit tests run each function on one or two hand-made inputs and never run this end to end; "

prop("N01", "Parsed navigation file is complete and chronological",
     "Parsing a dive produces one navigation file that starts with the dive's origin and contains every valid reading of every configured sensor exactly once, ordered by the numerical value of its time. "
     "The file does not depend on the order in which the sensor logs finish loading. If a configured log cannot be used (missing, unknown format or time zone, parser giving up) the command stops with an error and leaves no navigation file.",
     ["inputs", "schedules", "configurations"], "every set of sensor logs and every completion order of the concurrent log parsers",
     WHY + "completion order, ties and clocks of different magnitude are not sampled.",
     ["src/auv_nav/parse.py", "src/auv_nav/parsers/parse_interlacer.py"],
     [("pool of log parsers and compilation of their results", "auv_nav/parse.py parse_single"), ("interlacing by time", "parse_interlacer.py")],
     ["processed/<dive>/nav/nav_standard.json"], "NavFile.tla",
     "Model: all completion orders and small reading sets. Code: random dives with randomly delayed parsers, replayed through `auv_nav parse`.")

prop("N02", "Merging dives keeps every reading, tagged with its dive",
     "Parsing several dives with merging produces a merged navigation file with the common origin once and every reading of every dive exactly once in time order, image and laser filenames being prefixed with the name of the dive they come from; the merged dive lies in a folder named after the earliest and the latest dive, has the descriptions of the first dive listed and can be processed like any other. "
     "Dives with different origins are refused.",
     ["inputs", "configurations", "histories"], "every list of dives, in any order, with any mix of sensors",
     WHY + "merging is not tested at all.",
     ["src/auv_nav/parse.py"], [("merge_json_files and parse", "auv_nav/parse.py")],
     ["processed/<first>_<last>_merged/nav/nav_standard.json"], "Merge.tla",
     "Model: all small dive lists. Code: random lists of dives through `auv_nav parse --merge' and `auv_nav process'.")

prop("N03", "Existing results are never overwritten unless forced",
     "Over any sequence of parse and process commands on any dives, a command run without the force option leaves the existing result files of an earlier run byte-identical (parse skips the dive, process refuses the time span), and with the force option the results are those of a first run on the current inputs. "
     "Results that are partly lost still protect the rest. Merging does not force: dives that are already parsed are not parsed again. Processing a dive that was not parsed is refused and creates no results.",
     ["histories", "configurations"], "every history of parse/process commands with and without force, changing inputs, dives and time spans",
     WHY + "no test runs two commands in sequence.",
     ["src/auv_nav/parse.py", "src/auv_nav/process.py", "src/oplab/folder_structure.py"],
     [("existing-output checks", "parse.py check_output_files_exist, process.py renavpath check")],
     ["nav_standard.json, json_renav_* folders, exit status"], "Workflow.tla",
     "Model: all command histories up to the bound. Code: TLC-generated histories replayed on scratch dives, directory state compared after every command.")

prop("N04", "Raw data and configuration are never modified",
     "No parse or process command, with any options and any outcome including errors, changes, adds or removes a file of the raw data; configuration files that exist are left as they are, and everything written lies under the processed (or configuration) tree of the dives named on the command line or, when merging, of the merged dive.",
     ["histories", "configurations", "inputs"], "every command history on every dive layout",
     WHY + "no test looks at the raw tree.",
     ["src/auv_nav/parse.py", "src/auv_nav/process.py", "src/oplab/folder_structure.py"],
     [("raw/processed/configuration path mapping", "oplab/folder_structure.py")],
     ["directory trees before and after each command"], "Workflow.tla",
     "Same histories as N03; tree digests of all other files are compared after every command.")

prop("N05", "Tide is removed from every depth within the tide data",
     "Every depth and acoustic-positioning reading whose time lies within the tide prediction has the linearly interpolated tide height at its own time subtracted from its depth; readings outside the prediction keep their depth, and other sensors are untouched. "
     "This holds whatever the order of readings, tide samples and tide files, and whatever time zones and clock offsets are configured for each.",
     ["inputs", "configurations"], "every tide table, set of tide files, reading times and clock configuration",
     WHY + "tide correction is not tested.",
     ["src/auv_nav/parse.py", "src/auv_nav/parsers/parse_NOC_polpred.py", "src/auv_nav/parsers/parse_tide_CTI.py"],
     [("tidal correction loop", "auv_nav/parse.py parse_single")],
     ["depth values in nav_standard.json"], "Tide.tla",
     "Model: cursor algorithm equals the declarative meaning for all small tables and reading orders. Code: every small table plus random ones through `auv_nav parse', both tide formats.")

prop("N06", "Processing uses exactly the readings within the requested time span",
     "Processing a parsed dive uses all and only the readings whose time lies in the requested closed time span (by default the whole dive), except velocity readings whose own clock differs by a second or more from the main clock; each used reading appears with its values and the configured uncertainty in the exported sensor tables, in order. "
     "Readings outside the span never influence the results.",
     ["inputs", "configurations"], "every parsed dive and every start/end combination",
     WHY + "process is never run by the tests.",
     ["src/auv_nav/process.py", "src/auv_nav/tools/time_conversions.py"],
     [("loading loop with time window", "auv_nav/process.py")],
     ["csv/sensor_values_and_uncertainties, dead_reckoning csv"], "Window.tla",
     "Model: all small dives and windows. Code: random dives and windows; removing all readings outside the span must not change any result.")

prop("N07", "Dead reckoning integrates velocity in the navigation frame",
     "The dead-reckoned track has exactly one pose per orientation reading taken between the first and the last velocity reading: attitude is that reading's, depth and altitude are interpolated at its time, northings and eastings accumulate over the elapsed time the body velocity interpolated at the pose's time (corrected for the rotation of the vehicle about the lever arm of the velocity sensor) rotated by the pose's attitude. "
     "The position of every sensor differs from that of the vehicle's reference point by its lever arm rotated by the attitude, in northing, easting, depth and altitude alike.",
     ["inputs", "configurations"], "every vehicle geometry, motion and sampling pattern",
     WHY + "the navigation tests cover only one helper each.",
     ["src/auv_nav/process.py", "src/auv_nav/localisation/dead_reckoning.py", "src/auv_nav/tools/interpolate.py", "src/auv_nav/tools/body_to_inertial.py", "src/auv_nav/tools/dvl_level_arm.py"],
     [("synchronisation and integration loops", "auv_nav/process.py")],
     ["csv/dead_reckoning/auv_dr_*.csv"], "DeadReckoning.tla",
     "Exact rational rotations (quarter turns and 3-4-5 angles), scaled integers; code replayed through `auv_nav process'.")

prop("N08", "Every image in the track's span gets the pose of its own instant",
     "Every image or payload sample whose time lies within the time span of the track (ends included) appears exactly once in its pose table, with its own filename and time and with the pose linearly interpolated at its time (heading along the shortest arc, lever arm of its sensor applied); samples outside the span do not appear. Northings/eastings and latitude/longitude of a row describe the same point.",
     ["inputs", "configurations"], "every track, set of image times and camera geometry",
     WHY + "interpolation tests use single hand-made pairs.",
     ["src/auv_nav/tools/interpolate.py", "src/auv_nav/process.py"],
     [("interpolate_sensor_list", "auv_nav/tools/interpolate.py")],
     ["csv/dead_reckoning/auv_dr_<camera>.csv"], "PoseInterp.tla",
     "As N07, with random image times including boundaries and heading wrap-around.")

prop("N09", "The Kalman filter fuses every measurement once, in time order",
     "The filter predicts forward in time only and consumes each velocity, orientation, depth and acoustic fix of the span exactly once in time order; its states are at strictly non-decreasing times and there is a state at the time of every image in the span.",
     ["inputs", "schedules", "histories"], "every interleaving of measurement and image times, including ties",
     WHY + "no test runs the filter on more than a few steps.",
     ["src/auv_nav/localisation/ekf.py"], [("filter event loop", "ekf.py ExtendedKalmanFilter")],
     ["recorded predict/update calls, ekf csv"], "EkfLoop.tla",
     "Model: all interleavings of small measurement streams. Code: recorded measurement-update calls of real runs validated against the model.")

prop("N10", "The Kalman filter honours its outlier gate",
     "A measurement changes the filter's state if and only if its Mahalanobis distance from the prediction is within the configured threshold; a rejected measurement leaves state and covariance as predicted, and heading innovations are taken along the shortest arc.",
     ["inputs", "configurations"], "every measurement, covariance and threshold",
     WHY + "gating is untested.",
     ["src/auv_nav/localisation/ekf.py"], [("correct step", "ekf.py EkfImpl.correct")],
     ["state before/after each correction"], "EkfGate.tla", "Axis-aligned covariances make distances exact integers; boundary cases enumerated by TLC.")

prop("N11", "EKF image poses belong to their images",
     "With the filter enabled, every image within the span of the filter has exactly one row in the filter's pose table, carrying its own filename and time and the filter state at that time moved by the camera's lever arm; northings/eastings and latitude/longitude of a row describe the same point.",
     ["inputs", "configurations"], "every set of image times and camera geometry",
     WHY + "not tested.",
     ["src/auv_nav/localisation/ekf.py", "src/auv_nav/sensors.py"], [("update_camera_list, fromSyncedBodyVelocity", "ekf.py, sensors.py")],
     ["csv/ekf/auv_ekf_<camera>.csv"], "EkfOutput.tla", "Random dives through `auv_nav process' with the filter on.")

prop("N12", "The USBL filter removes exactly the inconsistent fixes",
     "With the filter enabled, an acoustic fix survives if and only if it was taken at least a second inside the depth record, its depth agrees with the interpolated depth sensor within the configured number of uncertainties, and it is reachable at the configured maximum speed (within the position uncertainties) from each of the two fixes before and the two fixes after it among those of acceptable depth; the depth test and the distance test can each be switched off by the mission. "
     "Order and values of surviving fixes are unchanged, and dead reckoning is anchored to the surviving fixes only.",
     ["inputs", "configurations"], "every sequence of fixes and depth readings",
     WHY + "not tested.",
     ["src/auv_nav/localisation/usbl_filter.py"], [("usbl_filter", "usbl_filter.py")],
     ["csv/auv_usbl.csv"], "UsblFilter.tla", "Model: the neighbour scan keeps exactly the declared fixes, all small sequences. Code: random fix sequences with outliers through `auv_nav process', surviving table judged in exact integers.")

prop("N13", "Dead reckoning is anchored to the acoustic fixes",
     "When acoustic positioning is available the whole dead-reckoned track is shifted by one constant horizontal offset, the mean difference between fixes and track over all fixes taken during the track, so that the mean difference vanishes and the shape of the track is unchanged; depth, altitude and attitude are unaffected, and latitude/longitude agree with northings/eastings.",
     ["inputs"], "every track and set of fixes",
     WHY + "not tested.",
     ["src/auv_nav/localisation/usbl_offset.py", "src/auv_nav/process.py"], [("usbl_offset", "usbl_offset.py")],
     ["csv/dead_reckoning tables with and without fixes"], "UsblOffset.tla", "Scaled integers; random tracks and fixes.")

prop("N14", "Result tables hold every row, whatever the writer threads do",
     "Every pose and sensor table that is switched on is written with its header and one well-formed row per element, in order, carrying the element's values; tables are identical for every interleaving of the concurrent writers, and tables that are switched off are not written.",
     ["schedules", "configurations", "inputs"], "every interleaving of writer threads and every selection of outputs",
     WHY + "schedules are not explored.",
     ["src/auv_nav/tools/csv_tools.py", "src/auv_nav/process.py"], [("writer threads with a mutex", "csv_tools.py, process.py")],
     ["csv tables"], "Writers.tla", "Model: all interleavings of small writers. Code: real runs with randomly delayed writers compared with a serial run.")

prop("N15", "INS log messages become correctly stamped readings",
     "In a PHINS log every intact message takes effect and every corrupted one (bad checksum, truncated, unknown) has no effect at all; attitude, velocity, depth and altitude readings are recorded exactly when complete, in the vehicle's axes, stamped in UTC with the latest time message, and none is recorded while the latest time message is unreadable.",
     ["inputs", "fault_sequences", "configurations"], "every sequence of intact and corrupted messages, time zones and sensor rotations",
     WHY + "no log is parsed by the tests.",
     ["src/auv_nav/parsers/parse_phins.py", "src/auv_nav/sensors.py"], [("message machine", "parse_phins.py PhinsParser")],
     ["nav_standard.json"], "Phins.tla", "Model: all message streams up to the bound. Code: random streams through `auv_nav parse', every line a trace event.")

prop("N16", "USBL log packets become correctly located fixes",
     "In a GAPS log every valid fix of the configured beacon that is bracketed by ship position and heading is recorded exactly once, at its own UTC time, position and depth, with ship position and heading interpolated to the fix (heading along the shortest arc) and range and uncertainty derived from them; fixes of other beacons and fixes flagged invalid are never recorded.",
     ["inputs", "fault_sequences", "configurations"], "every sequence of packets over any number of log files",
     WHY + "no log is parsed by the tests.",
     ["src/auv_nav/parsers/parse_gaps.py"], [("packet machine", "parse_gaps.py")],
     ["nav_standard.json"], "Gaps.tla", "Model: all packet streams up to the bound. Code: random streams through `auv_nav parse'.")

prop("N17", "Stereo images are paired with their own partner",
     "Every image of the first camera that has a partner within the synchronisation tolerance is recorded exactly once, paired with the partner closest in time, both with the UTC times encoded in their names; images without a partner are not recorded (formats whose index lists the pairs: the listed pairs whose files exist; Voyis, which has no pairs: every still and laser image once, under its own name), and parsing one dive never affects the images of another dive parsed in the same run.",
     ["inputs", "histories", "configurations"], "every set of image files, time zone, and sequence of dives in one run",
     WHY + "not tested.",
     ["src/auv_nav/parsers/parse_acfr_images.py", "src/auv_nav/parsers/parse_biocam_images.py", "src/auv_nav/parsers/parse_seaxerocks_images.py", "src/auv_nav/parsers/parse_ntnu_stereo.py", "src/auv_nav/parsers/parse_stereo_gopro.py", "src/auv_nav/parsers/parse_rosbag.py", "src/auv_nav/parsers/parse_voyis.py"],
     [("pairing loops", "parse_acfr_images.py, parse_biocam_images.py, parse_seaxerocks_images.py, parse_ntnu_stereo.py, parse_stereo_gopro.py, parse_rosbag.py (extracted images), parse_voyis.py")],
     ["nav_standard.json"], "StereoPairs.tla", "Model: all small sets of times. Code: random image folders, several dives per run.")

prop("N18", "Camera clocks are corrected to the vehicle clock",
     "For BioCam missions the recorded time of every image is an affine function of that camera's own clock, following the trend of the whole dive, never later than the computer time stamped when the image arrived and equal to it for at least one image; stereo and laser images of the same camera share one clock model, and pairing, filenames and the original clock values are kept.",
     ["inputs", "histories", "configurations"], "every set of image names, clock offset, drift and arrival delay, and sequence of dives",
     WHY + "not tested.",
     ["src/auv_nav/parsers/parse_biocam_images.py", "src/auv_nav/parse.py"],
     [("correct_timestamps", "parse_biocam_images.py")],
     ["nav_standard.json"], "Clock.tla", "Model: all small point sets in exact rationals. Code: random drifting clocks through `auv_nav parse'.")

prop("N19", "The particle filter follows the whole track and weighs every fix",
     "With the particle filter enabled its track has one pose at the time of every dead-reckoned pose and of every acoustic fix taken during the track, in time order, and each of those fixes weighs the particles exactly once. "
     "Each pose has the attitude and altitude of the latest dead-reckoned pose and moves on by its velocity (without noise, exactly so); the vehicle's reference point lies a lever arm away. A fix multiplies the weight of every particle by the likelihood of their distance in three dimensions, given the fix's combined uncertainty times the configured factor; when fewer than half of the particles are effective, copies are drawn in proportion to the weights and all weigh the same again. The track is the history of the particle that is most likely after the last fix; latitude/longitude agree with northings/eastings.",
     ["inputs", "schedules"], "every interleaving of dead-reckoned poses and fixes, including fixes before, after and at the same time as poses",
     WHY + "the particle filter is not tested.",
     ["src/auv_nav/localisation/pf.py", "src/auv_nav/process.py"], [("event loop, movement model, trajectory of the best particle", "pf.py run_particle_filter")],
     ["csv/particle_filter tables, observations passed to the filter"], "ParticleLoop.tla, Particles.tla", "Model: all interleavings; resampling of all small weight vectors. Code: noise-free runs through `auv_nav process', every row validated; runs with noise, the particles before and after every fix validated.")

prop("N20", "Acoustic fixes of every log format are located where and when the log says",
     "For every vehicle position log other than GAPS (usbl_dump, NOC nmea, alr, EIVA Navipac, koyo21rov, Sonardyne MRT and the four Sonardyne GGA variants), parse records exactly the fixes of the configured beacon, each once and in the order of the log, at the latitude and longitude the log states in its own hemisphere, at the depth it states, with north and east offsets that follow from these, with the distance to the ship that the log states (usbl_dump) or that follows from the ship's position, itself the one observed closest in time, as is its heading (Sonardyne MRT), with uncertainties of north, east and depth (not for Sonardyne GGA) by the configured factor and offset on that distance (or, without one, on the depth), and at the instant the log spells, corrected by the configured time zone and (except Sonardyne GGA) time offset where the format is in local time, whatever time zone the computer runs in. Damaged lines and other beacons contribute nothing; in koyo21rov and alr logs a fix that does not advance the clock replaces the one before.",
     ["inputs", "configurations"], "every log, beacon, hemisphere, time zone, offset and machine time zone",
     WHY + "one line of one format in one hemisphere is sampled.",
     ["src/auv_nav/parsers/parse_usbl_dump.py", "src/auv_nav/parsers/parse_NOC_nmea.py", "src/auv_nav/parsers/parse_sonardyne_mrt.py", "src/auv_nav/parsers/parse_eiva_navipac.py", "src/auv_nav/sensors.py"],
     [("parsers of acoustic fixes", "src/auv_nav/parsers"), ("Usbl", "sensors.py")],
     ["usbl records of nav_standard.json"], "FixLog.tla", "Model: all short logs over two beacons, damaged lines and repeated observations. Code: random logs of every format in four machine time zones through `auv_nav parse'; every record validated.")

prop("N21", "Navigation logs of every format give the readings they record",
     "For every velocity, orientation, depth and altitude log other than PHINS (ae2000, alr csv and mat, autosub mat, koyo21rov, RDI, NTNU DVL, EIVA Navipac), parse records every usable reading of the log once and in its order, and nothing for rows that are empty, damaged or marked invalid (AE2000 depths contribute only when they change; in koyo21rov, alr and autosub logs a reading that does not advance the clock replaces the one before), with the values of that row in the documented units and axes (metres and metres per second, degrees, forward-right-down, turned by the sensor's mounting), with the uncertainty the configured model or the log states for that reading, and at the instant that row spells, corrected by the configured time zone and offset of that sensor where the format is in local time, whatever time zone the computer runs in.",
     ["inputs", "configurations"], "every log, mounting, uncertainty model, time zone, offset and machine time zone",
     WHY + "one file of two formats is sampled.",
     ["src/auv_nav/parsers/parse_ae2000.py", "src/auv_nav/parsers/parse_alr.py", "src/auv_nav/parsers/parse_autosub.py", "src/auv_nav/parsers/parse_rdi.py", "src/auv_nav/parsers/parse_ntnu_dvl.py", "src/auv_nav/parsers/parse_koyo21rov.py", "src/auv_nav/sensors.py"],
     [("parsers", "src/auv_nav/parsers"), ("BodyVelocity, Orientation, Depth, Altitude", "sensors.py")],
     ["velocity, orientation, depth, altitude records of nav_standard.json"], "NavLog.tla", "Model: all short logs under every recording rule. Code: random logs of every format in four machine time zones through `auv_nav parse'; every record validated.")

prop("C01", "Image corrections use each image's own altitude",
     "In every dive the images taken for parameter estimation (parse) or development (process) are exactly the existing ones listed in the dive's pose table (the Kalman filter's if there is one, otherwise dead reckoning) and in the user's file list if given, whose altitude is known and lies strictly within the range configured for that step; each is used with the altitude listed for that same image and appears with its own navigation in the list of developed images. With several dives the parameters are estimated from the selected images of all of them and stored for each",
     ["inputs", "configurations", "histories"], "every pose table, altitude range and sequence of dives",
     WHY + "the corrector is tested with a single dive and no altitude filtering.",
     ["src/correct_images/corrector.py", "src/correct_images/correct_images.py"], [("image and altitude selection", "corrector.py")],
     ["selected images and altitudes, parameters"], "ImageSelection.tla", "Model: all small tables. Code: random pose tables through the corrector.")

prop("C02", "Correction parameters and corrected images are protected",
     "Without the force option, parse keeps existing correction parameters and process keeps existing corrected images untouched and says so by failing; with it, or if there are none, they become what the same command computes from the current images, configuration and parameters in a fresh dive. Processing a dive any of whose parameters is missing is refused and writes no image of the camera that lacks them, nor of any later one. A command for one configuration, suffix or dive never alters parameters or images of another, and no command alters raw data or configuration. `correct' is parse followed by process.",
     ["histories", "configurations", "crash_points"], "every history of correct_images commands",
     WHY + "no test runs two commands in sequence.",
     ["src/correct_images/correct_images.py", "src/correct_images/corrector.py"], [("existence checks", "corrector.py create_output_directories"), ("process, parse", "corrector.py")],
     ["parameter and image folders"], "CorrectWorkflow.tla", "Model: all histories up to the bound over two dives and four configurations. Code: enumerated and random histories replayed on scratch dives, every command compared with a first run on a fresh copy.")

prop("C03", "Image statistics are those of all images",
     "The mean and standard deviation images stored by parse are the pixel-wise mean and population standard deviation of all selected images (as recorded, for uniform distance; attenuation-corrected otherwise), and the representative image and distance of every altitude bin of at least ten images are the mean, median or trimmed mean (a tenth dropped at either end), as configured, of the images of that bin and the mean of their distances, zero depths left out; bins with fewer images contribute none. The result does not depend on the order of the images or on parallel workers.",
     ["inputs", "schedules"], "every set of images (unsaturated), order and split of the work",
     WHY + "two or three images in one order are sampled.",
     ["src/correct_images/tools/numerical.py", "src/correct_images/corrector.py"],
     [("RunningMeanStd, image_mean_std_trimmed, median_array", "correct_images/tools/numerical.py"), ("compute_distance_bin", "corrector.py")],
     ["image_raw_mean/std, image_corrected_mean/std, images_map, distances_map"], "Stats.tla", "Model: the running computation equals the definition for all short lists. Code: random dives through `correct_images parse'; sampled pixels validated.")

prop("C04", "Developed images are the recorded ones, pixel by pixel",
     "Every developed image is its own recorded image, pixel by pixel: the intensity on the camera's scale is divided by the attenuation stored for that pixel and colour at the pixel's distance (the image's altitude, or its own depth map), multiplied by the gain stored for it, normalised with the mean and deviation stored for it to the configured brightness and contrast (for uniform distance: recorded intensity and raw mean and deviation), gamma-corrected, each colour of the sensor's pattern in its own output channel, and undistorted with the camera's calibration if requested. With manual balance the configured subtractors and gain matrix are applied instead. File name and configured format are kept and no other images are written.",
     ["inputs", "configurations"], "every image, camera type, bit depth, distance metric and parameter set",
     WHY + "one 8 bit configuration is sampled.",
     ["src/correct_images/corrector.py", "src/correct_images/corrections", "src/correct_images/loaders"],
     [("process_image", "corrector.py"), ("attenuation_correct", "corrections/attenuation.py"), ("loaders", "correct_images/loaders")],
     ["developed image files"], "Develop.tla", "Model: monotonicity and range over a parameter grid. Code: random cameras, formats and stored parameters through `correct_images process'; sampled pixels validated against integer arithmetic.")

prop("C05", "Attenuation correction restores what the mean distance would show",
     "For every pixel and colour of a scene whose light falls off exponentially with the distance onto a constant background, the attenuation parameters stored by parse predict the intensity at every distance within the range of the usable altitude bins, and the stored gain is the prediction at the mean distance of all selected images, so that an intensity recorded at any of these distances is restored to the one at the mean distance; the stored attenuation never grows with the distance and its background is not negative.",
     ["inputs", "configurations"], "every scene, distribution of altitudes, camera type, smoothing method and distance metric",
     WHY + "the fit is only tested on one curve.",
     ["src/correct_images/corrections/attenuation.py", "src/correct_images/tools/curve_fitting.py", "src/correct_images/corrector.py"],
     [("calculate_attenuation_parameters, calculate_correction_gains", "corrections/attenuation.py"), ("curve_fitting", "tools/curve_fitting.py")],
     ["attenuation_parameters, correction_gains"], "Attenuation.tla", "Model: integer fall-off, correction flat at all distances. Code: synthetic scenes through `correct_images parse'; sampled pixels validated.")

prop("C06", "Image correction works with the configuration in force",
     "Every image correction command works with the camera definition of the configuration folder, without it with the one of the raw folder, without both with the shipped one of the mission's image format, and with the correction file of the given suffix in the configuration folder; where that is missing the shipped file of the image format is copied there and used, and no file of the user is changed. Every setting of that file reaches the correction of the camera it names, omitted ones with their documented defaults (and the older notation of the altitude limits and of the distance metric as before); a camera the file does not name is left out. Each dive of a joint parse is corrected with its own file, and the parse is refused unless camera system, method, metric, smoothing, window and the cameras' names and order agree. A missing mission, a camera definition of another image format or a malformed file is refused; a suffix with other characters than letters, digits, dash and underscore runs nothing. A copy of the file used stays in the log folder.",
     ["configurations", "histories"], "every layout of mission, camera and correction files, and every order of edits and commands",
     WHY + "configuration selection is only exercised with one layout.",
     ["src/correct_images/correct_images.py", "src/correct_images/parser.py", "src/correct_images/corrector.py", "src/oplab/camera_system.py"],
     [("load_configuration_and_camera_system, call_parse, call_process", "correct_images/correct_images.py"), ("CorrectConfig, is_equivalent", "correct_images/parser.py"), ("load_configuration", "correct_images/corrector.py")],
     ["settings of each corrector when it turns to the images; files of the configuration and log folders"], "Config.tla", "Model: all histories of edits and commands over two dives, two suffixes and five files. Code: random histories of edits and commands for all image formats through the command line; what each corrector works with is recorded when it asks for its images.")

prop("O01", "File names decode to the instant they encode",
     "For every camera description, the camera's images are exactly the files of its folder that match it, each once, and the instant of each is the one its own name's date and time fields spell in UTC under the configured pattern, whatever their order in the name, down to the microsecond; or the seconds since 1970 spelled in the name; or, where the name only carries an index, the instant spelled in the row of the timestamp file with that index. It does not depend on the machine's own time zone.",
     ["inputs", "configurations"], "every pattern, date, index file and machine time zone",
     WHY + "a handful of names are sampled in one machine time zone.",
     ["src/oplab/filename_to_date.py", "src/oplab/camera_system.py"], [("pattern decoding, timestamp file", "filename_to_date.py"), ("image_list, stamp_list", "camera_system.py")],
     ["image_list, stamp_list"], "FilenameDate.tla, Calendar.tla", "Model: the day count agrees with the walk through every day from 1970. Code: random patterns, dates, index files and machine time zones.")

prop("O02", "Dive folders map one to one between raw, processed and configuration",
     "For every path with exactly one component named raw, processed or configuration, existing or not, absolute or relative, the corresponding path in each of the three trees is the resolved path with just that component replaced, mapping back returns the original, and nothing is created; a path without such a component is refused.",
     ["inputs"], "every path",
     WHY + "two paths are sampled.",
     ["src/oplab/folder_structure.py"], [("get_folder", "folder_structure.py")],
     ["returned paths"], "Paths.tla", "Model: all short paths over an alphabet including look-alikes; the same set replayed.")

prop("O03", "Mission and vehicle descriptions are read as written",
     "Reading a mission and vehicle description yields every value given, the documented default for every value not given and nothing for sensors not described; sensors, cameras and payloads get the six offsets of the frame they are mounted at (by default the frame of the sensor's kind, or of the camera's name). A mission that names a frame or payload the vehicle does not define is refused. Writing the descriptions, whether read from a file or built in memory, and reading them again yields the same.",
     ["inputs", "configurations"], "every combination of sensors, cameras, payloads and frames",
     WHY + "three descriptions are sampled.",
     ["src/oplab/mission.py", "src/oplab/vehicle.py"], [("load/write", "mission.py, vehicle.py")],
     ["loaded values"], "MissionVehicle.tla", "Model: all small descriptions under describe/write/read. Code: random descriptions written and re-read.")

prop("N22", "Conversions keep poses, angles, names and earlier results",
     "auv_nav convert. acfr_to_oplab: every pose of an ACFR vehicle file becomes, in order, a row of auv_acfr_centre.csv with its time, latitude, longitude, northing, easting, depth and altitude, and its X, Y and Z angles (radians) as roll, pitch and heading in degrees, whatever the length of the file's header; every pose of a stereo file becomes a row of auv_acfr_LC.csv and one of auv_acfr_RC.csv with the left and right image names, rolled, pitched and turned as the reader documents (roll = Y, pitch = -X, heading = Z + 90 degrees); with a dive given, every laser sample of its navigation file becomes a row of auv_acfr_laser.csv with its name and the pose interpolated at its time between the two neighbouring stereo poses, heading along the shortest arc. oplab_to_acfr: the pose files have the mission's origin and a numbered line per row of the EKF tables with the same values, angles in radians, and the names of both images; the combined log has in time order a line for every orientation, depth, USBL fix and (non-laser) image and for every body velocity whose two clocks agree within a second and that follows an altitude and an orientation received since the previous velocity line, which it quotes; a vehicle pose file converted back gives the same rows. hybis_to_oplab: one row per image, in name order, with its time and the position and attitude interpolated between the records around it, isolated zero depths and altitudes being bridged, and northing and easting relative to the given reference. Without -F no result that exists is changed: the conversion stops there and says so.",
     ["inputs", "histories"], "every pose file, dive and history of conversions",
     WHY + "conversion is not tested.",
     ["src/auv_nav/convert.py", "src/auv_nav/parsers/acfr_vehicle_pose.py", "src/auv_nav/parsers/acfr_stereo_pose.py", "src/auv_nav/parsers/acfr_combined_raw.py", "src/auv_nav/parsers/hybis.py", "src/auv_nav/tools/interpolate.py"],
     [("acfr_to_oplab, oplab_to_acfr, hybis_to_oplab", "convert.py"), ("interpolate_camera", "interpolate.py"), ("to_acfr", "sensors.py")],
     ["converted tables and pose files"], "Convert.tla", "Model: all short histories of conversions and all short sensor logs. Code: random histories of conversions through the command line; every output compared with the source it must hold.")

prop("O04", "Every command leaves a record of what it did",
     "Each auv_nav parse or process, correct_images parse or process and auv_cal command adds to the log folder of the processed dive one log named after the instant and the command, which holds software version, user and host, every information, warning and error it shows after opening the log and the reason it gives for stopping; auv_nav process also stores there a copy of the configuration it used. Logs of earlier runs are never shortened or altered, also when two commands start within the same second.",
     ["histories", "configurations"], "every history of commands, whether they succeed, refuse or stop early",
     WHY + "not tested.",
     ["src/oplab/console.py", "src/auv_nav/auv_nav.py", "src/correct_images/correct_images.py", "src/auv_cal/auv_cal.py"], [("Console", "oplab/console.py"), ("call_* functions", "auv_nav.py, correct_images.py, auv_cal.py")],
     ["processed/<dive>/log"], "RunLog.tla", "Model: all short histories of commands within and across seconds. Code: random histories through the command lines; logs compared with what was shown.")

prop("A01", "Calibration keeps, refuses or redoes results consistently",
     "Over any history of mono, stereo and laser calibration commands, forced or not, with or without suffix and with changing images: existing results are kept unless forced (mono keeps the cameras that have one and calibrates the others; stereo and laser refuse); forced runs replace the result, from the stored detections or, forced twice, from the current images; stereo calibration uses both cameras' current own calibrations and laser calibration the stereo calibration, first making what is missing, or refusing if a suffix was given; too few images, or images that do not show the pattern, are reported and leave no result. A missing configuration is created from the default and nothing else is done. Images and configuration are never changed, and images are found in the raw as well as in the processed tree.",
     ["histories", "configurations"], "every history of calibration commands and changes of the images",
     WHY + "no command sequence is tested.",
     ["src/auv_cal/calibration.py", "src/auv_cal/auv_cal.py", "src/auv_cal/camera_calibrator.py"], [("mono/stereo/laser steps", "calibration.py Calibrator"), ("collect_image_files", "calibration.py")],
     ["calibration files, exit status"], "CalWorkflow.tla", "Model: all histories up to the bound over two suffixes, forces and image changes. Code: enumerated and random histories on rendered boards and laser lines; versions are recognised from the values in the files.")

prop("A02", "Calibrations describe the rig that took the images",
     "For images of a rig of known geometry, whatever the camera sizes, file naming scheme, folder, and images missing or without pattern on either side: the mono calibration has each camera's focal lengths and principal point, the stereo calibration the transformation from the first to the second camera and rectifying rotations that turn both the same way with the baseline along an image axis; the laser calibration uses exactly the pairs of images taken at the same instant (after skipping the configured number of first images) in which the line is visible (500 evenly spread ones if there are more), its points lie on the true laser plane at the distance of the wall of that pair, the plane of each laser is the true one, the requested number of uncertainty planes is given and these are close to it, and no depth interval contributes more points than the configured number while those with fewer contribute all and points outside the configured depths none. Results computed again from stored detections agree.",
     ["inputs", "configurations"], "every rig, naming scheme and set of images",
     WHY + "the tests calibrate one rig from fixed images, and laser calibration is not tested.",
     ["src/auv_cal/camera_calibrator.py", "src/auv_cal/laser_calibrator.py", "src/auv_cal/calibration.py"], [("MonoCalibrator, StereoCalibrator", "camera_calibrator.py"), ("LaserCalibrator", "laser_calibrator.py"), ("find_images_to_match", "calibration.py")],
     ["mono_*.yaml, stereo_*.yaml, laser_calibration_*.yaml, points_*.ply"], "CalPairs.tla, TraceRig.tla", "Model: pairing by time is one to one for all small sets of shots. Code: rendered boards and laser lines of random rigs; files validated against the true geometry.")

prop("N23", "Uncertainties follow the configured model and travel with the poses",
     "Every speed, attitude and depth reading used by processing has the uncertainty its configured model gives it: the one the reading states (model sensor, or no model configured) or offset + factor times the magnitude of that axis (model linear, with common or per-axis coefficients; settings under their current or former names); an unknown model is refused before results are written. The dead-reckoned track at every pose has the attitude uncertainties of that reading and the speed and depth uncertainties interpolated at that instant, the tables of the DVL and of the vehicle agree, and every image of the dead-reckoned tables has the uncertainties, and the body velocity corrected for the lever arm, interpolated at its own instant; what is not known stays unknown.",
     ["inputs", "configurations"], "every set of readings and uncertainties, combination of models and image times",
     WHY + "no uncertainty is compared.",
     ["src/auv_nav/sensors.py", "src/auv_nav/process.py", "src/auv_nav/tools/interpolate.py"],
     [("from_json of BodyVelocity, Orientation, Depth", "sensors.py"), ("interpolate_property", "tools/interpolate.py")],
     ["uncertainty and velocity columns of auv_dr_*.csv"], "Uncertainty.tla", "Model: all small readings and models. Code: random dives with random stated uncertainties and models through `auv_nav process'; every row validated.")
prop("N24", "Uncertainties relative to an image",
     "Relative pose uncertainties (process -r from one laser image through another) cover exactly the images from the first named one through the second (through the last when the second does not exist) and are refused, writing nothing, when the first does not exist, comes after the second or no images are named. One table keeps the poses of the earlier run at the DVL with every covariance increased by the first one's, that one being zero; the other is the filter restarted at the first image's pose at the DVL with a certain pose, run over the readings through the last image. The earlier run's results stay as they were.",
     ["inputs", "configurations"], "every set of readings, stretch of images, with and without smoothing, two or three cameras",
     WHY + "this mode has no test.",
     ["src/auv_nav/process.py", "src/auv_nav/tools/csv_tools.py", "src/auv_nav/localisation/ekf.py"],
     [("process (compute_relative_pose_uncertainty)", "process.py"), ("load_states", "tools/csv_tools.py")],
     ["auv_ekf_cov_based_on_*_laser_at_dvl.csv and _cov.csv"], "RelPose.tla", "Model: all small stretches and covariances. Code: random dives through `auv_nav process', then `process -r'; tables validated against the earlier run and a reference filter.")
prop("N25", "Sidescan and SLAM++ files repeat the tables",
     "For every solution whose track is written, the file for sidescan software has one row per pose of that track, in order, with the UTC date and time of the pose (whole second, whatever the machine's own time zone), its latitude and longitude, heading, roll, pitch, altitude and depth, and for dead reckoning the forward speed measured at that instant. The SLAM++ file, if activated with the Kalman filter, has one edge for every two consecutive images of the first camera, numbered by the images' numbers from zero, with the difference of their poses (position, heading, pitch, roll) and the information matrix of the later one (upper triangle, same order), nowhere less certain than its variance says. Neither is written when not asked for.",
     ["inputs", "configurations"], "every set of readings, image numbering, selection of solutions and machine time zone",
     WHY + "these files are not looked at.",
     ["src/auv_nav/process.py", "src/auv_nav/tools/csv_tools.py", "src/auv_nav/sensors.py"],
     [("write_sidescan_csv, spp_csv", "tools/csv_tools.py"), ("to_sidescan_row", "sensors.py")],
     ["auv_*_centre_sss.txt and auv_ekf_<camera>.txt"], "SideFiles.tla", "Model: all small sequences of images. Code: random dives, also across midnight, leap day and year, in several machine time zones; every row compared with the tables.")
prop("N26", "Ship logs of the KOYO ROV become image poses",
     "auv_nav convert koyo20rov_to_oplab writes, into the processed folder named (in UTC, whatever the machine's time zone) after the first and last second of the navigation data, one table per camera of the pair and one for the laser camera at the DVL. Each holds, in order of time, exactly the images of that camera taken within both the position and the compass data, under the path the mission file gives, with roll, pitch and heading on the line between the compass records around the image (heading the shorter way round) and position, depth and altitude on the line between the position records around it, moved by the lever arms turned with the attitude: from the DVL to the camera for position and altitude, from the depth sensor for depth; northing, easting, latitude and longitude agree. Of each ship log every record later than all before it in the file counts and no other; records of several files are joined by time; a depth or altitude of zero is a missing reading, replaced by the line between the nearest readings before and after, or the nearest one. A camera without such images gets an empty table. If any of the three tables exists and -F is not given, nothing is changed.",
     ["inputs", "histories"], "every set of logs, images and lever arms; every history of conversions",
     WHY + "this conversion has no test.",
     ["src/auv_nav/parsers/koyo20rov.py", "src/auv_nav/convert.py"],
     [("RovParser", "parsers/koyo20rov.py"), ("koyo20rov_to_oplab", "convert.py")],
     ["auv_dr_<camera>.csv, auv_dr_LM165_at_dvl.csv"], "Koyo.tla", "Model: all small logs of two files and a compass, and short histories of conversions. Code: random histories of dives logged, logged again, tables removed and cameras renamed, in several machine time zones; every file found compared with the logs it must come from.")
