import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

p("U01","Sensor history buffers return the newest sample that is old enough, once",
"A bounded sensor history buffer answers a query for time t with the most recently stored sample that is not newer than t and less than 100 ms older than t, and otherwise reports that nothing matches. A returned sample and everything stored before it are never returned again, a full buffer overwrites its oldest entry, and nothing is ever returned that was not stored or that has been overwritten.",
["histories","inputs","configurations"],"for every buffer capacity, every interleaving of stores and timed queries (in-order, late, duplicate and out-of-order time stamps, time stamps near zero) and every query time",
"The unit tests store three or four fixed samples in a buffer of length three; wrap-around after consumption, emptiness after a newest-sample hit, the exact 100 ms boundary and out-of-order stamps are only reachable by exploring histories.",
["EKF/RingBuffer.h"],[("push/pop_first_older_than head and tail arithmetic","EKF/RingBuffer.h")],["return values and samples of the buffer's public operations"])

p("U02","IMU down-sampling conserves time, rotation, velocity change and clipping",
"Every high-rate inertial sample is accounted for in exactly one down-sampled sample: integration times add up, the accumulated rotation is the composition of the input rotations, the accumulated velocity change is the sum of the inputs re-expressed in the final body frame, the time stamp is that of the last input, and clipping on any axis is reported if any input clipped on that axis. The average output interval converges to the target period for any input rate at or above it.",
["inputs","histories"],"for every sequence of finite inertial samples with arbitrary rates, jitter, rotation and clipping flags, over arbitrarily long histories",
"The existing test feeds a constant sample a few times; conservation over irregular sample intervals, large rotations and repeated resets is a statement about histories.",
["EKF/imu_down_sampler.cpp","EKF/imu_down_sampler.hpp"],[("quaternion accumulation, delta velocity rotation, collection time adjustment","EKF/imu_down_sampler.cpp")],["ImuDownSampler::update and the sample it returns"])

p("U03","Scalar helpers and the low-pass filter obey their defining equations",
"Clamping, minimum, maximum, degree/radian conversion, integer power and compensated summation return the mathematically defined value for every argument, including negative exponents and arguments at the limits. The first-order low-pass filter moves its state towards each input by exactly the fraction given by its sample interval and time constant, never overshoots, keeps a constant input unchanged, and rejects configurations for which that fraction is undefined.",
["inputs","configurations"],"for every finite argument of the scalar helpers, every pair of sample interval and time constant (or cut-off frequency), and every input sequence of the filter",
"The unit tests check a handful of values; limits, long sums and degenerate filter parameters are not sampled.",
["mathlib/mathlib.h","AlphaFilter/AlphaFilter.hpp","EKF/utils.hpp","EKF/utils.cpp"],[("templates min/max/constrain/radians/degrees","mathlib/mathlib.h"),("alpha = dt/(dt+tau) blend","AlphaFilter/AlphaFilter.hpp"),("powf, kahanSummation","EKF/utils.cpp")],["return values, filter state"])

p("U04","Attitude representation helpers are mutually consistent rotations",
"Every conversion between Euler angles (yaw-pitch-roll and yaw-roll-pitch order), quaternion and rotation matrix yields a proper rotation equal to the composition of its elementary rotations, and the inverse-rotation conversion is its exact inverse. Extracting yaw returns the yaw used to build the rotation, the chosen rotation order is the one further from its singularity, and replacing the yaw changes only the yaw: the tilt of the vehicle is preserved and the new yaw is what is read back.",
["inputs"],"for every attitude (including near and past the singularity of either rotation order) and every yaw angle",
"The unit tests check a few angle triples; sign errors that cancel at those angles or appear only at large tilt are not reachable by samples.",
["EKF/utils.cpp","EKF/utils.hpp"],[("taitBryan312ToRotMat, quatToInverseRotMat, updateYawInRotMat, getEuler*Yaw","EKF/utils.cpp")],["values returned by the helpers"])

p("G01","Local map projection is an invertible azimuthal equidistant projection",
"Projecting a latitude/longitude to local coordinates about any reference preserves geodesic distance and initial bearing from the reference on the spherical earth, the reference itself maps to zero, and reprojecting returns the original latitude/longitude to within a small fraction of a metre-equivalent. Projection calls before a reference is set report failure and leave the reference unset; once set, the reference and the time it was set are reported back unchanged.",
["inputs","configurations"],"for every reference latitude/longitude (high latitudes, either side of the date line, zero) and every point within several hundred kilometres, including coincident points",
"Existing tests cover one reference and a few short offsets; accuracy across references, at the date line, at coincident points and for uninitialised references is universally quantified.",
["geo/geo.cpp","geo/geo.h"],[("map_projection_init, map_projection_project, map_projection_reproject","geo/geo.cpp")],["values and status codes of the projection functions"])

p("G02","Distance, bearing and waypoint computations agree with spherical geometry",
"Distance between two global points equals the great-circle distance and is symmetric and zero only for coincident points; bearing equals the great-circle initial bearing within (-pi, pi]; the vector to the next point has those length and direction components to first order. Creating a waypoint from a distance and bearing, or along a line between two points, gives a point at that distance and in that direction; adding an offset vector and taking the vector back agree; three-dimensional distances combine horizontal and vertical parts.",
["inputs"],"for every pair of valid global positions (all quadrants, equator and date-line crossings, antipodal and identical points), distances and bearings",
"Existing tests check a few fixed pairs; a wrong sign or swapped coordinate in one quadrant, or wrapping across the date line, is not sampled.",
["geo/geo.cpp","geo/geo.h"],[("haversine distance, bearing, waypoint_from_heading_and_distance, create_waypoint_from_line_and_dist, add_vector_to_global_position","geo/geo.cpp")],["values returned by the functions"])

p("G03","Cross-track error to a line or arc has the right magnitude, side and end state",
"For a position abeam of a line segment the reported cross-track distance equals the spherical perpendicular distance positive to the right of the direction of travel and negative to the left, with a bearing towards the line, and a position beyond the end is reported as such. For a position inside an arc sector the reported distance is the radial offset from the arc with the side (positive to the right of the direction of travel) and a bearing towards the arc; outside the sector it is the distance and bearing to the nearer end point. Degenerate lines and arcs are refused.",
["inputs"],"for every line and arc (start, end or sweep of either direction, radius) and every vehicle position around it",
"No test exercises these functions beyond one or two geometries; sides, ends and sector wrap-around need exploration of the input space.",
["geo/geo.cpp","geo/geo.h"],[("get_distance_to_line, get_distance_to_arc","geo/geo.cpp")],["crosstrack_error_s values and return code"])

p("G04","World magnetic lookup is a continuous, unit-consistent bilinear table lookup",
"Magnetic declination, inclination and strength at any latitude/longitude equal the bilinear interpolation of the published (WMM 2020) world-magnetic-model table between the four surrounding ten-degree grid points, vary continuously with position, repeat with a period of 360 degrees of longitude, and stay at the nearest valid value beyond the table's latitude limits. The radian, degree, gauss and tesla variants agree with each other.",
["inputs"],"for every latitude and longitude including grid lines, poles, the date line and longitudes outside [-180, 180]",
"The existing tests sample a 5-degree set of points with generous tolerances; interpolation between them, grid edges, wrap-around and clamping are not settled by samples.",
["geo_lookup/geo_mag_declination.cpp","geo_lookup/geo_magnetic_tables.hpp"],[("get_table_data bilinear interpolation and index clamping","geo_lookup/geo_mag_declination.cpp")],["values returned by the lookup functions"])

p("S01","Range finder samples are accepted exactly when fresh, in range, level and live",
"A range sample is declared healthy only if samples keep arriving, the newest is recent, its value is inside the configured limits, the sensor axis is within the configured tilt of vertical, no bad-quality sample was received in the preceding hysteresis period, and the sensor is not delivering a frozen value after a long absence; otherwise it is not used, and a good sample after each of these conditions clears is accepted again. The distance to bottom is the range multiplied by the cosine of the sensor's tilt for any mounting pitch.",
["histories","inputs","configurations"],"for every history of range samples (dropouts, out-of-range, frozen, bad quality, varying rate), vehicle attitude, mounting angle and limit configuration",
"Existing tests drive each condition once with fixed timing; combinations and recovery orders are histories.",
["EKF/sensor_range_finder.cpp","EKF/sensor_range_finder.hpp"],[("updateValidity, updateStuckCheck, isTiltOk, updateSensorToEarthRotation","EKF/sensor_range_finder.cpp")],["isHealthy, isDataHealthy, getDistBottom, isRegularlySendingData"])

p("W01","Airspeed wind estimator is a correct Kalman filter over wind and scale factor",
"Each true-airspeed or sideslip measurement changes the wind and airspeed-scale estimate and its uncertainty by the Kalman correction for the physical measurement equation and the configured noise, measured at most at the documented rate; between measurements the estimate is constant and its uncertainty grows by the configured process noise. While the estimate is reported valid it is finite with non-negative uncertainty, and an ill-conditioned state leads to re-initialisation rather than a correction with a negative or non-finite uncertainty.",
["inputs","histories","configurations"],"for every sequence of velocity, attitude and airspeed inputs, rates, noise settings, including degenerate (zero airspeed, vertical, hover) inputs",
"There is no test of the wind estimator at all.",
["airdata/WindEstimator.cpp","airdata/WindEstimator.hpp"],[("update, fuse_airspeed, fuse_beta, run_sanity_checks, initialise","airdata/WindEstimator.cpp")],["get_wind, get_tas_scale, get_wind_var, innovation getters"])

p("W02","Airspeed wind estimator rejects outliers and recovers from persistent rejection",
"A measurement whose innovation exceeds the configured number of standard deviations is reported as rejected and leaves the estimate unchanged; one within it is used. If measurements keep being rejected for the time-out period the estimator re-initialises its wind estimate from current data and reports the reset, and in steady flight with consistent measurements the estimate converges to the true wind from any start.",
["histories","fault_sequences","configurations"],"for every gate, measurement rate and sequence of outliers, sensor freezes and wind shifts",
"There is no test of the wind estimator at all.",
["airdata/WindEstimator.cpp","airdata/WindEstimator.hpp"],[("check_if_meas_is_rejected and reset on time-out","airdata/WindEstimator.cpp")],["get_wind, get_tas_innov, get_wind_estimator_reset"])

p("Y01","Emergency yaw estimator gives a normalised, consistent and convergent yaw",
"The model weights of the emergency yaw estimator are non-negative and sum to one, the composite yaw is the weighted mean direction of the model yaws and its variance is the weighted variance plus spread; all stay finite for any inertial data with rotations below one radian per sample. With manoeuvring flight and velocity measurements of the stated accuracy the composite yaw converges to the true yaw within 15 s of manoeuvring from any initial error and tracks it, and rotating the whole scenario about the vertical rotates the result by the same angle.",
["histories","inputs"],"for every inertial and velocity history (start/stop of the estimator, missing velocity, outliers), every heading and airspeed",
"The tests run one scripted flight in a fixed direction; correctness for arbitrary headings and histories is not sampled.",
["EKF/EKFGSF_yaw.cpp","EKF/EKFGSF_yaw.h"],[("ahrsPredict, predictEKF, updateEKF, gaussianDensity, weight normalisation","EKF/EKFGSF_yaw.cpp")],["getYawData, getLogData"])

p("E01","The estimator is memory-safe and free of undefined behaviour",
"No sequence of calls to the public interface with arbitrary sensor values, time stamps, parameter settings within their documented ranges and call orders causes an out-of-bounds or uninitialised access, leak, arithmetic trap, undefined conversion or overflow, or an unbounded loop.",
["inputs","histories","configurations","fault_sequences"],"for every sequence of public calls with any finite or non-finite sensor values, any monotone or non-monotone time stamps, any delay and interval configuration",
"The tests only feed well-formed data at regular intervals and are not run with memory or undefined-behaviour instrumentation.",
["EKF","geo","geo_lookup","airdata"],[("buffer index arithmetic, fixed-size matrices, time arithmetic","EKF/RingBuffer.h, EKF/estimator_interface.cpp")],["sanitizer reports, process exit"])

p("E02","Estimated states stay finite, normalised and inside their limits",
"Whatever data with values the sensors can physically report is supplied, every state estimate and every published output stays finite, the attitude quaternion stays of unit length, and each bias, velocity, position, magnetic-field and wind state is brought back inside its documented limit at every prediction, the accelerometer and gyro bias estimates inside their configured limits (a correction may leave a limit only until the next prediction).",
["histories","inputs","fault_sequences"],"for every history of sensor data including extreme physical values, spikes, dropouts and manoeuvres, at every update",
"Tests inspect a few states at the end of nominal scenarios; an invariant over every step of every history can only be monitored.",
["EKF/ekf.cpp","EKF/ekf_helper.cpp","EKF/covariance.cpp"],[("constrainStates, quaternion renormalisation, zeroing of bad covariance","EKF/ekf_helper.cpp")],["getStateAtFusionHorizonAsVector, output getters after each update"])

p("E03","The uncertainty matrix stays symmetric, bounded and non-negative",
"At every update the reported state uncertainty matrix is finite and symmetric, its variances are non-negative and within the documented upper limits, no correlation exceeds one in magnitude beyond rounding once the attitude is known (between a reset and the next prediction the re-initialised group is exempt), and the rows and columns of magnetic-field and wind states are exactly zero whenever those states are not being estimated.",
["histories","inputs","configurations","fault_sequences"],"for every history of sensor data, aiding mode switches, resets and configuration, at every update",
"Tests read a few variances at a few instants; this is an invariant over all steps of all histories.",
["EKF/covariance.cpp","EKF/ekf_helper.cpp"],[("fixCovarianceErrors, makeRowColSymmetric, uncorrelateCovariance*","EKF/covariance.cpp")],["covariances, covariances_diagonal after each update"])

p("E04","Between measurements the state follows the inertial navigation equations",
"In an update without measurement the attitude advances by the bias-corrected and earth-rate-corrected rotation, velocity by the bias-corrected specific force rotated to earth frame plus gravity, position by the trapezoidal integral of velocity, and every other state is unchanged.",
["inputs","histories"],"for every state, attitude, rate, acceleration, latitude and sample interval",
"Tests verify only that the vehicle stays put in static or simple scenarios with tolerances that hide sign or coupling errors.",
["EKF/ekf.cpp"],[("predictState, calcEarthRateNED","EKF/ekf.cpp")],["getStateAtFusionHorizonAsVector, get_imu_sample_delayed, getImuVibrationMetrics"])

p("E05","Uncertainty propagates by the linearised dynamics plus configured noise",
"In an update without measurement the uncertainty matrix becomes the previous one propagated through the Jacobian of the navigation equations plus the noise implied by the configured gyro, accelerometer, bias, magnetic-field and wind noise parameters; variances of states whose estimation is inhibited are held and their correlations removed.",
["inputs","histories","configurations"],"for every state, uncertainty, inertial input, noise configuration and combination of active state groups",
"The propagation is hundreds of auto-generated terms; the tests compare one generated form with another but never the running filter against the model.",
["EKF/covariance.cpp"],[("predictCovariance","EKF/covariance.cpp")],["covariances before and after updates without fused measurements"])

p("E06","GPS, baro, vision and auxiliary velocity corrections are Kalman-correct",
"When a velocity, position or height measurement is fused, its reported innovation is the difference between prediction and measurement corrected for the sensor's mounting offset, its reported innovation variance is predicted plus configured measurement variance, and the state and uncertainty change by exactly the corresponding Kalman correction.",
["inputs","histories","configurations"],"for every state, uncertainty, sensor offset, rotation rate, noise setting and measurement value accepted by the filter",
"Tests check end-point convergence only; a wrong sign, scale, axis or offset in one branch is masked by convergence.",
["EKF/vel_pos_fusion.cpp","EKF/control.cpp"],[("fuseHorizontalVelocity, fuseVerticalVelocity, fuseHorizontalPosition, fuseVerticalPosition, fuseVelPosHeight","EKF/vel_pos_fusion.cpp")],["innovation getters, state and covariance before and after an update"])

p("E07","Magnetometer, heading and declination corrections are Kalman-correct",
"When a three-axis magnetic, magnetic heading, vision yaw, GPS yaw or declination measurement is fused, its reported innovation and variance are those of the physical measurement equation at the predicted state, angles being compared modulo a full turn, and the state and uncertainty change by the corresponding Kalman correction of the states the measurement may correct.",
["inputs","histories","configurations"],"for every attitude (including near vertical), field, bias, uncertainty, and noise setting accepted by the filter",
"Tests check end-point convergence at level attitude; the alternative attitude parameterisations and wrap-around are barely reached.",
["EKF/mag_fusion.cpp","EKF/gps_yaw_fusion.cpp"],[("fuseMag, fuseYaw321, fuseYaw312, fuseDeclination, fuseGpsYaw","EKF/mag_fusion.cpp")],["innovation getters, state and covariance before and after an update"])

p("E08","Airspeed, sideslip, drag and optical-flow corrections are Kalman-correct",
"When a true airspeed, zero-sideslip, drag acceleration or optical flow measurement is fused, its reported innovation and variance are those of the physical measurement equation at the predicted state, and the state and uncertainty change by the corresponding Kalman correction of the states the measurement may correct.",
["inputs","histories","configurations"],"for every state, wind, attitude, height, uncertainty and noise setting accepted by the filter",
"Tests check end-point convergence in a few scenarios; sign and coupling errors in individual Jacobian terms do not show there.",
["EKF/airspeed_fusion.cpp","EKF/sideslip_fusion.cpp","EKF/drag_fusion.cpp","EKF/optflow_fusion.cpp"],[("fuseAirspeed, fuseSideslip, fuseDrag, fuseOptFlow","EKF/*_fusion.cpp")],["innovation getters, state and covariance before and after an update"])

p("E09","A measurement outside its innovation gate is rejected and has no effect",
"For every sensor the reported test ratio is the squared innovation over gate squared times innovation variance; a measurement with ratio above one is flagged as rejected and leaves state and uncertainty exactly as prediction left them, and one with ratio at most one is not flagged. A single outlier of any size therefore never moves the estimate, and the documented exceptions (height during detected bad vertical acceleration, yaw on ground) limit the innovation to the gate instead.",
["inputs","histories","fault_sequences","configurations"],"for every sensor, gate size, noise setting, outlier size and sign, vector component and flight phase",
"Tests do not inject outliers per sensor and component; gates are only exercised implicitly.",
["EKF/vel_pos_fusion.cpp","EKF/mag_fusion.cpp","EKF/airspeed_fusion.cpp","EKF/sideslip_fusion.cpp","EKF/optflow_fusion.cpp","EKF/gps_yaw_fusion.cpp","EKF/drag_fusion.cpp"],[("test ratio computation and innov_check_fail flags","EKF/*_fusion.cpp")],["innovation test ratio getters, innov_check_fail_status, state before and after"])

p("E10","Delayed measurements are fused once, at the time they were taken",
"The fusion horizon lags the newest inertial data by the largest configured sensor delay, inertial samples reach it in order with none lost or repeated, and each accepted measurement is fused exactly once, in the first step in which the horizon has passed its time of validity (time stamp minus configured delay), regardless of uptime; when several of one sensor pass in the same step the newest is used, and one that arrives more than 0.1 s behind the horizon is dropped. Measurements arriving faster than can be buffered are thinned (averaged for magnetometer and barometer) so that none already accepted is lost. Time stamps of each sensor are taken to be in order.",
["histories","schedules","configurations"],"for every delay configuration, sensor rate, arrival order and jitter, and any absolute start time",
"Tests use the default delays and perfectly regular rates starting near time zero.",
["EKF/estimator_interface.cpp","EKF/estimator_interface.h","EKF/RingBuffer.h","EKF/control.cpp"],[("set*Data time stamping and rate limiting, initialise_interface, pop_first_older_than","EKF/estimator_interface.cpp")],["get_imu_sample_delayed, get_baro_sample_delayed, innovation changes"])

p("E11","Outputs at current time track the delayed solution without jumps",
"The current-time attitude, velocity and position equal the delayed estimate propagated with the buffered inertial data, up to tracking errors that decay at the configured time constants; in steady conditions the tracking error vanishes. Published velocity and position account for the inertial sensor's mounting offset, a reset of the delayed estimate is passed to the outputs immediately and completely, and vertical velocity output is consistent with the derivative of vertical position.",
["histories","inputs","configurations"],"for every manoeuvre, delay, time constant, sensor offset and reset history",
"Tests compare outputs for a static vehicle; tracking through manoeuvres and resets is quantified over histories.",
["EKF/ekf.cpp","EKF/ekf_helper.cpp","EKF/estimator_interface.h"],[("calculateOutputStates, applyCorrectionToOutputBuffer, alignOutputFilter, resets of output buffers","EKF/ekf.cpp")],["getPosition, getVelocity, getQuaternion, getOutputTrackingError, getVerticalPositionDerivative"])

p("E12","Every jump of the estimate is announced with its exact size",
"Whenever horizontal or vertical velocity or position or the attitude is re-initialised rather than corrected, the matching reset counter advances by the number of resets and, when it advanced by one, the change reported with it equals the jump in the published output (after several resets within one update the change reported is that of the last); and when no counter changes the published output changes only continuously.",
["histories","fault_sequences"],"for every history that provokes resets (aiding start, stop, time-outs, dead-reckoning recovery, yaw alignment, height source switches), every sensor set",
"Tests check a few scripted resets; unannounced jumps in other transitions are what downstream controllers cannot survive.",
["EKF/ekf_helper.cpp","EKF/control.cpp","EKF/ekf.h"],[("resetHorizontalPositionTo, resetHorizontalVelocityTo, resetVerticalPositionTo, resetVerticalVelocityTo, resetQuatStateYaw","EKF/ekf_helper.cpp")],["get_posD_reset, get_velD_reset, get_posNE_reset, get_velNE_reset, get_quat_reset versus outputs"])

p("E13","An aiding source is used only when enabled, aligned, healthy and recent",
"GPS, vision position, vision velocity, vision yaw, optical flow, auxiliary velocity, airspeed, sideslip and drag aiding are reported active only if enabled in the configuration, after tilt alignment (and yaw alignment where required), and after data of acceptable quality has been received; an active source whose data stops is deactivated within its documented time-out and can become active again when data returns. Magnetic, vision and GPS yaw are mutually exclusive as documented.",
["histories","fault_sequences","configurations"],"for every fusion configuration, every order of sensors starting, stopping, failing and recovering, on ground and in flight",
"Tests switch one source at a time in fixed order; combinations and orders are not sampled.",
["EKF/control.cpp","EKF/ekf_helper.cpp"],[("controlFusionModes and its sub-functions, start*/stop* functions","EKF/control.cpp")],["control_status flags after each update"])

p("E14","GPS is used for aiding only after its quality checks pass continuously",
"GPS aiding and the navigation origin are established only after every enabled GPS quality check (fix type, satellite count, dilution, horizontal, vertical and speed accuracy, horizontal and vertical drift, speed) has passed continuously for the required time, a failure of any enabled check restarting the wait; disabled checks have no influence, and the reported check status names exactly the failing checks.",
["histories","configurations","fault_sequences"],"for every combination of enabled checks, thresholds, and history of GPS quality values around the thresholds",
"Tests exercise nominal GPS and one or two bad values; thresholds, masks and continuity are quantified over histories and configurations.",
["EKF/gps_checks.cpp","EKF/control.cpp"],[("gps_is_good, collect_gps, gps_checks_passed timing","EKF/gps_checks.cpp")],["get_gps_check_status, control_status gps flag, getEkfGlobalOrigin, get_gps_drift_metrics"])

p("E15","Exactly one height source is active, and a failed one is replaced",
"After height initialisation at most one of barometer, GPS, range finder and vision is the active height source; the configured primary is used while healthy, a failed or stale source is replaced by a healthy alternative within the documented time-out, range aiding is used only inside its configured speed and height limits with hysteresis, and switching does not shift the height estimate by more than the reported reset.",
["histories","fault_sequences","configurations"],"for every primary source, availability and fault history of each source, on ground and in flight",
"Tests switch between sources in a few scripted orders.",
["EKF/control.cpp","EKF/ekf_helper.cpp"],[("controlHeightFusion, controlHeightSensorTimeouts, rangeAidConditionsMet, set*Height","EKF/control.cpp")],["control_status height flags, height innovations, reset deltas"])

p("E16","Yaw is aligned and magnetic fusion modes follow flight phase and configuration",
"Heading is never used for earth-frame aiding before an absolute yaw alignment from an enabled yaw source; automatic magnetic mode uses heading-only fusion on the ground and three-axis fusion only in flight after an in-flight field alignment, each configured mode restricts to its own type, and magnetic fusion is inhibited by configuration or detected faults. Field strength far from the expected earth field is reported as disturbance, and initial magnetic heading equals the true heading implied by field, tilt and declination.",
["histories","configurations","fault_sequences"],"for every magnetic mode configuration, heading, declination source, field disturbance and flight-phase history",
"Tests use level, undisturbed starts with one heading and default mode for nearly all scenarios.",
["EKF/mag_control.cpp","EKF/mag_fusion.cpp","EKF/ekf_helper.cpp"],[("controlMagFusion, selectMagAuto, resetMagHeading, checkMagInhibition, checkMagFieldStrength","EKF/mag_control.cpp")],["control_status flags, attitude at alignment, quat reset"])

p("E17","Reported validity, dead reckoning and accuracy match the aiding history",
"Position and velocity are reported valid exactly while horizontal aiding constrains them within the allowed dead-reckoning time, inertial dead reckoning is reported when no velocity, position or wind-relative aiding has been fused recently, the solution status bits are determined by those conditions alone and never contain unrelated bits, and reported accuracies are at least the filter's own standard deviations.",
["histories","fault_sequences","configurations"],"for every history of aiding loss and recovery, status query order and configuration",
"Tests query validity in a handful of scripted situations; the equivalence holds over histories.",
["EKF/ekf_helper.cpp","EKF/estimator_interface.h"],[("update_deadreckoning_status, get_ekf_soln_status, get_ekf_gpos_accuracy, get_innovation_test_status","EKF/ekf_helper.cpp")],["local_position_is_valid, global_position_is_valid, get_ekf_soln_status, accuracy getters"])

p("E18","The navigation origin ties local and global position together consistently",
"With GPS aiding the reported global origin together with the estimated local position reproduces the vehicle's global position, wherever the origin came from. An origin commanded by the user is reported back exactly (latitude, longitude, altitude) and, when the filter is navigating, shifts the local position and altitude - filter states and outputs alike, announced as a reset - so that the global position and altitude of the vehicle are unchanged, and nothing moves afterwards because samples received before the command or height references are still relative to the old origin; it changes no other state. While not navigating it changes no state at all. The horizontal origin is never moved by GPS data once it is set. (Before the GPS quality checks have passed, a commanded origin fixes only the horizontal reference: the altitude reference is taken from GPS. Absolute position from external vision is not covered.)",
["inputs","histories"],"for every origin location, vehicle displacement and order of GPS acquisition, origin commands and resets",
"Tests set one origin once.",
["EKF/ekf_helper.cpp","EKF/gps_checks.cpp"],[("setEkfGlobalOrigin, getEkfGlobalOrigin, collect_gps","EKF/ekf_helper.cpp")],["getEkfGlobalOrigin, getPosition, get_posNE_reset, get_posD_reset"])

p("E19","Terrain height and control limits are consistent with the range data",
"With valid range data the terrain estimate converges so that terrain minus vehicle height equals the measured distance to ground (tilt, lever arm and sensor pitch considered), each range or flow sample changes it by the one-state Kalman step for the configured noise, samples that are too old, out of limits, of bad quality, stuck or taken beyond the tilt limit are not used, it is reset to the range finder after 10 s of rejected data, its validity expires when no range or flow data has supported it for 5 s, its variance is non-negative and bounded, and height above ground is never below the configured ground clearance (but for the step in which it is first guessed from optical flow). On the ground it is the clearance below the vehicle. Advised speed and height limits follow the configured sensor limits exactly when optical flow or range is the limiting source.",
["histories","inputs","configurations"],"for every terrain profile, range history, sensor limit configuration and aiding mode",
"Tests check one terrain step with fixed configuration.",
["EKF/terrain_estimator.cpp","EKF/ekf_helper.cpp"],[("runTerrainEstimator, fuseHagl, fuseFlowForTerrain, get_ekf_ctrl_limits","EKF/terrain_estimator.cpp")],["isTerrainEstimateValid, getTerrainVertPos, get_terrain_var, get_ekf_ctrl_limits"])

p("E20","With sensors meeting their stated noise the estimate tracks the truth",
"In any flight with sensor errors within the configured noise levels and initial alignment at rest, attitude, velocity and position errors and the biases converge and stay within bounds consistent with the reported uncertainty, for any location, heading, wind and sensor mounting offset, and after a temporary loss of an aiding source the error recovers when it returns.",
["histories","inputs","fault_sequences"],"for every flight trajectory, heading, location, bias and noise realisation, sensor set and temporary aiding loss",
"Tests simulate simple straight-line motion with noise-free sensors.",
["EKF"],[("whole filter","EKF/ekf.cpp")],["state estimate versus simulated truth, covariances"])

p("E21","The estimator respects the symmetries of the navigation problem",
"Shifting all time stamps, rotating the world about the vertical (with field and all horizontal measurements), mirroring left and right, moving the frame of the vision system, or moving the datum of the heights leads to the correspondingly transformed estimates, uncertainties and mode decisions.",
["inputs","histories"],"for every flight, every shift, rotation angle and translation",
"Tests run scenarios in one direction, place and time.",
["EKF"],[("whole filter","EKF/ekf.cpp")],["paired executions' outputs"])

p("E22","Estimates are deterministic and independent of other instances",
"Feeding the same configuration and the same sequence of calls to two estimator instances gives identical outputs at every step, no matter what other instances exist, run or were destroyed in the process, from which memory the instance was allocated, or whether read-only getters are called in between.",
["histories","schedules","inputs"],"for every call sequence, interleaving with other instances and threads, and prior memory contents",
"Tests run each scenario once with one instance.",
["EKF"],[("no static or shared mutable state; complete initialisation","EKF/ekf.h")],["bitwise comparison of outputs of paired instances; race detector"])

p("E23","Bias resets and saved magnetic calibration behave as documented",
"Requesting an inertial, gyro or accelerometer bias reset zeroes exactly those bias estimates, sets their uncertainty to the configured switch-on value without correlations and leaves all other states unchanged; resetting magnetic bias zeroes it and re-enables learning. Reported biases are the internal delta quantities divided by the filter interval, and earth-field and body-field estimates learned in flight are kept and restored when magnetic fusion is restarted.",
["histories","inputs"],"for every filter state, configuration and sequence and timing of reset requests",
"Tests do not exercise the reset requests.",
["EKF/ekf_helper.cpp","EKF/covariance.cpp","EKF/mag_control.cpp"],[("resetImuBias, resetGyroBias, resetAccelBias, resetMagBias, saveMagCovData, loadMagCovData","EKF/ekf_helper.cpp")],["bias getters, covariances before and after the request"])

p("E24","Bad vertical acceleration is detected and contained",
"When height and vertical velocity observations both disagree with inertial prediction in the direction expected from vibration-induced acceleration error, or sustained clipping is present, bad vertical acceleration is reported within bounded time and held for its time-out, the corresponding noise is increased so that the filter recovers, and bias learning is inhibited as documented; in flights without such faults it is not reported.",
["histories","fault_sequences"],"for every flight, clipping pattern and vertical acceleration fault",
"Tests include no clipping or vibration fault.",
["EKF/control.cpp","EKF/covariance.cpp"],[("checkVerticalAccelerationHealth","EKF/control.cpp")],["fault_status bad_acc_vertical, vertical state errors"])

p("E25","Wind is estimated exactly when wind-relative data is being fused",
"Wind states are active only while airspeed, sideslip or drag measurements enabled by configuration are being used in flight; when they become active they are initialised from airspeed and attitude if current airspeed data is available and from zero otherwise, with matching uncertainty, while inactive they do not change and carry no uncertainty, and in steady flight they converge to the true wind. Airspeed is fused only above about 1 m/s and sideslip only above 7 m/s of relative wind.",
["histories","configurations","inputs"],"for every airspeed history, flight phase, configuration and wind",
"Tests have one fixed-wing scenario.",
["EKF/control.cpp","EKF/airspeed_fusion.cpp","EKF/sideslip_fusion.cpp","EKF/drag_fusion.cpp"],[("controlAirDataFusion, controlBetaFusion, controlDragFusion, resetWindStates","EKF/control.cpp")],["control_status wind flags, getWindVelocity, getWindVelocityVariance"])

p("E26","Initialisation aligns tilt with gravity and configured uncertainty",
"The filter starts only with inertial, magnetic (if required) and height data and a steady vehicle; the initial roll and pitch equal the tilt implied by the measured gravity direction for any attitude, the initial uncertainties equal the configured values, and tilt alignment is reported only once the attitude uncertainty has fallen below its threshold.",
["inputs","histories","configurations"],"for every initial attitude, initial-noise configuration and data arrival order",
"Tests start level (one test varies pitch), once per instance.",
["EKF/ekf.cpp","EKF/control.cpp","EKF/ekf_helper.cpp"],[("init, reset, initialiseFilter, initialiseTilt, initialiseCovariance","EKF/ekf.cpp")],["attitude and covariance at first initialised update, control_status tilt_align"])

p("E27","Motion-at-rest and vibration monitoring follow the inertial data",
"The reported vibration levels are the documented exponentially smoothed magnitudes of coning, gyro and accelerometer differences between successive samples, and the vehicle is reported at rest exactly when, on ground, neither exceeded the configured threshold nor the rate exceeded its limit during the last second; in the air it is never reported at rest.",
["inputs","histories","configurations"],"for every inertial history and threshold",
"Tests do not check vibration metrics.",
["EKF/estimator_interface.cpp"],[("computeVibrationMetric, checkIfVehicleAtRest","EKF/estimator_interface.cpp")],["getImuVibrationMetrics, control_status vehicle_at_rest"])
p("E28","A reset adopts the measurement it resets to, with its uncertainty",
"When the estimator resets a quantity it takes the value of the source it announces, in the navigation frame: horizontal position from GPS or vision or the last known position, velocity from GPS, vision or optical flow and height, or zero, height from the active height sensor's latest sample, yaw from the compass and declination, vision, the GPS course (only when the course is reliable and disagrees) or the converged emergency estimate. The variance becomes that of the source and correlations of the reset position or velocity with other states are removed. Repeated bad yaw in flight and an emergency yaw reset stop use of the compass and also reset velocity and position.",
["inputs","histories","configurations"],"for every history that leads to a reset and every configuration",
"Tests trigger a few resets and look at one state; the sources, frames, variances and side effects of all resets are not covered.",
["EKF/ekf_helper.cpp","EKF/control.cpp"],[("resetVelocity, resetHorizontalPosition, resetHeight, realignYawGPS, resetMagHeading, resetYawToEKFGSF, resetQuatStateYaw","EKF/ekf_helper.cpp"),("runInAirYawReset, runVelPosReset","EKF/mag_control.cpp")],["getStateAtFusionHorizonAsVector, covariances, information_event_status, warning_event_status"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
