From 92eaca8feae36582ed280919af1746232623e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 01/44] fix: RingBuffer: do not return a sample from an empty
 buffer

An empty slot carries time stamp zero, so a query with a time stamp below
100 ms on an empty (or emptied) buffer returned an all-zero or an already
consumed sample.
---
 EKF/RingBuffer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EKF/RingBuffer.h b/EKF/RingBuffer.h
index bc36fcb..c2d80d6 100644
--- a/EKF/RingBuffer.h
+++ b/EKF/RingBuffer.h
@@ -119,6 +119,11 @@ public:
 
 	bool pop_first_older_than(const uint64_t &timestamp, data_type *sample)
 	{
+		// there is nothing to return if the buffer is empty
+		if (_first_write) {
+			return false;
+		}
+
 		// start looking from newest observation data
 		for (uint8_t i = 0; i < _size; i++) {
 			int index = (_head - i);
-- 
2.43.0


From 45f05512b7e208febdd11bd55726ba6e97137cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 02/44] fix: geo: wrap the longitude difference in
 get_vector_to_next_waypoint_fast

Across the date line the east component was wrong by a whole turn around the
earth.
---
 geo/geo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index ec9e671..51070ec 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -237,7 +237,7 @@ get_vector_to_next_waypoint_fast(double lat_now, double lon_now, double lat_next
 	double lon_next_rad = math::radians(lon_next);
 
 	double d_lat = lat_next_rad - lat_now_rad;
-	double d_lon = lon_next_rad - lon_now_rad;
+	double d_lon = matrix::wrap_pi(lon_next_rad - lon_now_rad);
 
 	/* conscious mix of double and float trig function to maximize speed and efficiency */
 	*v_n = static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * d_lat);
-- 
2.43.0


From d6fd1e6fe7a88fbc16652bb4e9e7f8f6d3ec7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 03/44] fix: geo: no NaN distance between antipodal points

Rounding can make the haversine term slightly larger than one.
---
 geo/geo.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index 51070ec..2209377 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -166,7 +166,8 @@ float get_distance_to_next_waypoint(double lat_now, double lon_now, double lat_n
 
 	const double a = sin(d_lat / 2.0) * sin(d_lat / 2.0) + sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(lat_now_rad) * cos(lat_next_rad);
 
-	const double c = atan2(sqrt(a), sqrt(1.0 - a));
+	// rounding can bring a slightly above one for antipodal points
+	const double c = atan2(sqrt(a), sqrt(math::max(1.0 - a, 0.0)));
 
 	return static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * 2.0 * c);
 }
@@ -416,7 +417,7 @@ float get_distance_to_point_global_wgs84(double lat_now, double lon_now, float a
 	double d_lon = y_rad - current_y_rad;
 
 	double a = sin(d_lat / 2.0) * sin(d_lat / 2.0) + sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(current_x_rad) * cos(x_rad);
-	double c = 2 * atan2(sqrt(a), sqrt(1 - a));
+	double c = 2 * atan2(sqrt(a), sqrt(math::max(1.0 - a, 0.0)));
 
 	const float dxy = static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * c);
 	const float dz = static_cast<float>(alt_now - alt_next);
-- 
2.43.0


From 587e387adb45a0da1a61e5c3e21bf3fffd14d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 04/44] fix: geo: get_distance_to_arc sector test, sign and end
 points

The bearing was taken from the vehicle to the centre instead of from the
centre to the vehicle, the sector of a negative sweep was placed on the wrong
side of its start, bearings in [-pi, pi] were compared with unwrapped ones,
the end points were computed relative to the vehicle and with the cosine of
an angle in degrees, and the documented sign of the distance was missing.
---
 geo/geo.cpp | 66 ++++++++++++-----------------------------------------
 1 file changed, 14 insertions(+), 52 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index 2209377..3fd477c 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -238,7 +238,7 @@ get_vector_to_next_waypoint_fast(double lat_now, double lon_now, double lat_next
 	double lon_next_rad = math::radians(lon_next);
 
 	double d_lat = lat_next_rad - lat_now_rad;
-	double d_lon = matrix::wrap_pi(lon_next_rad - lon_now_rad);
+	double d_lon = wrap_pi(lon_next_rad - lon_now_rad);
 
 	/* conscious mix of double and float trig function to maximize speed and efficiency */
 	*v_n = static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * d_lat);
@@ -308,12 +308,6 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 	// position is right of the arc and negative if left of the arc as seen from the closest point on the arc and
 	// headed towards the end point.
 
-	// Determine if the current position is inside or outside the sector between the line from the center
-	// to the arc start and the line from the center to the arc end
-	float bearing_sector_start = 0.0f;
-	float bearing_sector_end = 0.0f;
-	float bearing_now = get_bearing_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
-
 	int return_value = -1;		// Set error flag, cleared when valid result calculated.
 	crosstrack_error->past_end = false;
 	crosstrack_error->distance = 0.0f;
@@ -324,66 +318,34 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 		return return_value;
 	}
 
-	if (arc_sweep >= 0.0f) {
-		bearing_sector_start = arc_start_bearing;
-		bearing_sector_end = arc_start_bearing + arc_sweep;
-
-		if (bearing_sector_end > 2.0f * M_PI_F) { bearing_sector_end -= (2 * M_PI_F); }
-
-	} else {
-		bearing_sector_end = arc_start_bearing;
-		bearing_sector_start = arc_start_bearing - arc_sweep;
-
-		if (bearing_sector_start < 0.0f) { bearing_sector_start += (2 * M_PI_F); }
-	}
-
-	bool in_sector = false;
-
-	// Case where sector does not span zero
-	if (bearing_sector_end >= bearing_sector_start && bearing_now >= bearing_sector_start
-	    && bearing_now <= bearing_sector_end) {
-
-		in_sector = true;
-	}
-
-	// Case where sector does span zero
-	if (bearing_sector_end < bearing_sector_start && (bearing_now > bearing_sector_start
-			|| bearing_now < bearing_sector_end)) {
-
-		in_sector = true;
-	}
+	// Determine if the current position is inside or outside the sector between the line from the center
+	// to the arc start and the line from the center to the arc end
+	const float bearing_now = get_bearing_to_next_waypoint(lat_center, lon_center, lat_now, lon_now);
+	const float bearing_from_start = (arc_sweep >= 0.0f) ? bearing_now - arc_start_bearing : arc_start_bearing - bearing_now;
+	const bool in_sector = wrap_2pi(bearing_from_start) <= fabsf(arc_sweep);
 
 	// If in the sector then calculate distance and bearing to closest point
 	if (in_sector) {
 		crosstrack_error->past_end = false;
 		float dist_to_center = get_distance_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
 
+		// the center of the circle is on the right of a clockwise arc
+		crosstrack_error->distance = (arc_sweep >= 0.0f) ? radius - dist_to_center : dist_to_center - radius;
+
 		if (dist_to_center <= radius) {
-			crosstrack_error->distance = radius - dist_to_center;
-			crosstrack_error->bearing = bearing_now + M_PI_F;
+			crosstrack_error->bearing = bearing_now;
 
 		} else {
-			crosstrack_error->distance = dist_to_center - radius;
-			crosstrack_error->bearing = bearing_now;
+			crosstrack_error->bearing = bearing_now + M_PI_F;
 		}
 
 		// If out of the sector then calculate dist and bearing to start or end point
 
 	} else {
 
-		// Use the approximation  that 111,111 meters in the y direction is 1 degree (of latitude)
-		// and 111,111 * cos(latitude) meters in the x direction is 1 degree (of longitude) to
-		// calculate the position of the start and end points.  We should not be doing this often
-		// as this function generally will not be called repeatedly when we are out of the sector.
-
-		double start_disp_x = (double)radius * sin((double)arc_start_bearing);
-		double start_disp_y = (double)radius * cos((double)arc_start_bearing);
-		double end_disp_x = (double)radius * sin((double)wrap_pi(arc_start_bearing + arc_sweep));
-		double end_disp_y = (double)radius * cos((double)wrap_pi(arc_start_bearing + arc_sweep));
-		double lon_start = lon_now + start_disp_x / 111111.0;
-		double lat_start = lat_now + start_disp_y * cos(lat_now) / 111111.0;
-		double lon_end = lon_now + end_disp_x / 111111.0;
-		double lat_end = lat_now + end_disp_y * cos(lat_now) / 111111.0;
+		double lat_start, lon_start, lat_end, lon_end;
+		waypoint_from_heading_and_distance(lat_center, lon_center, arc_start_bearing, radius, &lat_start, &lon_start);
+		waypoint_from_heading_and_distance(lat_center, lon_center, arc_start_bearing + arc_sweep, radius, &lat_end, &lon_end);
 		float dist_to_start = get_distance_to_next_waypoint(lat_now, lon_now, lat_start, lon_start);
 		float dist_to_end = get_distance_to_next_waypoint(lat_now, lon_now, lat_end, lon_end);
 
-- 
2.43.0


From a5b035ff20c44472c23bcef4e56575adf42ae151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 05/44] fix: wind estimator: Jacobian used to initialise the
 wind covariance

The derivatives of the wind states with respect to the ground velocity were
swapped, so that the initial variances depended on the flight direction.
---
 airdata/WindEstimator.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index f755893..acdf8d6 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -63,16 +63,14 @@ WindEstimator::initialise(const matrix::Vector3f &velI, const matrix::Vector2f &
 	float L1 = v_n * v_n;
 	float L2 = L0 + L1;
 	float L3 = tas_meas / (L2 * sqrtf(L2));
-	float L4 = L3 * v_e * v_n + 1.0f;
-	float L5 = 1.0f / sqrtf(L2);
-	float L6 = -L5 * tas_meas;
+	float L4 = L3 * v_e * v_n;
 
 	matrix::Matrix3f L;
 	L.setZero();
-	L(0, 0) = L4;
-	L(0, 1) = L0 * L3 + L6;
-	L(1, 0) = L1 * L3 + L6;
-	L(1, 1) = L4;
+	L(0, 0) = 1.0f - L0 * L3;
+	L(0, 1) = L4;
+	L(1, 0) = L4;
+	L(1, 1) = 1.0f - L1 * L3;
 	L(2, 2) = 1.0f;
 
 	// get an estimate of the state covariance matrix given the estimated variance of ground velocity
-- 
2.43.0


From 52881e1e5c2d310caddba9de3153c1e84dd78ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 06/44] fix: wind estimator: do not correlate the process noise
 of the wind axes

Adding the process noise to the north-east covariance let the uncertainty grow
along one diagonal direction only and not at all across it.
---
 airdata/WindEstimator.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index acdf8d6..1524ab9 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -118,14 +118,13 @@ WindEstimator::update(uint64_t time_now)
 
 	float SPP0 = dt * dt;
 	float SPP1 = SPP0 * q_w;
-	float SPP2 = SPP1 + _P(0, 1);
 
 	matrix::Matrix3f P_next;
 
 	P_next(0, 0) = SPP1 + _P(0, 0);
-	P_next(0, 1) = SPP2;
+	P_next(0, 1) = _P(0, 1);
 	P_next(0, 2) = _P(0, 2);
-	P_next(1, 0) = SPP2;
+	P_next(1, 0) = _P(0, 1);
 	P_next(1, 1) = SPP1 + _P(1, 1);
 	P_next(1, 2) = _P(1, 2);
 	P_next(2, 0) = _P(0, 2);
-- 
2.43.0


From 7d23ebcf118d609d64a7ccedfa245d3ace47aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 07/44] fix: estimator interface: subtract the sensor delay
 from the time stamp without losing precision

---
 EKF/estimator_interface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index d94cd57..68565ef 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -153,7 +153,7 @@ void EstimatorInterface::setMagData(const magSample &mag_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		mag_sample_new.time_us = 1000 * (_mag_timestamp_sum / _mag_sample_count);
-		mag_sample_new.time_us -= _params.mag_delay_ms * 1000;
+		mag_sample_new.time_us -= static_cast<uint64_t>(_params.mag_delay_ms * 1000);
 		mag_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		mag_sample_new.mag = _mag_data_sum / _mag_sample_count;
@@ -192,7 +192,7 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 
 		gpsSample gps_sample_new;
 
-		gps_sample_new.time_us = gps.time_usec - _params.gps_delay_ms * 1000;
+		gps_sample_new.time_us = gps.time_usec - static_cast<uint64_t>(_params.gps_delay_ms * 1000);
 		gps_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		gps_sample_new.vel = gps.vel_ned;
@@ -264,7 +264,7 @@ void EstimatorInterface::setBaroData(const baroSample &baro_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		baro_sample_new.time_us = 1000 * (_baro_timestamp_sum / _baro_sample_count);
-		baro_sample_new.time_us -= _params.baro_delay_ms * 1000;
+		baro_sample_new.time_us -= static_cast<uint64_t>(_params.baro_delay_ms * 1000);
 		baro_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_baro_buffer.push(baro_sample_new);
@@ -298,7 +298,7 @@ void EstimatorInterface::setAirspeedData(const airspeedSample &airspeed_sample)
 
 		airspeedSample airspeed_sample_new = airspeed_sample;
 
-		airspeed_sample_new.time_us -= _params.airspeed_delay_ms * 1000;
+		airspeed_sample_new.time_us -= static_cast<uint64_t>(_params.airspeed_delay_ms * 1000);
 		airspeed_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_airspeed_buffer.push(airspeed_sample_new);
@@ -327,7 +327,7 @@ void EstimatorInterface::setRangeData(const rangeSample &range_sample)
 		_time_last_range = range_sample.time_us;
 
 		rangeSample range_sample_new = range_sample;
-		range_sample_new.time_us -= _params.range_delay_ms * 1000;
+		range_sample_new.time_us -= static_cast<uint64_t>(_params.range_delay_ms * 1000);
 		range_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_range_buffer.push(range_sample_new);
@@ -357,7 +357,7 @@ void EstimatorInterface::setOpticalFlowData(const flowSample &flow)
 
 		flowSample optflow_sample_new = flow;
 
-		optflow_sample_new.time_us -= _params.flow_delay_ms * 1000;
+		optflow_sample_new.time_us -= static_cast<uint64_t>(_params.flow_delay_ms * 1000);
 		optflow_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_flow_buffer.push(optflow_sample_new);
@@ -388,7 +388,7 @@ void EstimatorInterface::setExtVisionData(const extVisionSample &evdata)
 
 		extVisionSample ev_sample_new = evdata;
 		// calculate the system time-stamp for the mid point of the integration period
-		ev_sample_new.time_us -= _params.ev_delay_ms * 1000;
+		ev_sample_new.time_us -= static_cast<uint64_t>(_params.ev_delay_ms * 1000);
 		ev_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_ext_vision_buffer.push(ev_sample_new);
@@ -418,7 +418,7 @@ void EstimatorInterface::setAuxVelData(const auxVelSample &auxvel_sample)
 
 		auxVelSample auxvel_sample_new = auxvel_sample;
 
-		auxvel_sample_new.time_us -= _params.auxvel_delay_ms * 1000;
+		auxvel_sample_new.time_us -= static_cast<uint64_t>(_params.auxvel_delay_ms * 1000);
 		auxvel_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_auxvel_buffer.push(auxvel_sample_new);
-- 
2.43.0


From 0bdef263f3f86a5dae2734b8df24cf34c28baec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 08/44] fix: estimator interface: no division by zero with an
 observation buffer of one sample

---
 EKF/estimator_interface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index 68565ef..0129f1d 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -516,6 +516,9 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 	// limit to be no longer than the IMU buffer (we can't process data faster than the EKF prediction rate)
 	_obs_buffer_length = math::min(_obs_buffer_length, _imu_buffer_length);
 
+	// two entries are needed to define the minimum interval between observations
+	_obs_buffer_length = math::max(_obs_buffer_length, (uint8_t)2);
+
 	if (!_imu_buffer.allocate(_imu_buffer_length) || !_output_buffer.allocate(_imu_buffer_length) || !_output_vert_buffer.allocate(_imu_buffer_length)) {
 		printBufferAllocationFailed("IMU and output");
 		return false;
-- 
2.43.0


From 9c5d2bff1a1916950c489d987f91fb6bfa7e75d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 09/44] fix: estimator interface: no overflow of the number of
 averaged mag and baro samples

---
 EKF/estimator_interface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/estimator_interface.h b/EKF/estimator_interface.h
index 843674d..659db10 100644
--- a/EKF/estimator_interface.h
+++ b/EKF/estimator_interface.h
@@ -418,7 +418,7 @@ private:
 	// Used to down sample barometer data
 	uint64_t _baro_timestamp_sum{0};	// summed timestamp to provide the timestamp of the averaged sample
 	float _baro_alt_sum{0.0f};			// summed pressure altitude readings (m)
-	uint8_t _baro_sample_count{0};		// number of barometric altitude measurements summed
+	uint32_t _baro_sample_count{0};		// number of barometric altitude measurements summed
 
 	// Used by the multi-rotor specific drag force fusion
 	uint8_t _drag_sample_count{0};	// number of drag specific force samples assumulated at the filter prediction rate
@@ -427,7 +427,7 @@ private:
 	// Used to downsample magnetometer data
 	uint64_t _mag_timestamp_sum{0};
 	Vector3f _mag_data_sum;
-	uint8_t _mag_sample_count{0};
+	uint32_t _mag_sample_count{0};
 
 	// observation buffer final allocation failed
 	bool _gps_buffer_fail{false};
-- 
2.43.0


From aaa0b76355a434efd63cde35271d3487dbb1d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 10/44] fix: limit vertical innovations while bad vertical
 acceleration is detected

---
 EKF/ekf.h              | 1 -
 EKF/vel_pos_fusion.cpp | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index ade36dd..cdb6ee7 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -524,7 +524,6 @@ private:
 	// imu fault status
 	uint64_t _time_bad_vert_accel{0};	///< last time a bad vertical accel was detected (uSec)
 	uint64_t _time_good_vert_accel{0};	///< last time a good vertical accel was detected (uSec)
-	bool _bad_vert_accel_detected{false};	///< true when bad vertical accelerometer data has been detected
 	uint16_t _clip_counter{0};		///< counter that increments when clipping ad decrements when not
 
 	// variables used to control range aid functionality
diff --git a/EKF/vel_pos_fusion.cpp b/EKF/vel_pos_fusion.cpp
index 9631304..f3b2bfb 100644
--- a/EKF/vel_pos_fusion.cpp
+++ b/EKF/vel_pos_fusion.cpp
@@ -86,7 +86,7 @@ bool Ekf::fuseVerticalVelocity(const Vector3f &innov, const Vector2f &innov_gate
 	// if there is bad vertical acceleration data, then don't reject measurement,
 	// but limit innovation to prevent spikes that could destabilise the filter
 	float innovation;
-	if (_bad_vert_accel_detected && !innov_check_pass) {
+	if (_fault_status.flags.bad_acc_vertical && !innov_check_pass) {
 		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
 		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
 		innov_check_pass = true;
@@ -157,7 +157,7 @@ bool Ekf::fuseVerticalPosition(const Vector3f &innov, const Vector2f &innov_gate
 	// if there is bad vertical acceleration data, then don't reject measurement,
 	// but limit innovation to prevent spikes that could destabilise the filter
 	float innovation;
-	if (_bad_vert_accel_detected && !innov_check_pass) {
+	if (_fault_status.flags.bad_acc_vertical && !innov_check_pass) {
 		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
 		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
 		innov_check_pass = true;
-- 
2.43.0


From 076b64daf91a3a5efcc9d0968a0480da5f562696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 11/44] fix: correct the vision position for the sensor offset
 before it is used for height

---
 EKF/control.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 2a354f5..4f66651 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -158,6 +158,14 @@ void Ekf::controlFusionModes()
 	}
 
 	_ev_data_ready = _ext_vision_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_ev_sample_delayed);
+
+	if (_ev_data_ready) {
+		// correct position and height for offset relative to IMU
+		const Vector3f pos_offset_body = _params.ev_pos_body - _params.imu_pos_body;
+		const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;
+		_ev_sample_delayed.pos -= pos_offset_earth;
+	}
+
 	_tas_data_ready = _airspeed_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_airspeed_sample_delayed);
 
 	// check for height sensor timeouts and reset and change sensor if necessary
@@ -230,11 +238,6 @@ void Ekf::controlExternalVisionFusion()
 			Vector3f ev_pos_obs_var;
 			Vector2f ev_pos_innov_gates;
 
-			// correct position and height for offset relative to IMU
-			const Vector3f pos_offset_body = _params.ev_pos_body - _params.imu_pos_body;
-			const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;
-			_ev_sample_delayed.pos -= pos_offset_earth;
-
 			// Use an incremental position fusion method for EV position data if GPS is also used
 			if (_params.fusion_mode & MASK_USE_GPS) {
 				_fuse_hpos_as_odom = true;
-- 
2.43.0


From 5edf7ae4842ff94b0340f5a43fd8a1ecbe3c2a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 12/44] fix: do not fuse a vision position change before there
 is a previous vision position

---
 EKF/control.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 4f66651..74481ca 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -237,6 +237,7 @@ void Ekf::controlExternalVisionFusion()
 
 			Vector3f ev_pos_obs_var;
 			Vector2f ev_pos_innov_gates;
+			bool ev_pos_innov_available = true;
 
 			// Use an incremental position fusion method for EV position data if GPS is also used
 			if (_params.fusion_mode & MASK_USE_GPS) {
@@ -249,6 +250,7 @@ void Ekf::controlExternalVisionFusion()
 				if (!_hpos_prev_available) {
 					// no previous observation available to calculate position change
 					_hpos_prev_available = true;
+					ev_pos_innov_available = false;
 
 				} else {
 					// calculate the change in position since the last measurement
@@ -301,7 +303,9 @@ void Ekf::controlExternalVisionFusion()
 			// innovation gate size
 			ev_pos_innov_gates(0) = fmaxf(_params.ev_pos_innov_gate, 1.0f);
 
-			fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			if (ev_pos_innov_available) {
+				fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			}
 		}
 
 		// determine if we should use the velocity observations
-- 
2.43.0


From f55747ed8e0be9f9726798a45665814ea8074f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 13/44] fix: do not ignore the vision yaw because the
 magnetometer is inhibited

---
 EKF/control.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 74481ca..f7fcd3c 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -335,6 +335,8 @@ void Ekf::controlExternalVisionFusion()
 
 		// determine if we should use the yaw observation
 		if (_control_status.flags.ev_yaw) {
+			// the magnetometer being inhibited does not concern the vision yaw
+			_is_yaw_fusion_inhibited = false;
 			fuseHeading();
 		}
 
-- 
2.43.0


From 36107838d1513da4ac472b466796a674fb118840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 14/44] fix: hold the current yaw, not one from before the last
 yaw reset, while at rest without yaw measurement

---
 EKF/ekf.h          | 2 +-
 EKF/ekf_helper.cpp | 3 +++
 EKF/mag_fusion.cpp | 8 ++++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index cdb6ee7..7587883 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -385,7 +385,7 @@ private:
 	uint8_t _num_bad_flight_yaw_events{0};	///< number of times a bad heading has been detected in flight and required a yaw reset
 	uint64_t _mag_use_not_inhibit_us{0};	///< last system time in usec before magnetometer use was inhibited
 	bool _mag_inhibit_yaw_reset_req{false};	///< true when magnetometer inhibit has been active for long enough to require a yaw reset when conditions improve.
-	float _last_static_yaw{0.0f};		///< last yaw angle recorded when on ground motion checks were passing (rad)
+	float _last_static_yaw{NAN};		///< last yaw angle recorded when on ground motion checks were passing, NAN if there is none since the last yaw reset (rad)
 	bool _mag_yaw_reset_req{false};		///< true when a reset of the yaw using the magnetometer data has been requested
 	bool _mag_decl_cov_reset{false};	///< true after the fuseDeclination() function has been used to modify the earth field covariances after a magnetic field reset event.
 	bool _synthetic_mag_z_active{false};	///< true if we are generating synthetic magnetometer Z measurements
diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 24e8c87..5ef76f5 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1565,6 +1565,9 @@ void Ekf::resetQuatStateYaw(float yaw, float yaw_variance, bool update_buffer)
 	_state.quat_nominal = quat_after_reset;
 	uncorrelateQuatFromOtherStates();
 
+	// a yaw recorded before the reset must not be held any longer
+	_last_static_yaw = NAN;
+
 	// record the state change
 	_state_reset_status.quat_change = q_error;
 
diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 9d3a55a..7f8161a 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -763,6 +763,10 @@ void Ekf::fuseHeading()
 				// Vehicle is at rest so use the last moving prediction as an observation
 				// to prevent the heading from drifting and to enable yaw gyro bias learning
 				// before takeoff.
+				if (!ISFINITE(_last_static_yaw)) {
+					_last_static_yaw = predicted_hdg;
+				}
+
 				measured_hdg = _last_static_yaw;
 
 			}
@@ -814,6 +818,10 @@ void Ekf::fuseHeading()
 				// Vehicle is at rest so use the last moving prediction as an observation
 				// to prevent the heading from drifting and to enable yaw gyro bias learning
 				// before takeoff.
+				if (!ISFINITE(_last_static_yaw)) {
+					_last_static_yaw = predicted_hdg;
+				}
+
 				measured_hdg = _last_static_yaw;
 
 			}
-- 
2.43.0


From ef6737ec2b96a78ac89e4e2e060f826fcc1b5b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 15/44] fix: compare magnetic declinations modulo a full turn

---
 EKF/mag_fusion.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 7f8161a..7dbd06a 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -890,7 +890,7 @@ void Ekf::fuseDeclination(float decl_sigma)
 		Kfusion(row) = -HK9*(HK5*P(16,row) - P(17,row));
 	}
 
-	const float innovation = math::constrain(atan2f(magE, magN) - getMagDeclination(), -0.5f, 0.5f);
+	const float innovation = math::constrain(wrap_pi(atan2f(magE, magN) - getMagDeclination()), -0.5f, 0.5f);
 
 	const bool is_fused = measurementUpdate(Kfusion, Hfusion, innovation);
 
@@ -943,11 +943,11 @@ void Ekf::limitDeclination()
 	constexpr float decl_tolerance = 0.5f;
 	const float decl_max = decl_reference + decl_tolerance;
 	const float decl_min = decl_reference - decl_tolerance;
-	const float decl_estimate = atan2f(_state.mag_I(1) , _state.mag_I(0));
-	if (decl_estimate > decl_max)  {
+	const float decl_error = wrap_pi(atan2f(_state.mag_I(1) , _state.mag_I(0)) - decl_reference);
+	if (decl_error > decl_tolerance)  {
 		_state.mag_I(0) = h_field * cosf(decl_max);
 		_state.mag_I(1) = h_field * sinf(decl_max);
-	} else if (decl_estimate < decl_min)  {
+	} else if (decl_error < -decl_tolerance)  {
 		_state.mag_I(0) = h_field * cosf(decl_min);
 		_state.mag_I(1) = h_field * sinf(decl_min);
 	}
-- 
2.43.0


From 48b802c6aa916c04134d78e3205fe28ebf7e9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 16/44] fix: optical flow: sign of the reference body rate used
 to find the flow gyro bias

---
 EKF/optflow_fusion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index a5b5415..a28af5c 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -349,7 +349,8 @@ bool Ekf::calcOptFlowBodyRateComp()
 		    && (_flow_sample_delayed.dt > FLT_EPSILON)
 		    && (fabsf(_delta_time_of - _flow_sample_delayed.dt) < 0.1f)) {
 
-			const Vector3f reference_body_rate(_imu_del_ang_of * (1.0f / _delta_time_of));
+			// the flow sensor gyro has the opposite sign convention, see definition of flowSample and imuSample in common.h
+			const Vector3f reference_body_rate(_imu_del_ang_of * (-1.0f / _delta_time_of));
 
 			const Vector3f measured_body_rate(_flow_sample_delayed.gyro_xyz * (1.0f / _flow_sample_delayed.dt));
 
-- 
2.43.0


From 52f3d1071f9d5cb132a25ae02548bac5617f4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 17/44] fix: optical flow: gain of the second axis from the
 covariance the first axis left behind

---
 EKF/optflow_fusion.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index a28af5c..68e9004 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -232,8 +232,6 @@ void Ekf::fuseOptFlow()
 		initialiseCovariance();
 		return;
 	}
-	const float HK95 = HK4/_flow_innov_var(1);
-
 
 	// run the innovation consistency check and record result
 	bool flow_fail = false;
@@ -299,18 +297,22 @@ void Ekf::fuseOptFlow()
 			Hfusion.at<6>() = -HK4*HK79;
 
 			// Kalman gains - axis 1
-			Kfusion(0) = -HK87*HK95;
-			Kfusion(1) = -HK94*HK95;
-			Kfusion(2) = -HK91*HK95;
-			Kfusion(3) = -HK93*HK95;
-			Kfusion(4) = -HK90*HK95;
-			Kfusion(5) = -HK89*HK95;
-			Kfusion(6) = -HK88*HK95;
+			// recalculate the innovation variance because the state covariances have changed due to the previous fusion
+			Vector24f PHt;
+			for (unsigned row = 0; row <= 23; row++) {
+				PHt(row) = -HK4*(HK80*P(0,row) + HK81*P(1,row) + HK82*P(2,row) + HK83*P(3,row) + HK84*P(4,row) + HK85*P(5,row) + HK86*P(6,row));
+			}
 
-			for (unsigned row = 7; row <= 23; row++) {
-				Kfusion(row) = -HK95*(HK80*P(0,row) + HK81*P(1,row) + HK82*P(2,row) + HK83*P(3,row) + HK84*P(4,row) + HK85*P(5,row) + HK86*P(6,row));
+			const float innov_var = -HK4*(HK80*PHt(0) + HK81*PHt(1) + HK82*PHt(2) + HK83*PHt(3) + HK84*PHt(4) + HK85*PHt(5) + HK86*PHt(6)) + R_LOS;
+
+			if (innov_var < R_LOS) {
+				// we need to reinitialise the covariance matrix and abort this fusion step
+				initialiseCovariance();
+				return;
 			}
 
+			Kfusion = PHt / innov_var;
+
 		}
 
 		const bool is_fused = measurementUpdate(Kfusion, Hfusion, _flow_innov(obs_index));
-- 
2.43.0


From e5a0d2a1d0db43937654ccd2bedd133e6e609cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 18/44] fix: remove all correlations of an inhibited
 accelerometer bias

---
 EKF/covariance.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/EKF/covariance.cpp b/EKF/covariance.cpp
index 94bafce..c09035a 100644
--- a/EKF/covariance.cpp
+++ b/EKF/covariance.cpp
@@ -827,6 +827,14 @@ void Ekf::predictCovariance()
 
 	}
 
+	// the columns of the states that follow have been calculated from the previous covariance,
+	// so remove the correlations with the inhibited delta velocity bias states again
+	for (unsigned index = 0; index < 3; index++) {
+		if (_accel_bias_inhibit[index]) {
+			nextP.uncorrelateCovarianceSetVariance<1>(13 + index, _prev_dvel_bias_var(index));
+		}
+	}
+
 	// stop position covariance growth if our total position variance reaches 100m
 	// this can happen if we lose gps for some time
 	if ((P(7,7) + P(8,8)) > 1e4f) {
-- 
2.43.0


From 3972be1d412a67db348e081f9ca5c1c2289ad8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 19/44] fix: report a rejected magnetometer axis in the flag of
 that axis

---
 EKF/mag_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 7dbd06a..cd653f3 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -176,10 +176,10 @@ void Ekf::fuseMag()
 
 		if (_mag_test_ratio(index) > 1.0f) {
 			all_innovation_checks_passed = false;
-			_innov_check_fail_status.value |= (1 << (index + 3));
+			_innov_check_fail_status.value |= (1 << (index + 4));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (index + 3));
+			_innov_check_fail_status.value &= ~(1 << (index + 4));
 		}
 	}
 
-- 
2.43.0


From 3741e97352f56422e197faa2b9df7150dbca2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 20/44] fix: report a rejected optical flow axis in the flag of
 that axis

---
 EKF/optflow_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index 68e9004..42686e4 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -243,10 +243,10 @@ void Ekf::fuseOptFlow()
 	for (uint8_t obs_index = 0; obs_index <= 1; obs_index++) {
 		if (test_ratio[obs_index] > 1.0f) {
 			flow_fail = true;
-			_innov_check_fail_status.value |= (1 << (obs_index + 10));
+			_innov_check_fail_status.value |= (1 << (obs_index + 11));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (obs_index + 10));
+			_innov_check_fail_status.value &= ~(1 << (obs_index + 11));
 
 		}
 	}
-- 
2.43.0


From e941b5367693b4ac4e8f7982e22a3c77b214c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 21/44] fix: limit the observation buffer length before
 converting it to 8 bits

---
 EKF/estimator_interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index 0129f1d..9182a89 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -511,10 +511,10 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 	// with the worst case delay from current time to ekf fusion time
 	// allow for worst case 50% extension of the ekf fusion time horizon delay due to timing jitter
 	const float ekf_delay_ms = max_time_delay_ms * 1.5f;
-	_obs_buffer_length = ceilf(ekf_delay_ms / _params.sensor_interval_min_ms);
+	const float obs_buffer_length = ceilf(ekf_delay_ms / _params.sensor_interval_min_ms);
 
 	// limit to be no longer than the IMU buffer (we can't process data faster than the EKF prediction rate)
-	_obs_buffer_length = math::min(_obs_buffer_length, _imu_buffer_length);
+	_obs_buffer_length = math::min(obs_buffer_length, (float)_imu_buffer_length);
 
 	// two entries are needed to define the minimum interval between observations
 	_obs_buffer_length = math::max(_obs_buffer_length, (uint8_t)2);
-- 
2.43.0


From 660985f69c5995ba2761cbefb5e3fe394339122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 22/44] fix: report no height innovation test ratio when no
 height source is in use

---
 EKF/ekf_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 5ef76f5..fd7f9f3 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -947,6 +947,9 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 
 	} else if (_control_status.flags.ev_hgt) {
 		hgt = sqrtf(_ev_pos_test_ratio(1));
+
+	} else {
+		hgt = NAN;
 	}
 
 	// return the airspeed fusion innovation test ratio
-- 
2.43.0


From d8a4bb06f4fc9b32ac48b20dded305c05b6c3b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 23/44] fix: clear the unused bits of the reported solution
 status

---
 EKF/ekf_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index fd7f9f3..353459c 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -963,7 +963,7 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 // return a bitmask integer that describes which state estimates are valid
 void Ekf::get_ekf_soln_status(uint16_t *status) const
 {
-	ekf_solution_status soln_status;
+	ekf_solution_status soln_status{};
 	// TODO: Is this accurate enough?
 	soln_status.flags.attitude = _control_status.flags.tilt_align && _control_status.flags.yaw_align && (_fault_status.value == 0);
 	soln_status.flags.velocity_horiz = (isHorizontalAidingActive() || (_control_status.flags.fuse_beta && _control_status.flags.fuse_aspd)) && (_fault_status.value == 0);
-- 
2.43.0


From 9f4f9366e082b1814d31b7ab2cd8117c96fd2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 24/44] fix: initialise the unused bits of the published status
 words

---
 EKF/common.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/EKF/common.h b/EKF/common.h
index 28ec23a..e47e172 100644
--- a/EKF/common.h
+++ b/EKF/common.h
@@ -428,7 +428,7 @@ union innovation_fault_status_u {
 		bool reject_optflow_X: 1;	///< 11 - true if the X optical flow observation has been rejected
 		bool reject_optflow_Y: 1;	///< 12 - true if the Y optical flow observation has been rejected
 	} flags;
-	uint16_t value;
+	uint16_t value{0};
 
 };
 
@@ -446,7 +446,7 @@ union gps_check_fail_status_u {
 		uint16_t hspeed : 1; ///< 8 - true if horizontal speed is excessive (can only be used when stationary on ground)
 		uint16_t vspeed : 1; ///< 9 - true if vertical speed error is excessive
 	} flags;
-	uint16_t value;
+	uint16_t value{0};
 };
 
 // bitmask containing filter control status
@@ -480,7 +480,7 @@ union filter_control_status_u {
 		uint32_t synthetic_mag_z : 1; ///< 25 - true when we are using a synthesized measurement for the magnetometer Z component
 		uint32_t vehicle_at_rest : 1; ///< 26 - true when the vehicle is at rest
 	} flags;
-	uint32_t value;
+	uint32_t value{0};
 };
 
  // Mavlink bitmask containing state of estimator solution
@@ -499,7 +499,7 @@ union ekf_solution_status {
 		uint16_t gps_glitch         : 1; ///< 10 - True if the EKF has detected a GPS glitch
 		uint16_t accel_error        : 1; ///< 11 - True if the EKF has detected bad accelerometer data
 	} flags;
-	uint16_t value;
+	uint16_t value{0};
 };
 
 union terrain_fusion_status_u {
@@ -507,7 +507,7 @@ union terrain_fusion_status_u {
 		bool range_finder: 1;	///< 0 - true if we are fusing range finder data
 		bool flow: 1;		///< 1 - true if we are fusing flow data
 	} flags;
-	uint8_t value;
+	uint8_t value{0};
 };
 
 // define structure used to communicate information events
@@ -527,7 +527,7 @@ union information_event_status_u {
 		bool starting_vision_yaw_fusion	: 1; ///< 11 - true when the filter starts using vision system yaw  measurements to correct the state estimates
 		bool yaw_aligned_to_imu_gps	: 1; ///< 12 - true when the filter resets the yaw to an estimate derived from IMU and GPS data
 	} flags;
-	uint32_t value;
+	uint32_t value{0};
 };
 
 // define structure used to communicate information events
@@ -545,7 +545,7 @@ union warning_event_status_u {
 		bool vision_data_stopped		: 1; ///< 9 - true when the vision system data has stopped for a significant time period
 		bool emergency_yaw_reset_mag_stopped	: 1; ///< 10 - true when the filter has detected bad magnetometer data, has reset the yaw to anothter source of data and has stopped further use of the magnetomer data
 	} flags;
-	uint32_t value;
+	uint32_t value{0};
 };
 
 }
-- 
2.43.0


From c763ec5ab03f22ac65884382797bafe2f540e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:28 +0000
Subject: [PATCH 25/44] fix: initialise the vertical innovation history used to
 detect bad vertical acceleration

---
 EKF/ekf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index 7587883..c6bbb59 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -401,10 +401,10 @@ private:
 	Vector3f _last_vel_obs;			///< last velocity observation (m/s)
 	Vector3f _last_vel_obs_var;		///< last velocity observation variance (m/s)**2
 	Vector2f _last_fail_hvel_innov;		///< last failed horizontal velocity innovation (m/s)**2
-	float _vert_pos_innov_ratio;		///< vertical position innovation divided by estimated standard deviation of innovation
-	uint64_t _vert_pos_fuse_attempt_time_us;	///< last system time in usec vertical position measurement fuson was attempted
-	float _vert_vel_innov_ratio;		///< standard deviation of vertical velocity innovation
-	uint64_t _vert_vel_fuse_time_us;	///< last system time in usec time vertical velocity measurement fuson was attempted
+	float _vert_pos_innov_ratio{0.f};		///< vertical position innovation divided by estimated standard deviation of innovation
+	uint64_t _vert_pos_fuse_attempt_time_us{0};	///< last system time in usec vertical position measurement fuson was attempted
+	float _vert_vel_innov_ratio{0.f};		///< standard deviation of vertical velocity innovation
+	uint64_t _vert_vel_fuse_time_us{0};	///< last system time in usec time vertical velocity measurement fuson was attempted
 
 	Vector3f _gps_vel_innov;	///< GPS velocity innovations (m/sec)
 	Vector3f _gps_vel_innov_var;	///< GPS velocity innovation variances ((m/sec)**2)
-- 
2.43.0


From ef8f14cf8c5eb43d8c9464510af0b5b7dbdd0a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:24 +0000
Subject: [PATCH 26/44] fix: scale reported bias variances by the square of the
 filter interval

---
 EKF/ekf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index c6bbb59..01724e8 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -224,8 +224,8 @@ public:
 	Vector3f getAccelBias() const { return _state.delta_vel_bias / _dt_ekf_avg; } // get the accelerometer bias in m/s**2
 	const Vector3f &getMagBias() const { return _state.mag_B; }
 
-	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / _dt_ekf_avg; } // get the gyroscope bias variance in rad/s
-	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / _dt_ekf_avg; } // get the accelerometer bias variance in m/s**2
+	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / sq(_dt_ekf_avg); } // get the gyroscope bias variance in (rad/s)**2
+	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / sq(_dt_ekf_avg); } // get the accelerometer bias variance in (m/s**2)**2
 	Vector3f getMagBiasVariance() const { return Vector3f{P(19, 19), P(20, 20), P(21, 21)}; }
 
 	// get GPS check status
-- 
2.43.0


From 98ff3b5f4481e879cba1b2d547e49d3b8a41d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 27/44] fix: do not start vision yaw aiding on top of GPS yaw
 aiding

Yaw sources exclude each other: starting GPS yaw stops vision yaw, but vision
yaw started again with its next sample while GPS yaw was active.
---
 EKF/control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index f7fcd3c..506c864 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -223,7 +223,7 @@ void Ekf::controlExternalVisionFusion()
 		}
 
 		// external vision yaw aiding selection logic
-		if (!_control_status.flags.gps && (_params.fusion_mode & MASK_USE_EVYAW) && !_control_status.flags.ev_yaw && _control_status.flags.tilt_align) {
+		if (!_control_status.flags.gps && !_control_status.flags.gps_yaw && (_params.fusion_mode & MASK_USE_EVYAW) && !_control_status.flags.ev_yaw && _control_status.flags.tilt_align) {
 			// don't start using EV data unless data is arriving frequently
 			if (isRecent(_time_last_ext_vision, 2 * EV_MAX_INTERVAL)) {
 				startEvYawFusion();
-- 
2.43.0


From 38dad93f7ff00f5da79faec7c71c37af5649e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 28/44] fix: fall back to baro height when GPS fusion is
 stopped

Stopping GPS fusion cleared the GPS height flag without selecting another
source: no height source was left and none of the fallbacks could start one.
---
 EKF/ekf_helper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 353459c..794c17b 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1441,7 +1441,12 @@ void Ekf::stopGpsFusion()
 void Ekf::stopGpsPosFusion()
 {
 	_control_status.flags.gps = false;
-	_control_status.flags.gps_hgt = false;
+
+	// there must always be a height source
+	if (_control_status.flags.gps_hgt) {
+		startBaroHgtFusion();
+	}
+
 	_gps_pos_innov.setZero();
 	_gps_pos_innov_var.setZero();
 	_gps_pos_test_ratio.setZero();
-- 
2.43.0


From 0fa5c97371bcd9ee2235981a70e3a38ceccce652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 29/44] fix: wind variance without airspeed is the square of
 the configured uncertainty

---
 EKF/covariance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/covariance.cpp b/EKF/covariance.cpp
index c09035a..161bf54 100644
--- a/EKF/covariance.cpp
+++ b/EKF/covariance.cpp
@@ -1124,6 +1124,6 @@ void Ekf::resetWindCovariance()
 
 	} else {
 		// without airspeed, start with a small initial uncertainty to improve the initial estimate
-		P.uncorrelateCovarianceSetVariance<2>(22, _params.initial_wind_uncertainty);
+		P.uncorrelateCovarianceSetVariance<2>(22, sq(_params.initial_wind_uncertainty));
 	}
 }
-- 
2.43.0


From e8c4890df6f9bfed6dd3d731e01d52b0b513bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 30/44] fix: give the yaw estimator the GPS speed accuracy, not
 the vertical position accuracy

---
 EKF/ekf_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 794c17b..5dd7fde 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1665,9 +1665,9 @@ void Ekf::runYawEKFGSF()
 	_yawEstimator.update(_imu_sample_delayed, _control_status.flags.in_air, TAS, imu_gyro_bias);
 
 	// basic sanity check on GPS velocity data
-	if (_gps_data_ready && _gps_sample_delayed.vacc > FLT_EPSILON &&
+	if (_gps_data_ready && _gps_sample_delayed.sacc > FLT_EPSILON &&
 	    ISFINITE(_gps_sample_delayed.vel(0)) && ISFINITE(_gps_sample_delayed.vel(1))) {
-		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.vacc);
+		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.sacc);
 	}
 }
 
-- 
2.43.0


From 9309eb59e11bdd83bcebff0bd6b2d7618196a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 31/44] fix: recovered GPS height started from a sample taken
 before the drop-out

---
 EKF/control.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 506c864..4cc2cb5 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -1053,8 +1053,9 @@ void Ekf::controlHeightFusion()
 				// Use baro as a fallback
 				startBaroHgtFusion();
 			}
-		} else if (_control_status.flags.baro_hgt && !do_range_aid && !_gps_hgt_intermittent && _gps_checks_passed) {
-			// In baro fallback mode and GPS has recovered so start using it
+		} else if (_control_status.flags.baro_hgt && !do_range_aid && !_gps_hgt_intermittent && _gps_checks_passed && _gps_data_ready) {
+			// In baro fallback mode and GPS has recovered so start using it. The height offset is
+			// calculated from the delayed sample, so wait until it is a current one
 			startGpsHgtFusion();
 		}
 		if (_control_status.flags.gps_hgt && _gps_data_ready) {
-- 
2.43.0


From 193f5a64b535cb12a2f7ae1b6c1168726e380dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:49 +0000
Subject: [PATCH 32/44] fix: offset of the GPS height at the origin calculated
 from an old sample

---
 EKF/gps_checks.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index c2fdca1..8664a95 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -110,6 +110,10 @@ bool Ekf::collect_gps(const gps_message &gps)
 		// if the user has selected GPS as the primary height source, switch across to using it
 		if (_params.vdist_sensor_type == VDIST_SENSOR_GPS) {
 			startGpsHgtFusion();
+
+			// the reference altitude has just been set to match the current height estimate, so no offset
+			// is needed. The delayed GPS sample can be an old one after a data drop-out.
+			_hgt_sensor_offset = 0.0f;
 		}
 
 		_information_events.flags.gps_checks_passed = true;
-- 
2.43.0


From 56912acb3c8449340ea3e6a36787051fe59046ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:13 +0000
Subject: [PATCH 33/44] fix: magnetometer samples from before a drop-out used
 for yaw alignment

---
 EKF/control.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 4cc2cb5..de0053c 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -94,10 +94,17 @@ void Ekf::controlFusionModes()
 	// check for arrival of new sensor data at the fusion time horizon
 	_time_prev_gps_us = _gps_sample_delayed.time_us;
 	_gps_data_ready = _gps_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_gps_sample_delayed);
+	const uint64_t time_prev_mag_us = _mag_sample_delayed.time_us;
 	_mag_data_ready = _mag_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_mag_sample_delayed);
 
 	if (_mag_data_ready) {
-		_mag_lpf.update(_mag_sample_delayed.mag);
+		if (_mag_sample_delayed.time_us > time_prev_mag_us + (uint64_t)1e6) {
+			// the attitude can have changed during an interruption of the data, don't mix in old body frame samples
+			_mag_lpf.reset(_mag_sample_delayed.mag);
+
+		} else {
+			_mag_lpf.update(_mag_sample_delayed.mag);
+		}
 
 		// if enabled, use knowledge of theoretical magnetic field vector to calculate a synthetic magnetomter Z component value.
 		// this is useful if there is a lot of interference on the sensor measurement.
-- 
2.43.0


From 35532f37fa1d517244b2b186d8ddc9e1fa9c928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:03 +0000
Subject: [PATCH 34/44] fix: delay of the height sensor not considered for the
 fusion horizon

---
 EKF/estimator_interface.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index 9182a89..be23502 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -492,7 +492,8 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 		max_time_delay_ms = math::max(_params.range_delay_ms, max_time_delay_ms);
 	}
 
-	if (_params.fusion_mode & MASK_USE_GPS) {
+	// gps aiding or gps height
+	if ((_params.fusion_mode & MASK_USE_GPS) || (_params.vdist_sensor_type == VDIST_SENSOR_GPS)) {
 		max_time_delay_ms = math::max(_params.gps_delay_ms, max_time_delay_ms);
 	}
 
@@ -500,7 +501,8 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 		max_time_delay_ms = math::max(_params.flow_delay_ms, max_time_delay_ms);
 	}
 
-	if (_params.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) {
+	// vision aiding or vision height
+	if ((_params.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) || (_params.vdist_sensor_type == VDIST_SENSOR_EV)) {
 		max_time_delay_ms = math::max(_params.ev_delay_ms, max_time_delay_ms);
 	}
 
-- 
2.43.0


From f9c7358c68cd07ac56c75dcc42a8c51e3cb07f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:25 +0000
Subject: [PATCH 35/44] fix: GPS height not fused after a reset to it in range
 and vision height modes

---
 EKF/control.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index de0053c..0032d79 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -1034,6 +1034,10 @@ void Ekf::controlHeightFusion()
 		} else if (_control_status.flags.baro_hgt && _baro_data_ready && !_baro_hgt_faulty) {
 			// fuse baro data if there was a reset to baro
 			fuse_height = true;
+
+		} else if (_control_status.flags.gps_hgt && _gps_data_ready) {
+			// fuse gps data if there was a reset to gps
+			fuse_height = true;
 		}
 
 		break;
@@ -1086,6 +1090,10 @@ void Ekf::controlHeightFusion()
 		if (_control_status.flags.baro_hgt && _baro_data_ready && !_baro_hgt_faulty) {
 			// switch to baro if there was a reset to baro
 			fuse_height = true;
+
+		} else if (_control_status.flags.gps_hgt && _gps_data_ready) {
+			// switch to gps if there was a reset to gps
+			fuse_height = true;
 		}
 
 		// determine if we should use the vertical position observation
-- 
2.43.0


From 3a1517627736dc57ae9d7e7c625daa55565fa4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:49 +0000
Subject: [PATCH 36/44] fix: loss of the GPS fix did not restart the wait for
 good GPS quality

---
 EKF/estimator_interface.cpp | 8 +++++++-
 EKF/gps_checks.cpp          | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index be23502..066b533 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -187,9 +187,15 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 	const bool need_gps = (_params.fusion_mode & MASK_USE_GPS) || (_params.vdist_sensor_type == VDIST_SENSOR_GPS);
 
 	// TODO: remove checks that are not timing related
-	if (((gps.time_usec - _time_last_gps) > _min_obs_interval_us) && need_gps && gps.fix_type > 2) {
+	if (((gps.time_usec - _time_last_gps) > _min_obs_interval_us) && need_gps) {
 		_time_last_gps = gps.time_usec;
 
+		if (gps.fix_type <= 2) {
+			// not usable for fusion, but the quality checks have to know that the fix has been lost
+			collect_gps(gps);
+			return;
+		}
+
 		gpsSample gps_sample_new;
 
 		gps_sample_new.time_us = gps.time_usec - static_cast<uint64_t>(_params.gps_delay_ms * 1000);
diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index 8664a95..95aa26a 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -178,6 +178,12 @@ bool Ekf::gps_is_good(const gps_message &gps)
 	_gps_error_norm = fmaxf((gps.eph / _params.req_hacc), (gps.epv / _params.req_vacc));
 	_gps_error_norm = fmaxf(_gps_error_norm, (gps.sacc / _params.req_sacc));
 
+	if (_gps_check_fail_status.flags.fix) {
+		// position and velocity are not valid without a fix
+		_last_gps_fail_us = _time_last_imu;
+		return false;
+	}
+
 	// Calculate time lapsed since last update, limit to prevent numerical errors and calculate a lowpass filter coefficient
 	constexpr float filt_time_const = 10.0f;
 	const float dt = math::constrain(float(int64_t(_time_last_imu) - int64_t(_gps_pos_prev.timestamp)) * 1e-6f, 0.001f, filt_time_const);
-- 
2.43.0


From e6d598bfa0080ce05118bac9cbde599ae5f0f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:52 +0000
Subject: [PATCH 37/44] fix: GPS samples and height references not moved with a
 commanded origin

---
 EKF/ekf_helper.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 5dd7fde..cd8c24c 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -707,8 +707,26 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 		current_pos_available = true;
 	}
 
+	const map_projection_reference_s pos_ref_prev = _pos_ref;
+
 	// reinitialize map projection to latitude, longitude, altitude, and reset position
 	if (map_projection_init_timestamped(&_pos_ref, latitude, longitude, _time_last_imu) == 0) {
+		if (_NED_origin_initialised) {
+			// the positions of the GPS samples not used yet are relative to the previous origin
+			auto change_origin = [&](gpsSample & sample) {
+				double lat;
+				double lon;
+				map_projection_reproject(&pos_ref_prev, sample.pos(0), sample.pos(1), &lat, &lon);
+				map_projection_project(&_pos_ref, lat, lon, &sample.pos(0), &sample.pos(1));
+			};
+
+			for (uint8_t i = 0; i < _gps_buffer.get_length(); i++) {
+				change_origin(_gps_buffer[i]);
+			}
+
+			change_origin(_gps_sample_delayed);
+		}
+
 		if (current_pos_available) {
 			// reset horizontal position
 			Vector2f position;
@@ -717,7 +735,19 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 
 			// reset altitude
 			_gps_alt_ref = altitude;
+			const float height_prev = _state.pos(2);
 			resetVerticalPositionTo(_gps_alt_ref - current_alt);
+
+			// keep everything else that is relative to the height of the origin consistent
+			const float height_change = _state.pos(2) - height_prev;
+			_baro_hgt_offset += height_change;
+			_terrain_vpos += height_change;
+			_last_on_ground_posD += height_change;
+
+			if (_control_status.flags.rng_hgt) {
+				_hgt_sensor_offset += height_change;
+			}
+
 		} else {
 			// reset altitude
 			_gps_alt_ref = altitude;
-- 
2.43.0


From d7b9bf3c0eefff44ca6ce03ae3715fe9c81ddf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:52 +0000
Subject: [PATCH 38/44] fix: GPS samples without position used for aiding when
 the origin had been commanded before

---
 EKF/gps_checks.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index 95aa26a..afa8bb3 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -81,6 +81,12 @@ bool Ekf::collect_gps(const gps_message &gps)
 		// Take the current GPS height and subtract the filter height above origin to estimate the GPS height of the origin
 		_gps_alt_ref = 1e-3f * (float)gps.alt + _state.pos(2);
 		_NED_origin_initialised = true;
+
+		// samples received until now do not have a position relative to the origin
+		for (uint8_t i = 0; i < _gps_buffer.get_length(); i++) {
+			_gps_buffer[i].time_us = 0;
+		}
+
 		_earth_rate_NED = calcEarthRateNED((float)_pos_ref.lat_rad);
 		_last_gps_origin_time_us = _time_last_imu;
 
-- 
2.43.0


From 8350a19b6657db8f6e78b231045895e5ef33cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:20 +0000
Subject: [PATCH 39/44] fix: range finder height started on ground as if the
 ground was at zero height

---
 EKF/control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 0032d79..03bb75e 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -1027,7 +1027,7 @@ void Ekf::controlHeightFusion()
 					_hgt_sensor_offset = _range_sensor.getDistBottom() + _state.pos(2);
 
 				} else {
-					_hgt_sensor_offset = _params.rng_gnd_clearance;
+					_hgt_sensor_offset = _params.rng_gnd_clearance + _state.pos(2);
 				}
 			}
 
-- 
2.43.0


From e5b05c474afb23f317f672635073a172ca14241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:03 +0000
Subject: [PATCH 40/44] fix: stop GPS yaw aiding when GPS data stop while GPS
 is not used otherwise

---
 EKF/control.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 03bb75e..1fb6da4 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -747,6 +747,11 @@ void Ekf::controlGpsFusion()
 		_warning_events.flags.gps_data_stopped_using_alternate = true;
 		ECL_WARN("GPS data stopped, using only EV, OF or air data" );
 	}
+
+	if (_control_status.flags.gps_yaw && !_gps_data_ready && isTimedOut(_time_last_gps_yaw_fuse, (uint64_t)5e6)) {
+		// GPS data stopped while only its yaw was used: allow another source of yaw aiding to start
+		stopGpsYawFusion();
+	}
 }
 
 void Ekf::controlGpsYawFusion()
-- 
2.43.0


From 7b17316e01d71a6425323a5c95c90080f80ca04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:31 +0000
Subject: [PATCH 41/44] fix: reset to vision position and velocity before
 calculating the innovation that is fused

---
 EKF/control.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 1fb6da4..0e895c5 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -282,6 +282,18 @@ void Ekf::controlExternalVisionFusion()
 				_hpos_pred_prev = _state.pos.xy();
 
 			} else {
+				// check if we have been deadreckoning too long, before calculating
+				// the innovation as it has to be relative to the reset position
+				if (isTimedOut(_time_last_hor_pos_fuse, _params.reset_timeout_max)) {
+					// only reset velocity if we have no another source of aiding constraining it
+					if (isTimedOut(_time_last_of_fuse, (uint64_t)1E6) &&
+					    isTimedOut(_time_last_hor_vel_fuse, (uint64_t)1E6)) {
+						resetVelocity();
+					}
+
+					resetHorizontalPosition();
+				}
+
 				// use the absolute position
 				Vector3f ev_pos_meas = _ev_sample_delayed.pos;
 				Matrix3f ev_pos_var = matrix::diag(_ev_sample_delayed.posVar);
@@ -294,17 +306,6 @@ void Ekf::controlExternalVisionFusion()
 
 				ev_pos_obs_var(0) = fmaxf(ev_pos_var(0, 0), sq(0.01f));
 				ev_pos_obs_var(1) = fmaxf(ev_pos_var(1, 1), sq(0.01f));
-
-				// check if we have been deadreckoning too long
-				if (isTimedOut(_time_last_hor_pos_fuse, _params.reset_timeout_max)) {
-					// only reset velocity if we have no another source of aiding constraining it
-					if (isTimedOut(_time_last_of_fuse, (uint64_t)1E6) &&
-					    isTimedOut(_time_last_hor_vel_fuse, (uint64_t)1E6)) {
-						resetVelocity();
-					}
-
-					resetHorizontalPosition();
-				}
 			}
 
 			// innovation gate size
@@ -320,10 +321,8 @@ void Ekf::controlExternalVisionFusion()
 
 			Vector2f ev_vel_innov_gates;
 
-			_last_vel_obs = getVisionVelocityInEkfFrame();
-			_ev_vel_innov = _state.vel - _last_vel_obs;
-
-			// check if we have been deadreckoning too long
+			// check if we have been deadreckoning too long, before calculating
+			// the innovation as it has to be relative to the reset velocity
 			if (isTimedOut(_time_last_hor_vel_fuse, _params.reset_timeout_max)) {
 				// only reset velocity if we have no another source of aiding constraining it
 				if (isTimedOut(_time_last_of_fuse, (uint64_t)1E6) &&
@@ -332,6 +331,8 @@ void Ekf::controlExternalVisionFusion()
 				}
 			}
 
+			_last_vel_obs = getVisionVelocityInEkfFrame();
+			_ev_vel_innov = _state.vel - _last_vel_obs;
 			_last_vel_obs_var = matrix::max(getVisionVelocityVarianceInEkfFrame(), sq(0.05f));
 
 			ev_vel_innov_gates.setAll(fmaxf(_params.ev_vel_innov_gate, 1.0f));
-- 
2.43.0


From e50430c7ca1cf6e9460b13fa5cd4b0672ae6333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:10 +0000
Subject: [PATCH 42/44] fix: last known position for the reset to it is where
 position aiding ended as well

---
 EKF/vel_pos_fusion.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EKF/vel_pos_fusion.cpp b/EKF/vel_pos_fusion.cpp
index f3b2bfb..85bbe0e 100644
--- a/EKF/vel_pos_fusion.cpp
+++ b/EKF/vel_pos_fusion.cpp
@@ -136,6 +136,11 @@ bool Ekf::fuseHorizontalPosition(const Vector3f &innov, const Vector2f &innov_ga
 		fuseVelPosHeight(innov(0), innov_var(0), 3);
 		fuseVelPosHeight(innov(1), innov_var(1), 4);
 
+		if (!inhibit_gate) {
+			// keep track of where aiding was last available, a synthetic position doesn't count
+			_last_known_posNE = _state.pos.xy();
+		}
+
 		return true;
 
 	} else {
-- 
2.43.0


From a705c1efa06f549fc9982ac724e8d4ec734ccf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:26 +0000
Subject: [PATCH 43/44] fix: GPS height used as a fallback does not jump when
 the origin is set

---
 EKF/gps_checks.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index afa8bb3..4d91010 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -120,6 +120,10 @@ bool Ekf::collect_gps(const gps_message &gps)
 			// the reference altitude has just been set to match the current height estimate, so no offset
 			// is needed. The delayed GPS sample can be an old one after a data drop-out.
 			_hgt_sensor_offset = 0.0f;
+
+		} else if (_control_status.flags.gps_hgt) {
+			// already using GPS height as a fallback, the offset was relative to the previous reference altitude
+			_hgt_sensor_offset = 0.0f;
 		}
 
 		_information_events.flags.gps_checks_passed = true;
-- 
2.43.0


From d63ea9766d379fe45a9b14a2572993529f18515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:41 +0000
Subject: [PATCH 44/44] fix: a magnetometer bias reset sets the saved variances
 to the initial ones, not to zero

---
 EKF/ekf_helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index cd8c24c..756392b 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -942,9 +942,9 @@ void Ekf::resetMagBias()
 
 	// reset any saved covariance data for re-use when auto-switching between heading and 3-axis fusion
 	// _saved_mag_bf_variance[0] is the the D earth axis
-	_saved_mag_bf_variance[1] = 0;
-	_saved_mag_bf_variance[2] = 0;
-	_saved_mag_bf_variance[3] = 0;
+	_saved_mag_bf_variance[1] = sq(_params.mag_noise);
+	_saved_mag_bf_variance[2] = sq(_params.mag_noise);
+	_saved_mag_bf_variance[3] = sq(_params.mag_noise);
 }
 
 // get EKF innovation consistency check status information comprising of:
-- 
2.43.0

