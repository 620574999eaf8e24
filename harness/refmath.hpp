// Independent double-precision reference mathematics (no dependency on the code under test).
#pragma once
#include <cmath>
#include <array>
#include <vector>

namespace ref
{
static const double PI = 3.14159265358979323846;

struct V3 {
	double x{0}, y{0}, z{0};
	V3() {}
	V3(double a, double b, double c): x(a), y(b), z(c) {}
	double &operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
	double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
	V3 operator+(const V3 &o) const { return {x + o.x, y + o.y, z + o.z}; }
	V3 operator-(const V3 &o) const { return {x - o.x, y - o.y, z - o.z}; }
	V3 operator-() const { return { -x, -y, -z}; }
	V3 operator*(double s) const { return {x *s, y *s, z *s}; }
	V3 operator/(double s) const { return {x / s, y / s, z / s}; }
	V3 &operator+=(const V3 &o) { x += o.x; y += o.y; z += o.z; return *this; }
	double dot(const V3 &o) const { return x * o.x + y * o.y + z * o.z; }
	V3 cross(const V3 &o) const { return {y *o.z - z * o.y, z *o.x - x * o.z, x *o.y - y * o.x}; }
	double norm() const { return std::sqrt(dot(*this)); }
	V3 unit() const { double n = norm(); return n > 0 ? *this / n : V3(1, 0, 0); }
	bool finite() const { return std::isfinite(x) && std::isfinite(y) && std::isfinite(z); }
};

struct M3 {
	double m[3][3] {};
	static M3 I() { M3 r; r.m[0][0] = r.m[1][1] = r.m[2][2] = 1; return r; }
	double &operator()(int i, int j) { return m[i][j]; }
	double operator()(int i, int j) const { return m[i][j]; }
	M3 operator*(const M3 &o) const
	{
		M3 r;

		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) { r.m[i][j] += m[i][k] * o.m[k][j]; }

		return r;
	}
	V3 operator*(const V3 &v) const
	{
		return {m[0][0] *v.x + m[0][1] *v.y + m[0][2] *v.z, m[1][0] *v.x + m[1][1] *v.y + m[1][2] *v.z, m[2][0] *v.x + m[2][1] *v.y + m[2][2] *v.z};
	}
	M3 T() const { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.m[i][j] = m[j][i]; } return r; }
};
inline M3 Rx(double a) { M3 r = M3::I(); r.m[1][1] = r.m[2][2] = cos(a); r.m[1][2] = -sin(a); r.m[2][1] = sin(a); return r; }
inline M3 Ry(double a) { M3 r = M3::I(); r.m[0][0] = r.m[2][2] = cos(a); r.m[0][2] = sin(a); r.m[2][0] = -sin(a); return r; }
inline M3 Rz(double a) { M3 r = M3::I(); r.m[0][0] = r.m[1][1] = cos(a); r.m[0][1] = -sin(a); r.m[1][0] = sin(a); return r; }

// Hamilton quaternion, w first; R() rotates body vectors into the earth frame
struct Q {
	double w{1}, x{0}, y{0}, z{0};
	Q() {}
	Q(double a, double b, double c, double d): w(a), x(b), y(c), z(d) {}
	double &operator[](int i) { return i == 0 ? w : i == 1 ? x : i == 2 ? y : z; }
	double operator[](int i) const { return i == 0 ? w : i == 1 ? x : i == 2 ? y : z; }
	Q operator*(const Q &b) const
	{
		return {w *b.w - x * b.x - y * b.y - z * b.z, w *b.x + x * b.w + y * b.z - z * b.y, w *b.y - x * b.z + y * b.w + z * b.x, w *b.z + x * b.y - y * b.x + z * b.w};
	}
	Q conj() const { return {w, -x, -y, -z}; }
	double norm() const { return std::sqrt(w * w + x * x + y * y + z * z); }
	Q unit() const { double n = norm(); return {w / n, x / n, y / n, z / n}; }
	// generic polynomial form (also valid, unscaled, for non-unit quaternions: same form as the filter's model)
	M3 R() const
	{
		M3 r;
		r(0, 0) = w * w + x * x - y * y - z * z;
		r(1, 1) = w * w - x * x + y * y - z * z;
		r(2, 2) = w * w - x * x - y * y + z * z;
		r(0, 1) = 2 * (x * y - w * z);
		r(0, 2) = 2 * (x * z + w * y);
		r(1, 0) = 2 * (x * y + w * z);
		r(1, 2) = 2 * (y * z - w * x);
		r(2, 0) = 2 * (x * z - w * y);
		r(2, 1) = 2 * (y * z + w * x);
		return r;
	}
	V3 rot(const V3 &v) const { return R() * v; }
	V3 rotInv(const V3 &v) const { return R().T() * v; }
	static Q fromRotVec(const V3 &a)
	{
		double n = a.norm();

		if (n < 1e-12) { return Q(1, a.x / 2, a.y / 2, a.z / 2).unit(); }

		double s = sin(n / 2) / n;
		return {cos(n / 2), a.x *s, a.y *s, a.z *s};
	}
	V3 rotVec() const
	{
		double vn = std::sqrt(x * x + y * y + z * z);

		if (vn < 1e-14) { return V3(2 * x, 2 * y, 2 * z) * (w < 0 ? -1.0 : 1.0); }

		double a = 2 * atan2(vn, w);

		if (a > PI) { a -= 2 * PI; }

		return V3(x, y, z) * (a / vn);
	}
	static Q euler(double roll, double pitch, double yaw)
	{
		return Q(cos(yaw / 2), 0, 0, sin(yaw / 2)) * Q(cos(pitch / 2), 0, sin(pitch / 2), 0) * Q(cos(roll / 2), sin(roll / 2), 0, 0);
	}
	double yaw321() const { M3 r = R(); return atan2(r(1, 0), r(0, 0)); }
	double yaw312() const { M3 r = R(); return atan2(-r(0, 1), r(1, 1)); }
};
inline double wrap(double a)
{
	a = std::fmod(a + PI, 2 * PI);

	if (a < 0) { a += 2 * PI; }

	return a - PI;
}
inline double sq(double a) { return a * a; }

// ---- spherical earth, from unit vectors (an algorithm different from haversine) ----
static const double RE = 6371000.0;
static const double D2R = PI / 180.0;
inline V3 nvec(double lat_deg, double lon_deg)
{
	double la = lat_deg * D2R, lo = lon_deg * D2R;
	return {cos(la) *cos(lo), cos(la) *sin(lo), sin(la)};
}
inline double angdist(double lat1, double lon1, double lat2, double lon2)
{
	V3 a = nvec(lat1, lon1), b = nvec(lat2, lon2);
	return atan2(a.cross(b).norm(), a.dot(b));
}
// north/east components of the unit tangent towards b at a (scaled by sin of angular distance)
inline void tangent(double lat1, double lon1, double lat2, double lon2, double &n, double &e)
{
	double la = lat1 * D2R, lo = lon1 * D2R;
	V3 b = nvec(lat2, lon2);
	V3 N(-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la)), E(-sin(lo), cos(lo), 0);
	n = N.dot(b);
	e = E.dot(b);
}
inline double bearing(double lat1, double lon1, double lat2, double lon2)
{
	double n, e;
	tangent(lat1, lon1, lat2, lon2, n, e);
	return atan2(e, n);
}
inline void destination(double lat, double lon, double brg, double ang, double &lat2, double &lon2)
{
	double la = lat * D2R, lo = lon * D2R;
	V3 a = nvec(lat, lon);
	V3 N(-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la)), E(-sin(lo), cos(lo), 0);
	V3 d = N * cos(brg) + E * sin(brg);
	V3 r = a * cos(ang) + d * sin(ang);
	lat2 = atan2(r.z, std::hypot(r.x, r.y)) / D2R;
	lon2 = atan2(r.y, r.x) / D2R;
}
inline double dlon(double a, double b) { return wrap((a - b) * D2R) / D2R; }
} // namespace ref
