// Stand-in for the PX4/Matrix header library (the upstream project fetches it from the network
// at configure time, which is impossible here).  Written from the documented PX4/Matrix API; it is
// part of the verification harness, not of the code under test.  Its fidelity is validated by
// /verif/harness/selftest (the repository's own gtest files + the recorded replay outputs in
// /repo/test/change_indication).
//
// Element access is always bounds checked: an out-of-range index in the code under test aborts
// with a message, so a monitor sees it.
#pragma once

#include <cassert>
#include <cfloat>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <type_traits>
#include <iostream>
#include <math.h>

#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
#ifndef M_TWOPI
#define M_TWOPI (M_PI * 2.0)
#endif

namespace matrix
{

[[noreturn]] inline void index_violation(size_t i, size_t j, size_t m, size_t n)
{
	fprintf(stderr, "MATRIX-INDEX-OUT-OF-RANGE (%zu,%zu) in %zux%zu\n", i, j, m, n);
	fflush(nullptr);
	abort();
}

template <typename Type, size_t M> class Vector;
template <typename Type, size_t M, size_t N> class Matrix;
template <typename Type, size_t M> class SquareMatrix;
template <typename Type, size_t P, size_t Q, size_t M, size_t N> class Slice;
template <typename Type> class Vector2;
template <typename Type> class Vector3;
template <typename Type> class Dcm;
template <typename Type> class Quaternion;
template <typename Type> class Euler;
template <typename Type> class AxisAngle;

// ---------------------------------------------------------------- scalar helpers
template <typename Type> bool is_finite(Type x) { return std::isfinite(x); }

template <typename Type>
bool isEqualF(const Type x, const Type y, const Type eps = Type(1e-4f))
{
	return (std::fabs(x - y) <= eps)
	       || (std::isnan(x) && std::isnan(y))
	       || (std::isinf(x) && std::isinf(y) && std::isnan(x - y));
}

namespace detail
{
template <typename Floating>
Floating wrap_floating(Floating x, Floating low, Floating high)
{
	if (low <= x && x < high) { return x; }

	const auto range = high - low;
	const auto inv_range = Floating(1) / range;
	const auto num_wraps = std::floor((x - low) * inv_range);
	return x - range * num_wraps;
}
}

inline float wrap(float x, float low, float high) { return detail::wrap_floating(x, low, high); }
inline double wrap(double x, double low, double high) { return detail::wrap_floating(x, low, high); }

template <typename Integer>
Integer wrap(Integer x, Integer low, Integer high)
{
	const auto range = high - low;

	if (x < low) { x += range * ((low - x) / range + 1); }

	return low + (x - low) % range;
}

template <typename Type> Type wrap_pi(Type x) { return wrap(x, Type(-M_PI), Type(M_PI)); }
template <typename Type> Type wrap_2pi(Type x) { return wrap(x, Type(0), Type(M_TWOPI)); }
template <typename Type> Type unwrap(const Type last, const Type now, const Type low, const Type high)
{ return last + wrap(now - last, low, high); }
template <typename Type> Type unwrap_pi(const Type last, const Type now) { return unwrap(last, now, Type(-M_PI), Type(M_PI)); }
template <typename T> int sign(T v) { return (T(0) < v) - (v < T(0)); }

template <typename Type> Type min(const Type x, const Type y)
{
	bool x_is_nan = std::isnan(x);
	bool y_is_nan = std::isnan(y);

	if (x_is_nan || y_is_nan) { return std::numeric_limits<Type>::quiet_NaN(); }

	return (x < y) ? x : y;
}

template <typename Type> Type max(const Type x, const Type y)
{
	bool x_is_nan = std::isnan(x);
	bool y_is_nan = std::isnan(y);

	if (x_is_nan || y_is_nan) { return std::numeric_limits<Type>::quiet_NaN(); }

	return (x > y) ? x : y;
}

template <typename Type> Type constrain(const Type x, const Type lower_bound, const Type upper_bound)
{
	if (lower_bound > upper_bound) { return std::numeric_limits<Type>::quiet_NaN(); }

	if (std::isnan(x)) { return std::numeric_limits<Type>::quiet_NaN(); }

	return matrix::max(lower_bound, matrix::min(upper_bound, x));
}

// ---------------------------------------------------------------- Matrix
template <typename Type, size_t M, size_t N>
class Matrix
{
	Type _data[M][N] {};

public:
	Matrix() = default;

	explicit Matrix(const Type data_[M * N])
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = data_[N * i + j]; } }
	}

	explicit Matrix(const Type data_[M][N])
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = data_[i][j]; } }
	}

	Matrix(const Matrix &other) = default;
	Matrix &operator=(const Matrix &other) = default;

	template <size_t P, size_t Q>
	Matrix(const Slice<Type, M, N, P, Q> &in_slice)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = in_slice(i, j); } }
	}

	inline const Type &operator()(size_t i, size_t j) const
	{
		if (i >= M || j >= N) { index_violation(i, j, M, N); }

		return _data[i][j];
	}

	inline Type &operator()(size_t i, size_t j)
	{
		if (i >= M || j >= N) { index_violation(i, j, M, N); }

		return _data[i][j];
	}

	Type *data() { return &_data[0][0]; }
	const Type *data() const { return &_data[0][0]; }

	template <size_t P>
	Matrix<Type, M, P> operator*(const Matrix<Type, N, P> &other) const
	{
		const Matrix<Type, M, N> &self = *this;
		Matrix<Type, M, P> res{};

		for (size_t i = 0; i < M; i++) {
			for (size_t k = 0; k < P; k++) {
				for (size_t j = 0; j < N; j++) {
					res(i, k) += self(i, j) * other(j, k);
				}
			}
		}

		return res;
	}

	template <size_t MM, size_t NN>
	Matrix<Type, M, MM> operator*(const Slice<Type, N, MM, NN, MM> &other) const
	{
		return (*this) * Matrix<Type, N, MM>(other);
	}

	Matrix<Type, M, N> emult(const Matrix<Type, M, N> &other) const
	{
		Matrix<Type, M, N> res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] * other(i, j); } }

		return res;
	}

	Matrix<Type, M, N> edivide(const Matrix<Type, M, N> &other) const
	{
		Matrix<Type, M, N> res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] / other(i, j); } }

		return res;
	}

	Matrix<Type, M, N> operator+(const Matrix<Type, M, N> &other) const
	{
		Matrix<Type, M, N> res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] + other(i, j); } }

		return res;
	}

	Matrix<Type, M, N> operator-(const Matrix<Type, M, N> &other) const
	{
		Matrix<Type, M, N> res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] - other(i, j); } }

		return res;
	}

	Matrix<Type, M, N> operator-() const
	{
		Matrix<Type, M, N> res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = -_data[i][j]; } }

		return res;
	}

	void operator+=(const Matrix<Type, M, N> &other)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] += other(i, j); } }
	}

	void operator-=(const Matrix<Type, M, N> &other)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] -= other(i, j); } }
	}

	template <size_t P>
	void operator*=(const Matrix<Type, N, P> &other)
	{
		Matrix<Type, M, N> &self = *this;
		self = self * other;
	}

	Matrix<Type, M, N> operator*(Type scalar) const
	{
		Matrix<Type, M, N> res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] * scalar; } }

		return res;
	}

	Matrix<Type, M, N> operator/(Type scalar) const { return (*this) * (1 / scalar); }

	Matrix<Type, M, N> operator+(Type scalar) const
	{
		Matrix<Type, M, N> res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] + scalar; } }

		return res;
	}

	Matrix<Type, M, N> operator-(Type scalar) const { return (*this) + (-1 * scalar); }

	void operator*=(Type scalar)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] *= scalar; } }
	}

	void operator/=(Type scalar)
	{
		Matrix<Type, M, N> &self = *this;
		self *= (Type(1.0f) / scalar);
	}

	void operator+=(Type scalar)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] += scalar; } }
	}

	void operator-=(Type scalar)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] -= scalar; } }
	}

	bool operator==(const Matrix<Type, M, N> &other) const
	{
		for (size_t i = 0; i < M; i++) {
			for (size_t j = 0; j < N; j++) {
				if (!isEqualF(_data[i][j], other(i, j))) { return false; }
			}
		}

		return true;
	}

	bool operator!=(const Matrix<Type, M, N> &other) const { return !(*this == other); }

	void copyTo(Type dst[M * N]) const { memcpy(dst, _data, sizeof(Type) * M * N); }
	void copyToColumnMajor(Type dst[M * N]) const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { dst[i + (j * M)] = _data[i][j]; } }
	}

	void write_string(char *buf, size_t n) const { if (n) { buf[0] = 0; } }

	void print() const
	{
		for (size_t i = 0; i < M; i++) {
			for (size_t j = 0; j < N; j++) { printf("\t%8.8g", double(_data[i][j])); }

			printf("\n");
		}
	}

	Matrix<Type, N, M> transpose() const
	{
		Matrix<Type, N, M> res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(j, i) = _data[i][j]; } }

		return res;
	}

	Matrix<Type, N, M> T() const { return transpose(); }

	template <size_t P, size_t Q>
	const Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) const { return {x0, y0, this}; }

	template <size_t P, size_t Q>
	Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) { return {x0, y0, this}; }

	const Slice<Type, 1, N, M, N> row(size_t i) const { return slice<1, N>(i, 0); }
	Slice<Type, 1, N, M, N> row(size_t i) { return slice<1, N>(i, 0); }
	const Slice<Type, M, 1, M, N> col(size_t j) const { return slice<M, 1>(0, j); }
	Slice<Type, M, 1, M, N> col(size_t j) { return slice<M, 1>(0, j); }

	void setRow(size_t i, const Matrix<Type, N, 1> &row_in) { slice<1, N>(i, 0) = row_in.transpose(); }
	void setRow(size_t i, Type val) { slice<1, N>(i, 0) = val; }
	void setCol(size_t j, const Matrix<Type, M, 1> &column) { slice<M, 1>(0, j) = column; }
	void setCol(size_t j, Type val) { slice<M, 1>(0, j) = val; }

	void setZero() { memset(_data, 0, sizeof(_data)); }
	void zero() { setZero(); }

	void setAll(Type val)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = val; } }
	}

	void setOne() { setAll(1); }
	void setNaN() { setAll(std::numeric_limits<Type>::quiet_NaN()); }

	void setIdentity()
	{
		setZero();
		const size_t min_i = M > N ? N : M;

		for (size_t i = 0; i < min_i; i++) { _data[i][i] = 1; }
	}

	void identity() { setIdentity(); }

	void swapRows(size_t a, size_t b)
	{
		if (a == b) { return; }

		for (size_t j = 0; j < N; j++) {
			Type tmp = (*this)(a, j);
			(*this)(a, j) = (*this)(b, j);
			(*this)(b, j) = tmp;
		}
	}

	void swapCols(size_t a, size_t b)
	{
		if (a == b) { return; }

		for (size_t i = 0; i < M; i++) {
			Type tmp = (*this)(i, a);
			(*this)(i, a) = (*this)(i, b);
			(*this)(i, b) = tmp;
		}
	}

	Matrix<Type, M, N> abs() const
	{
		Matrix<Type, M, N> r;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = Type(std::fabs(_data[i][j])); } }

		return r;
	}

	Type max() const
	{
		Type max_val = _data[0][0];

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (_data[i][j] > max_val) { max_val = _data[i][j]; } } }

		return max_val;
	}

	Type min() const
	{
		Type min_val = _data[0][0];

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (_data[i][j] < min_val) { min_val = _data[i][j]; } } }

		return min_val;
	}

	bool isAllNan() const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!std::isnan(_data[i][j])) { return false; } } }

		return true;
	}

	bool isAllFinite() const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!std::isfinite(_data[i][j])) { return false; } } }

		return true;
	}
};

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> zeros() { Matrix<Type, M, N> m; m.setZero(); return m; }
template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> ones() { Matrix<Type, M, N> m; m.setOne(); return m; }
template <size_t M, size_t N>
Matrix<float, M, N> nans() { Matrix<float, M, N> m; m.setNaN(); return m; }

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> operator*(Type scalar, const Matrix<Type, M, N> &other) { return other * scalar; }

template <typename Type, size_t M, size_t N>
bool isEqual(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &y, const Type eps = Type(1e-4f))
{
	for (size_t i = 0; i < M; i++) {
		for (size_t j = 0; j < N; j++) {
			if (!isEqualF(x(i, j), y(i, j), eps)) { return false; }
		}
	}

	return true;
}

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> min(const Matrix<Type, M, N> &x, const Type scalar_upper_bound)
{
	Matrix<Type, M, N> m;

	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = min(x(i, j), scalar_upper_bound); } }

	return m;
}

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> min(const Type scalar_upper_bound, const Matrix<Type, M, N> &x) { return min(x, scalar_upper_bound); }

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> min(const Matrix<Type, M, N> &x1, const Matrix<Type, M, N> &x2)
{
	Matrix<Type, M, N> m;

	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = min(x1(i, j), x2(i, j)); } }

	return m;
}

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> max(const Matrix<Type, M, N> &x, const Type scalar_lower_bound)
{
	Matrix<Type, M, N> m;

	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = max(x(i, j), scalar_lower_bound); } }

	return m;
}

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> max(const Type scalar_lower_bound, const Matrix<Type, M, N> &x) { return max(x, scalar_lower_bound); }

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> max(const Matrix<Type, M, N> &x1, const Matrix<Type, M, N> &x2)
{
	Matrix<Type, M, N> m;

	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = max(x1(i, j), x2(i, j)); } }

	return m;
}

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Type scalar_lower_bound, const Type scalar_upper_bound)
{
	Matrix<Type, M, N> m;

	if (scalar_lower_bound > scalar_upper_bound) {
		m.setNaN();

	} else {
		for (size_t i = 0; i < M; i++) {
			for (size_t j = 0; j < N; j++) { m(i, j) = matrix::constrain(x(i, j), scalar_lower_bound, scalar_upper_bound); }
		}
	}

	return m;
}

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &x_lower_bound,
			     const Matrix<Type, M, N> &x_upper_bound)
{
	Matrix<Type, M, N> m;

	for (size_t i = 0; i < M; i++) {
		for (size_t j = 0; j < N; j++) { m(i, j) = matrix::constrain(x(i, j), x_lower_bound(i, j), x_upper_bound(i, j)); }
	}

	return m;
}

template <typename OStream, typename Type, size_t M, size_t N>
OStream &operator<<(OStream &os, const matrix::Matrix<Type, M, N> &m)
{
	os << "\n";

	for (size_t i = 0; i < M; ++i) {
		os << "[";

		for (size_t j = 0; j < N; ++j) { os << " " << static_cast<double>(m(i, j)) << "\t"; }

		os << "]\n";
	}

	return os;
}

// ---------------------------------------------------------------- Slice
template <typename Type, size_t P, size_t Q, size_t M, size_t N>
class Slice
{
	size_t _x0, _y0;
	Matrix<Type, M, N> *_data;

public:
	Slice(size_t x0, size_t y0, const Matrix<Type, M, N> *data) :
		_x0(x0), _y0(y0), _data(const_cast<Matrix<Type, M, N>*>(data))
	{
		static_assert(P <= M, "Slice rows bigger than backing matrix");
		static_assert(Q <= N, "Slice cols bigger than backing matrix");

		if (x0 + P > M || y0 + Q > N) { index_violation(x0 + P, y0 + Q, M, N); }
	}

	Slice(const Slice &other) = default;

	const Type &operator()(size_t i, size_t j) const
	{
		if (i >= P || j >= Q) { index_violation(i, j, P, Q); }

		return static_cast<const Matrix<Type, M, N>&>(*_data)(_x0 + i, _y0 + j);
	}

	Type &operator()(size_t i, size_t j)
	{
		if (i >= P || j >= Q) { index_violation(i, j, P, Q); }

		return (*_data)(_x0 + i, _y0 + j);
	}

	// column slices may be indexed with one argument
	const Type &operator()(size_t i) const
	{
		return Q == 1 ? (*this)(i, 0) : (*this)(0, i);
	}
	Type &operator()(size_t i)
	{
		return Q == 1 ? (*this)(i, 0) : (*this)(0, i);
	}

	template <size_t MM, size_t NN>
	Slice<Type, P, Q, M, N> &operator=(const Slice<Type, P, Q, MM, NN> &other)
	{
		const Matrix<Type, P, Q> tmp(other);
		return (*this) = tmp;
	}

	Slice<Type, P, Q, M, N> &operator=(const Slice<Type, P, Q, M, N> &other)
	{
		const Matrix<Type, P, Q> tmp(other);
		return (*this) = tmp;
	}

	Slice<Type, P, Q, M, N> &operator=(const Matrix<Type, P, Q> &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other(i, j); } }

		return *this;
	}

	Slice<Type, P, Q, M, N> &operator=(const Type &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other; } }

		return *this;
	}

	// allow assigning vectors to a slice that are in the axis
	template <size_t DUMMY = 1>
	Slice<Type, 1, Q, M, N> &operator=(const Vector<Type, Q> &other)
	{
		for (size_t j = 0; j < Q; j++) { (*this)(0, j) = other(j); }

		return *this;
	}

#define ECLV_SLICE_OP(OP) \
	template <size_t MM, size_t NN> \
	Slice<Type, P, Q, M, N> &operator OP(const Slice<Type, P, Q, MM, NN> &other) \
	{ \
		const Matrix<Type, P, Q> tmp(other); \
		return (*this) OP tmp; \
	} \
	Slice<Type, P, Q, M, N> &operator OP(const Matrix<Type, P, Q> &other) \
	{ \
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) OP other(i, j); } } \
		return *this; \
	} \
	Slice<Type, P, Q, M, N> &operator OP(const Type &other) \
	{ \
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) OP other; } } \
		return *this; \
	}
	ECLV_SLICE_OP( +=)
	ECLV_SLICE_OP( -=)
#undef ECLV_SLICE_OP

	Slice<Type, P, Q, M, N> &operator*=(const Type &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) *= other; } }

		return *this;
	}

	Slice<Type, P, Q, M, N> &operator/=(const Type &other) { return (*this) *= Type(1) / other; }

	Matrix<Type, P, Q> operator*(const Type &other) const { return Matrix<Type, P, Q>(*this) * other; }
	Matrix<Type, P, Q> operator/(const Type &other) const { return (*this) * (Type(1) / other); }
	Matrix<Type, P, Q> operator-() const { return -Matrix<Type, P, Q>(*this); }
	Matrix<Type, P, Q> operator+(const Matrix<Type, P, Q> &other) const { return Matrix<Type, P, Q>(*this) + other; }
	Matrix<Type, P, Q> operator-(const Matrix<Type, P, Q> &other) const { return Matrix<Type, P, Q>(*this) - other; }

	template <size_t R, size_t S>
	const Slice<Type, R, S, M, N> slice(size_t x0, size_t y0) const { return Slice<Type, R, S, M, N>(x0 + _x0, y0 + _y0, _data); }
	template <size_t R, size_t S>
	Slice<Type, R, S, M, N> slice(size_t x0, size_t y0) { return Slice<Type, R, S, M, N>(x0 + _x0, y0 + _y0, _data); }

	void copyTo(Type dst[P * Q]) const
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { dst[i * Q + j] = (*this)(i, j); } }
	}

	Vector < Type, (P < Q ? P : Q) > diag() const
	{
		Vector < Type, (P < Q ? P : Q) > res;

		for (size_t j = 0; j < (P < Q ? P : Q); j++) { res(j) = (*this)(j, j); }

		return res;
	}

	Type norm_squared() const
	{
		Type accum(0);

		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { accum += (*this)(i, j) * (*this)(i, j); } }

		return accum;
	}

	Type norm() const { return std::sqrt(norm_squared()); }
	Type length() const { return norm(); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
	Type max() const { return Matrix<Type, P, Q>(*this).max(); }
	Type min() const { return Matrix<Type, P, Q>(*this).min(); }

	template <size_t R>
	Matrix<Type, P, R> operator*(const Matrix<Type, Q, R> &other) const { return Matrix<Type, P, Q>(*this) * other; }
	Matrix<Type, Q, P> transpose() const { return Matrix<Type, P, Q>(*this).transpose(); }
	bool operator==(const Matrix<Type, P, Q> &other) const { return Matrix<Type, P, Q>(*this) == other; }
};

template <typename Type, size_t P, size_t Q, size_t M, size_t N>
Matrix<Type, P, Q> operator*(Type scalar, const Slice<Type, P, Q, M, N> &other) { return other * scalar; }

// ---------------------------------------------------------------- Vector
template <typename Type, size_t M>
class Vector : public Matrix<Type, M, 1>
{
public:
	typedef Matrix<Type, M, 1> MatrixM1;

	Vector() = default;
	Vector(const MatrixM1 &other) : MatrixM1(other) {}
	explicit Vector(const Type data_[M]) : MatrixM1(data_) {}

	template <size_t P, size_t Q>
	Vector(const Slice<Type, M, 1, P, Q> &slice_in) : Matrix<Type, M, 1>(slice_in) {}

	template <size_t P, size_t Q, size_t DUMMY = 1>
	Vector(const Slice<Type, 1, M, P, Q> &slice_in)
	{
		for (size_t i = 0; i < M; i++) { (*this)(i) = slice_in(0, i); }
	}

	const Type &operator()(size_t i) const
	{
		const MatrixM1 &v = *this;
		return v(i, 0);
	}

	Type &operator()(size_t i)
	{
		MatrixM1 &v = *this;
		return v(i, 0);
	}

	const Type &operator()(size_t i, size_t j) const { return MatrixM1::operator()(i, j); }
	Type &operator()(size_t i, size_t j) { return MatrixM1::operator()(i, j); }

	Type dot(const MatrixM1 &b) const
	{
		Type r(0);

		for (size_t i = 0; i < M; i++) { r += (*this)(i) * b(i, 0); }

		return r;
	}

	Type operator*(const MatrixM1 &b) const { return dot(b); }
	Vector operator*(Type b) const { return Vector(MatrixM1::operator*(b)); }

	Type norm() const { return Type(std::sqrt(dot(*this))); }
	Type norm_squared() const { return dot(*this); }
	Type length() const { return norm(); }
	void normalize() { (*this) /= norm(); }
	Vector unit() const { return (*this) / norm(); }
	Vector unit_or_zero(const Type eps = Type(1e-5)) const
	{
		const Type n = norm();

		if (n > eps) { return (*this) / n; }

		return Vector();
	}
	Vector normalized() const { return unit(); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }

	Vector sqrt() const
	{
		Vector r;

		for (size_t i = 0; i < M; i++) { r(i) = Type(std::sqrt((*this)(i))); }

		return r;
	}

	void print() const { this->transpose().print(); }
};

template <typename OStream, typename Type, size_t M>
OStream &operator<<(OStream &os, const matrix::Vector<Type, M> &vector)
{
	os << "\n[";

	for (size_t i = 0; i < M; ++i) { os << " " << static_cast<double>(vector(i)) << "\t"; }

	os << "]\n";
	return os;
}

// ---------------------------------------------------------------- SquareMatrix
template <typename Type, size_t M>
class SquareMatrix : public Matrix<Type, M, M>
{
public:
	SquareMatrix() = default;
	explicit SquareMatrix(const Type data_[M][M]) : Matrix<Type, M, M>(data_) {}
	explicit SquareMatrix(const Type data_[M * M]) : Matrix<Type, M, M>(data_) {}
	SquareMatrix(const Matrix<Type, M, M> &other) : Matrix<Type, M, M>(other) {}

	template <size_t P, size_t Q>
	SquareMatrix(const Slice<Type, M, M, P, Q> &in_slice) : Matrix<Type, M, M>(in_slice) {}

	SquareMatrix<Type, M> &operator=(const Matrix<Type, M, M> &other)
	{
		Matrix<Type, M, M>::operator=(other);
		return *this;
	}

	template <size_t P, size_t Q>
	SquareMatrix<Type, M> &operator=(const Slice<Type, M, M, P, Q> &in_slice)
	{
		Matrix<Type, M, M>::operator=(Matrix<Type, M, M>(in_slice));
		return *this;
	}

	SquareMatrix<Type, M> I() const
	{
		SquareMatrix<Type, M> a(*this), res;
		res.setIdentity();

		for (size_t n = 0; n < M; n++) {
			size_t piv = n;

			for (size_t i = n + 1; i < M; i++) { if (std::fabs(a(i, n)) > std::fabs(a(piv, n))) { piv = i; } }

			if (!(std::fabs(a(piv, n)) > Type(0))) { SquareMatrix<Type, M> z; z.setZero(); return z; }

			a.swapRows(piv, n);
			res.swapRows(piv, n);
			const Type inv = Type(1) / a(n, n);

			for (size_t j = 0; j < M; j++) { a(n, j) *= inv; res(n, j) *= inv; }

			for (size_t i = 0; i < M; i++) {
				if (i != n) {
					const Type f = a(i, n);

					for (size_t j = 0; j < M; j++) { a(i, j) -= f * a(n, j); res(i, j) -= f * res(n, j); }
				}
			}
		}

		return res;
	}

	SquareMatrix<Type, M> inverse() const { return I(); }
	bool I(SquareMatrix<Type, M> &i) const { i = I(); return true; }

	Vector<Type, M> diag() const
	{
		Vector<Type, M> res;

		for (size_t i = 0; i < M; i++) { res(i) = (*this)(i, i); }

		return res;
	}

	Vector < Type, M *(M + 1) / 2 > upper_right_triangle() const
	{
		Vector < Type, M *(M + 1) / 2 > res;
		size_t idx = 0;

		for (size_t x = 0; x < M; x++) { for (size_t y = x; y < M; y++) { res(idx) = (*this)(x, y); ++idx; } }

		return res;
	}

	Type trace() const
	{
		Type res = 0;

		for (size_t i = 0; i < M; i++) { res += (*this)(i, i); }

		return res;
	}

	template <size_t Width>
	Type trace(size_t first) const
	{
		Type res = 0;

		for (size_t i = 0; i < Width; i++) { res += (*this)(first + i, first + i); }

		return res;
	}

	template <size_t Width>
	void uncorrelateCovariance(size_t first)
	{
		Vector<Type, Width> d;

		for (size_t i = 0; i < Width; i++) { d(i) = (*this)(first + i, first + i); }

		uncorrelateCovarianceSetVariance<Width>(first, d);
	}

	template <size_t Width>
	void uncorrelateCovarianceSetVariance(size_t first, const Vector<Type, Width> &vec)
	{
		this->template slice<Width, M>(first, 0) = Type(0);
		this->template slice<M, Width>(0, first) = Type(0);

		for (size_t i = 0; i < Width; i++) { (*this)(first + i, first + i) = vec(i); }
	}

	template <size_t Width>
	void uncorrelateCovarianceSetVariance(size_t first, Type val)
	{
		this->template slice<Width, M>(first, 0) = Type(0);
		this->template slice<M, Width>(0, first) = Type(0);

		for (size_t i = 0; i < Width; i++) { (*this)(first + i, first + i) = val; }
	}

	template <size_t Width>
	void makeBlockSymmetric(size_t first)
	{
		for (size_t row_idx = first + 1; row_idx < first + Width; row_idx++) {
			for (size_t col_idx = first; col_idx < row_idx; col_idx++) {
				const Type tmp = ((*this)(row_idx, col_idx) + (*this)(col_idx, row_idx)) / Type(2);
				(*this)(row_idx, col_idx) = tmp;
				(*this)(col_idx, row_idx) = tmp;
			}
		}
	}

	template <size_t Width>
	void makeRowColSymmetric(size_t first)
	{
		makeBlockSymmetric<Width>(first);

		for (size_t row_idx = first; row_idx < first + Width; row_idx++) {
			for (size_t col_idx = 0; col_idx < M; col_idx++) {
				if (col_idx >= first && col_idx < first + Width) { continue; }

				const Type tmp = ((*this)(row_idx, col_idx) + (*this)(col_idx, row_idx)) / Type(2);
				(*this)(row_idx, col_idx) = tmp;
				(*this)(col_idx, row_idx) = tmp;
			}
		}
	}

	template <size_t Width>
	bool isBlockSymmetric(size_t first, const Type eps = Type(1e-8f))
	{
		for (size_t row_idx = first + 1; row_idx < first + Width; row_idx++) {
			for (size_t col_idx = first; col_idx < row_idx; col_idx++) {
				if (!isEqualF((*this)(row_idx, col_idx), (*this)(col_idx, row_idx), eps)) { return false; }
			}
		}

		return true;
	}

	template <size_t Width>
	bool isRowColSymmetric(size_t first, const Type eps = Type(1e-8f))
	{
		for (size_t row_idx = first; row_idx < first + Width; row_idx++) {
			for (size_t col_idx = 0; col_idx < M; col_idx++) {
				if (!isEqualF((*this)(row_idx, col_idx), (*this)(col_idx, row_idx), eps)) { return false; }
			}
		}

		return true;
	}
};

template <typename Type, size_t M>
SquareMatrix<Type, M> eye()
{
	SquareMatrix<Type, M> m;
	m.setIdentity();
	return m;
}

template <typename Type, size_t M>
SquareMatrix<Type, M> diag(Vector<Type, M> d)
{
	SquareMatrix<Type, M> m;

	for (size_t i = 0; i < M; i++) { m(i, i) = d(i); }

	return m;
}

template <typename Type, size_t M>
SquareMatrix<Type, M> inv(const SquareMatrix<Type, M> &A) { return A.I(); }
template <typename Type, size_t M>
bool inv(const SquareMatrix<Type, M> &A, SquareMatrix<Type, M> &R, size_t = M) { R = A.I(); return true; }

// ---------------------------------------------------------------- Vector2 / Vector3
template <typename Type>
class Vector2 : public Vector<Type, 2>
{
public:
	using Matrix21 = Matrix<Type, 2, 1>;
	using Vector3T = Matrix<Type, 3, 1>;

	Vector2() = default;
	Vector2(const Matrix21 &other) : Vector<Type, 2>(other) {}
	explicit Vector2(const Type data_[2]) : Vector<Type, 2>(data_) {}
	Vector2(Type x, Type y)
	{
		(*this)(0) = x;
		(*this)(1) = y;
	}

	template <size_t P, size_t Q>
	Vector2(const Slice<Type, 2, 1, P, Q> &slice_in) : Vector<Type, 2>(slice_in) {}
	template <size_t P, size_t Q, size_t DUMMY = 1>
	Vector2(const Slice<Type, 1, 2, P, Q> &slice_in) : Vector<Type, 2>(slice_in) {}
	explicit Vector2(const Vector3T &other)
	{
		(*this)(0) = other(0, 0);
		(*this)(1) = other(1, 0);
	}

	Type cross(const Matrix21 &b) const { return (*this)(0) * b(1, 0) - (*this)(1) * b(0, 0); }
	Type operator%(const Matrix21 &b) const { return cross(b); }
};

template <typename Type>
class Vector3 : public Vector<Type, 3>
{
public:
	using Matrix31 = Matrix<Type, 3, 1>;

	Vector3() = default;
	Vector3(const Matrix31 &other) : Vector<Type, 3>(other) {}
	explicit Vector3(const Type data_[3]) : Vector<Type, 3>(data_) {}
	Vector3(Type x, Type y, Type z)
	{
		(*this)(0) = x;
		(*this)(1) = y;
		(*this)(2) = z;
	}

	template <size_t P, size_t Q>
	Vector3(const Slice<Type, 3, 1, P, Q> &slice_in) : Vector<Type, 3>(slice_in) {}
	template <size_t P, size_t Q, size_t DUMMY = 1>
	Vector3(const Slice<Type, 1, 3, P, Q> &slice_in) : Vector<Type, 3>(slice_in) {}

	Vector3 cross(const Matrix31 &b) const
	{
		const Vector3 &a(*this);
		return {a(1) *b(2, 0) - a(2) *b(1, 0), -a(0) *b(2, 0) + a(2) *b(0, 0), a(0) *b(1, 0) - a(1) *b(0, 0)};
	}

	inline Vector3 operator+(Vector3 other) const { return Matrix31::operator+(other); }
	inline Vector3 operator+(Type scalar) const { return Matrix31::operator+(scalar); }
	inline Vector3 operator-(Vector3 other) const { return Matrix31::operator-(other); }
	inline Vector3 operator-(Type scalar) const { return Matrix31::operator-(scalar); }
	inline Vector3 operator-() const { return Matrix31::operator-(); }
	inline Vector3 operator*(Type scalar) const { return Matrix31::operator*(scalar); }
	inline Type operator*(Vector3 b) const { return Vector<Type, 3>::operator*(b); }
	inline Vector3 operator%(const Matrix31 &b) const { return cross(b); }

	Vector3 unit() const { return Vector3(Vector<Type, 3>::unit()); }
	Vector3 normalized() const { return unit(); }

	const Slice<Type, 2, 1, 3, 1> xy() const { return Slice<Type, 2, 1, 3, 1>(0, 0, this); }
	Slice<Type, 2, 1, 3, 1> xy() { return Slice<Type, 2, 1, 3, 1>(0, 0, this); }

	Dcm<Type> hat() const
	{
		const Vector3 &v(*this);
		Dcm<Type> A;
		A(0, 0) = 0; A(0, 1) = -v(2); A(0, 2) = v(1);
		A(1, 0) = v(2); A(1, 1) = 0; A(1, 2) = -v(0);
		A(2, 0) = -v(1); A(2, 1) = v(0); A(2, 2) = 0;
		return A;
	}
};

// ---------------------------------------------------------------- rotations
template <typename Type>
class Dcm : public SquareMatrix<Type, 3>
{
public:
	Dcm() { (*this) = eye<Type, 3>(); }
	explicit Dcm(const Type data_[3][3]) : SquareMatrix<Type, 3>(data_) {}
	explicit Dcm(const Type data_[9]) : SquareMatrix<Type, 3>(data_) {}
	Dcm(const Matrix<Type, 3, 3> &other) : SquareMatrix<Type, 3>(other) {}

	Dcm(const Quaternion<Type> &q)
	{
		Dcm &dcm = *this;
		const Type a = q(0);
		const Type b = q(1);
		const Type c = q(2);
		const Type d = q(3);
		const Type aa = a * a;
		const Type ab = a * b;
		const Type ac = a * c;
		const Type ad = a * d;
		const Type bb = b * b;
		const Type bc = b * c;
		const Type bd = b * d;
		const Type cc = c * c;
		const Type cd = c * d;
		const Type dd = d * d;
		dcm(0, 0) = aa + bb - cc - dd;
		dcm(0, 1) = Type(2) * (bc - ad);
		dcm(0, 2) = Type(2) * (ac + bd);
		dcm(1, 0) = Type(2) * (bc + ad);
		dcm(1, 1) = aa - bb + cc - dd;
		dcm(1, 2) = Type(2) * (cd - ab);
		dcm(2, 0) = Type(2) * (bd - ac);
		dcm(2, 1) = Type(2) * (ab + cd);
		dcm(2, 2) = aa - bb - cc + dd;
	}

	Dcm(const Euler<Type> &euler)
	{
		Dcm &dcm = *this;
		const Type cosPhi = Type(std::cos(euler.phi()));
		const Type sinPhi = Type(std::sin(euler.phi()));
		const Type cosThe = Type(std::cos(euler.theta()));
		const Type sinThe = Type(std::sin(euler.theta()));
		const Type cosPsi = Type(std::cos(euler.psi()));
		const Type sinPsi = Type(std::sin(euler.psi()));
		dcm(0, 0) = cosThe * cosPsi;
		dcm(0, 1) = -cosPhi * sinPsi + sinPhi * sinThe * cosPsi;
		dcm(0, 2) = sinPhi * sinPsi + cosPhi * sinThe * cosPsi;
		dcm(1, 0) = cosThe * sinPsi;
		dcm(1, 1) = cosPhi * cosPsi + sinPhi * sinThe * sinPsi;
		dcm(1, 2) = -sinPhi * cosPsi + cosPhi * sinThe * sinPsi;
		dcm(2, 0) = -sinThe;
		dcm(2, 1) = sinPhi * cosThe;
		dcm(2, 2) = cosPhi * cosThe;
	}

	Dcm(const AxisAngle<Type> &aa) { (*this) = Dcm(Quaternion<Type>(aa)); }

	Vector<Type, 3> vee() const
	{
		const Dcm &A(*this);
		Vector<Type, 3> v;
		v(0) = -A(1, 2);
		v(1) = A(0, 2);
		v(2) = -A(0, 1);
		return v;
	}

	void renormalize()
	{
		for (size_t r = 0; r < 3; r++) {
			Vector3<Type> rvec(Matrix<Type, 1, 3>(this->row(r)).transpose());
			rvec.normalize();
			this->setRow(r, rvec);
		}
	}
};

template <typename Type>
class Quaternion : public Vector<Type, 4>
{
public:
	Quaternion()
	{
		Quaternion &q = *this;
		q(0) = 1;
		q(1) = 0;
		q(2) = 0;
		q(3) = 0;
	}
	explicit Quaternion(const Type data_[4]) : Vector<Type, 4>(data_) {}
	Quaternion(const Matrix<Type, 4, 1> &other) : Vector<Type, 4>(other) {}

	Quaternion(const Dcm<Type> &R)
	{
		Quaternion &q = *this;
		Type t = R.trace();

		if (t > Type(0)) {
			t = Type(std::sqrt(Type(1) + t));
			q(0) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(1) = (R(2, 1) - R(1, 2)) * t;
			q(2) = (R(0, 2) - R(2, 0)) * t;
			q(3) = (R(1, 0) - R(0, 1)) * t;

		} else if (R(0, 0) > R(1, 1) && R(0, 0) > R(2, 2)) {
			t = Type(std::sqrt(Type(1) + R(0, 0) - R(1, 1) - R(2, 2)));
			q(1) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(2, 1) - R(1, 2)) * t;
			q(2) = (R(1, 0) + R(0, 1)) * t;
			q(3) = (R(0, 2) + R(2, 0)) * t;

		} else if (R(1, 1) > R(2, 2)) {
			t = Type(std::sqrt(Type(1) - R(0, 0) + R(1, 1) - R(2, 2)));
			q(2) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(0, 2) - R(2, 0)) * t;
			q(1) = (R(1, 0) + R(0, 1)) * t;
			q(3) = (R(2, 1) + R(1, 2)) * t;

		} else {
			t = Type(std::sqrt(Type(1) - R(0, 0) - R(1, 1) + R(2, 2)));
			q(3) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(1, 0) - R(0, 1)) * t;
			q(1) = (R(0, 2) + R(2, 0)) * t;
			q(2) = (R(2, 1) + R(1, 2)) * t;
		}
	}

	Quaternion(const Euler<Type> &euler)
	{
		Quaternion &q = *this;
		const Type cosPhi_2 = Type(std::cos(euler.phi() / Type(2)));
		const Type cosTheta_2 = Type(std::cos(euler.theta() / Type(2)));
		const Type cosPsi_2 = Type(std::cos(euler.psi() / Type(2)));
		const Type sinPhi_2 = Type(std::sin(euler.phi() / Type(2)));
		const Type sinTheta_2 = Type(std::sin(euler.theta() / Type(2)));
		const Type sinPsi_2 = Type(std::sin(euler.psi() / Type(2)));
		q(0) = cosPhi_2 * cosTheta_2 * cosPsi_2 + sinPhi_2 * sinTheta_2 * sinPsi_2;
		q(1) = sinPhi_2 * cosTheta_2 * cosPsi_2 - cosPhi_2 * sinTheta_2 * sinPsi_2;
		q(2) = cosPhi_2 * sinTheta_2 * cosPsi_2 + sinPhi_2 * cosTheta_2 * sinPsi_2;
		q(3) = cosPhi_2 * cosTheta_2 * sinPsi_2 - sinPhi_2 * sinTheta_2 * cosPsi_2;
	}

	Quaternion(const AxisAngle<Type> &aa)
	{
		Quaternion &q = *this;
		const Type angle = aa.norm();

		if (angle < Type(1e-10)) {
			q(0) = Type(1.0);
			q(1) = q(2) = q(3) = 0;

		} else {
			const Vector<Type, 3> axis = aa.unit();
			const Type magnitude = Type(std::sin(angle / Type(2)));
			q(0) = Type(std::cos(angle / Type(2)));
			q(1) = axis(0) * magnitude;
			q(2) = axis(1) * magnitude;
			q(3) = axis(2) * magnitude;
		}
	}

	Quaternion(const Vector3<Type> &src, const Vector3<Type> &dst, const Type eps = Type(1e-5))
	{
		Quaternion &q = *this;
		Vector3<Type> cr = src.cross(dst);
		const Type dt = src.dot(dst);

		if (cr.norm() < eps && dt < Type(0)) {
			cr = src.abs();

			if (cr(0) < cr(1)) {
				if (cr(0) < cr(2)) { cr = Vector3<Type>(1, 0, 0); } else { cr = Vector3<Type>(0, 0, 1); }

			} else {
				if (cr(1) < cr(2)) { cr = Vector3<Type>(0, 1, 0); } else { cr = Vector3<Type>(0, 0, 1); }
			}

			q(0) = Type(0);
			cr = src.cross(cr);

		} else {
			q(0) = dt + Type(std::sqrt(src.norm_squared() * dst.norm_squared()));
		}

		q(1) = cr(0);
		q(2) = cr(1);
		q(3) = cr(2);
		q.normalize();
	}

	Quaternion(Type a, Type b, Type c, Type d)
	{
		Quaternion &q = *this;
		q(0) = a;
		q(1) = b;
		q(2) = c;
		q(3) = d;
	}

	Quaternion operator*(const Quaternion &p) const
	{
		const Quaternion &q = *this;
		return {
			q(0) *p(0) - q(1) *p(1) - q(2) *p(2) - q(3) *p(3),
			q(1) *p(0) + q(0) *p(1) - q(3) *p(2) + q(2) *p(3),
			q(2) *p(0) + q(3) *p(1) + q(0) *p(2) - q(1) *p(3),
			q(3) *p(0) - q(2) *p(1) + q(1) *p(2) + q(0) *p(3)
		};
	}

	void operator*=(const Quaternion &other)
	{
		Quaternion &self = *this;
		self = self * other;
	}

	Quaternion operator*(Type scalar) const { return Quaternion(Matrix<Type, 4, 1>::operator*(scalar)); }
	void operator*=(Type scalar) { *this = *this * scalar; }

	Quaternion inversed() const
	{
		const Quaternion &q = *this;
		const Type normSq = q.dot(q);
		return Quaternion(q(0) / normSq, -q(1) / normSq, -q(2) / normSq, -q(3) / normSq);
	}
	void invert() { *this = inversed(); }
	Quaternion inverse() const { return inversed(); }

	void canonicalize() { *this = canonical(); }
	Quaternion canonical() const
	{
		const Quaternion &q = *this;

		for (size_t i = 0; i < 4; i++) {
			if (std::fabs(q(i)) > FLT_EPSILON) { return q * Type(matrix::sign(q(i))); }
		}

		return q;
	}

	void rotate(const AxisAngle<Type> &vec)
	{
		Quaternion res(vec);
		(*this) = res * (*this);
	}

	Vector3<Type> conjugate(const Vector3<Type> &vec) const
	{
		const Quaternion &q = *this;
		Quaternion v(Type(0), vec(0), vec(1), vec(2));
		Quaternion res = q * v * q.inversed();
		return Vector3<Type>(res(1), res(2), res(3));
	}
	Vector3<Type> conjugate_inversed(const Vector3<Type> &vec) const
	{
		const Quaternion &q = *this;
		Quaternion v(Type(0), vec(0), vec(1), vec(2));
		Quaternion res = q.inversed() * v * q;
		return Vector3<Type>(res(1), res(2), res(3));
	}
	Vector3<Type> rotateVector(const Vector3<Type> &vec) const { return conjugate(vec); }
	Vector3<Type> rotateVectorInverse(const Vector3<Type> &vec) const { return conjugate_inversed(vec); }

	Vector3<Type> imag() const
	{
		const Quaternion &q = *this;
		return Vector3<Type>(q(1), q(2), q(3));
	}

	Vector3<Type> dcm_z() const
	{
		const Quaternion &q = *this;
		return Vector3<Type>(Type(2) * (q(0) * q(2) + q(1) * q(3)), Type(2) * (q(2) * q(3) - q(0) * q(1)),
				     q(0) * q(0) - q(1) * q(1) - q(2) * q(2) + q(3) * q(3));
	}

	Quaternion unit() const { return Quaternion(Vector<Type, 4>::unit()); }
	Quaternion normalized() const { return unit(); }

	Matrix<Type, 4, 1> derivative1(const Matrix<Type, 3, 1> &w) const
	{
		Quaternion v(0, w(0, 0), w(1, 0), w(2, 0));
		return (*this) * v * Type(0.5);
	}
};

template <typename Type>
class Euler : public Vector<Type, 3>
{
public:
	Euler() = default;
	Euler(const Vector<Type, 3> &other) : Vector<Type, 3>(other) {}
	Euler(const Matrix<Type, 3, 1> &other) : Vector<Type, 3>(other) {}
	Euler(Type phi_, Type theta_, Type psi_)
	{
		phi() = phi_;
		theta() = theta_;
		psi() = psi_;
	}

	Euler(const Dcm<Type> &dcm)
	{
		theta() = Type(std::asin(-dcm(2, 0)));

		if ((std::fabs(theta() - Type(M_PI / 2))) < Type(1.0e-3)) {
			phi() = 0;
			psi() = Type(std::atan2(dcm(1, 2), dcm(0, 2)));

		} else if ((std::fabs(theta() + Type(M_PI / 2))) < Type(1.0e-3)) {
			phi() = 0;
			psi() = Type(std::atan2(-dcm(1, 2), -dcm(0, 2)));

		} else {
			phi() = Type(std::atan2(dcm(2, 1), dcm(2, 2)));
			psi() = Type(std::atan2(dcm(1, 0), dcm(0, 0)));
		}
	}

	Euler(const Quaternion<Type> &q) { *this = Euler(Dcm<Type>(q)); }

	inline Type phi() const { return (*this)(0); }
	inline Type theta() const { return (*this)(1); }
	inline Type psi() const { return (*this)(2); }
	inline Type &phi() { return (*this)(0); }
	inline Type &theta() { return (*this)(1); }
	inline Type &psi() { return (*this)(2); }
};

template <typename Type>
class AxisAngle : public Vector<Type, 3>
{
public:
	AxisAngle() = default;
	explicit AxisAngle(const Type data_[3]) : Vector<Type, 3>(data_) {}
	AxisAngle(const Matrix<Type, 3, 1> &other) : Vector<Type, 3>(other) {}

	AxisAngle(const Quaternion<Type> &q)
	{
		AxisAngle &v = *this;
		Type mag = q.imag().norm();

		if (std::fabs(mag) >= Type(1e-10)) {
			v = q.imag() * Type(Type(2) * std::atan2(mag, q(0)) / mag);

		} else {
			v = q.imag() * Type(Type(2) * Type(matrix::sign(q(0))));
		}
	}

	AxisAngle(const Dcm<Type> &dcm) { *this = AxisAngle(Quaternion<Type>(dcm)); }
	AxisAngle(const Euler<Type> &euler) { *this = AxisAngle(Quaternion<Type>(euler)); }
	AxisAngle(Type x, Type y, Type z)
	{
		(*this)(0) = x;
		(*this)(1) = y;
		(*this)(2) = z;
	}
	AxisAngle(const Matrix<Type, 3, 1> &axis_, Type angle_)
	{
		Vector<Type, 3> a = axis_;
		a = a.unit();
		a = a * angle_;
		(*this) = AxisAngle(a);
	}

	Vector<Type, 3> axis()
	{
		if (Vector<Type, 3>::norm() > 0) { return Vector<Type, 3>::unit(); }

		return Vector3<Type>(1, 0, 0);
	}
	Type angle() { return Vector<Type, 3>::norm(); }
};

// ---------------------------------------------------------------- sparse vector
template <int N>
struct force_constexpr_eval { static const int value = N; };

template <typename Type, size_t M, size_t... Idxs>
class SparseVector
{
private:
	static constexpr size_t N = sizeof...(Idxs);
	static constexpr size_t _indices[N] {Idxs...};

	Type _data[N] {};

	static constexpr int findCompressedIndex(size_t index)
	{
		for (size_t i = 0; i < N; i++) { if (_indices[i] == index) { return static_cast<int>(i); } }

		return -1;
	}

public:
	constexpr size_t non_zeros() const { return N; }
	constexpr size_t index(size_t i) const { return SparseVector::_indices[i]; }

	SparseVector() = default;
	SparseVector(const matrix::Vector<Type, M> &data)
	{
		for (size_t i = 0; i < N; i++) { _data[i] = data(_indices[i]); }
	}
	explicit SparseVector(const Type data[N]) { memcpy(_data, data, sizeof(_data)); }

	template <size_t i>
	inline Type at() const
	{
		static constexpr int compressed_index = findCompressedIndex(i);
		static_assert(compressed_index >= 0, "cannot access unpopulated indices");
		return _data[compressed_index];
	}

	template <size_t i>
	inline Type &at()
	{
		static constexpr int compressed_index = findCompressedIndex(i);
		static_assert(compressed_index >= 0, "cannot access unpopulated indices");
		return _data[compressed_index];
	}

	inline Type atCompressedIndex(size_t i) const
	{
		if (i >= N) { index_violation(i, 0, N, 1); }

		return _data[i];
	}
	inline Type &atCompressedIndex(size_t i)
	{
		if (i >= N) { index_violation(i, 0, N, 1); }

		return _data[i];
	}

	void setZero() { for (size_t i = 0; i < N; i++) { _data[i] = Type(0); } }

	Type dot(const matrix::Vector<Type, M> &other) const
	{
		Type accum(0);

		for (size_t i = 0; i < N; i++) { accum += _data[i] * other(_indices[i]); }

		return accum;
	}

	matrix::Vector<Type, M> operator+(const matrix::Vector<Type, M> &other) const
	{
		matrix::Vector<Type, M> vec = other;

		for (size_t i = 0; i < N; i++) { vec(_indices[i]) += _data[i]; }

		return vec;
	}

	SparseVector &operator+=(Type t)
	{
		for (size_t i = 0; i < N; i++) { _data[i] += t; }

		return *this;
	}

	Type norm_squared() const
	{
		Type accum(0);

		for (size_t i = 0; i < N; i++) { accum += _data[i] * _data[i]; }

		return accum;
	}
	Type norm() const { return std::sqrt(norm_squared()); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
};

template <typename Type, size_t M, size_t... Idxs>
constexpr size_t SparseVector<Type, M, Idxs...>::_indices[SparseVector<Type, M, Idxs...>::N];

template <typename Type, size_t Q, size_t M, size_t... Idxs>
matrix::Vector<Type, Q> operator*(const matrix::Matrix<Type, Q, M> &mat, const matrix::SparseVector<Type, M, Idxs...> &vec)
{
	matrix::Vector<Type, Q> res;

	for (size_t i = 0; i < Q; i++) {
		for (size_t k = 0; k < vec.non_zeros(); k++) { res(i) += mat(i, vec.index(k)) * vec.atCompressedIndex(k); }
	}

	return res;
}

template <typename Type, size_t M, size_t... Idxs>
Type quadraticForm(const matrix::SquareMatrix<Type, M> &A, const matrix::SparseVector<Type, M, Idxs...> &x)
{
	Type res = Type(0);

	for (size_t i = 0; i < x.non_zeros(); i++) {
		Type tmp = Type(0);

		for (size_t j = 0; j < x.non_zeros(); j++) { tmp += A(x.index(i), x.index(j)) * x.atCompressedIndex(j); }

		res += x.atCompressedIndex(i) * tmp;
	}

	return res;
}

template <size_t M, size_t... Idxs>
using SparseVectorf = SparseVector<float, M, Idxs...>;

// ---------------------------------------------------------------- aliases
using Vector2f = Vector2<float>;
using Vector2d = Vector2<double>;
using Vector3f = Vector3<float>;
using Vector3d = Vector3<double>;
using SquareMatrix3f = SquareMatrix<float, 3>;
using Matrix3f = SquareMatrix<float, 3>;
using Dcmf = Dcm<float>;
using Dcmd = Dcm<double>;
using Quatf = Quaternion<float>;
using Quaternionf = Quaternion<float>;
using Quatd = Quaternion<double>;
using Eulerf = Euler<float>;
using Eulerd = Euler<double>;
using AxisAnglef = AxisAngle<float>;
using AxisAngled = AxisAngle<double>;

} // namespace matrix
