// small dense linear algebra of the models (own code): Jacobi methods on row major arrays
#pragma once
#include "bt.h"
namespace bm
{
using Cx = std::complex<double>;
inline double re(double x) { return x; }
inline double re(Cx x) { return x.real(); }
inline double cj(double x) { return x; }
inline Cx cj(Cx x) { return std::conj(x); }
template <class T>
struct Mat
{
	int64_t m = 0, n = 0;
	std::vector<T> v;
	Mat(int64_t m, int64_t n) : m(m), n(n), v(m * n, T(0)) {}
	explicit Mat(const ArrT<T> &a, int64_t rows) : m(rows), n(rows ? (int64_t)a.v.size() / rows : 0), v(a.v) {}
	T &operator()(int64_t i, int64_t j) { return v[i * n + j]; }
	const T &operator()(int64_t i, int64_t j) const { return v[i * n + j]; }
};
template <class T>
Mat<T> mul(const Mat<T> &a, const Mat<T> &b)
{
	Mat<T> o(a.m, b.n);
	for (int64_t i = 0; i < a.m; ++i)
		for (int64_t k = 0; k < a.n; ++k)
			for (int64_t j = 0; j < b.n; ++j)
				o(i, j) += a(i, k) * b(k, j);
	return o;
}
template <class T>
Mat<T> dag(const Mat<T> &a)
{
	Mat<T> o(a.n, a.m);
	for (int64_t i = 0; i < a.m; ++i)
		for (int64_t j = 0; j < a.n; ++j)
			o(j, i) = cj(a(i, j));
	return o;
}
template <class T>
double dist(const Mat<T> &a, const Mat<T> &b)
{
	if (a.m != b.m || a.n != b.n)
		return 1e300;
	double d = 0;
	for (size_t i = 0; i < a.v.size(); ++i)
		d = std::max(d, std::abs(a.v[i] - b.v[i]));
	return d;
}
// singular values, descending, min(m,n) of them (one sided Jacobi)
template <class T>
std::vector<double> singular_values(Mat<T> a)
{
	if (a.n > a.m)
		a = dag(a);
	for (int sweep = 0; sweep < 60; ++sweep)
	{
		double off = 0;
		for (int64_t p = 0; p < a.n; ++p)
			for (int64_t q = p + 1; q < a.n; ++q)
			{
				double x = 0, y = 0;
				T z(0);
				for (int64_t i = 0; i < a.m; ++i)
					x += std::norm(a(i, p)), y += std::norm(a(i, q)), z += cj(a(i, p)) * a(i, q);
				double az = std::abs(z);
				if (az == 0 || az <= 1e-16 * std::sqrt(x * y))
					continue;
				off = std::max(off, az / std::sqrt(x * y));
				T ph = z / az;
				double tau = (y - x) / (2 * az), t = (tau >= 0 ? 1 : -1) / (std::abs(tau) + std::sqrt(1 + tau * tau)), cs = 1 / std::sqrt(1 + t * t), sn = cs * t;
				for (int64_t i = 0; i < a.m; ++i)
				{
					T u = a(i, p), w = a(i, q) * cj(ph);
					a(i, p) = cs * u - sn * w;
					a(i, q) = sn * u + cs * w;
				}
			}
		if (off < 1e-15)
			break;
	}
	std::vector<double> s;
	for (int64_t j = 0; j < a.n; ++j)
	{
		double x = 0;
		for (int64_t i = 0; i < a.m; ++i)
			x += std::norm(a(i, j));
		s.push_back(std::sqrt(x));
	}
	std::sort(s.rbegin(), s.rend());
	return s;
}
// eigenvalues of a hermitian matrix, ascending (two sided Jacobi); vectors in the columns of *vec if given
template <class T>
std::vector<double> hermitian_eigenvalues(Mat<T> a, Mat<T> *vec = nullptr)
{
	int64_t n = a.n;
	Mat<T> V(n, n);
	for (int64_t i = 0; i < n; ++i)
		V(i, i) = 1;
	double scale = 0;
	for (auto &x : a.v)
		scale = std::max(scale, std::abs(x));
	for (int sweep = 0; sweep < 100; ++sweep)
	{
		double off = 0;
		for (int64_t p = 0; p < n; ++p)
			for (int64_t q = p + 1; q < n; ++q)
			{
				T z = a(p, q);
				double az = std::abs(z);
				off = std::max(off, az);
				if (az <= 1e-17 * scale)
					continue;
				T ph = z / az;
				double tau = (re(a(q, q)) - re(a(p, p))) / (2 * az), t = (tau >= 0 ? 1 : -1) / (std::abs(tau) + std::sqrt(1 + tau * tau)), cs = 1 / std::sqrt(1 + t * t), sn = cs * t;
				for (int64_t i = 0; i < n; ++i)
				{
					T u = a(i, p), w = a(i, q) * cj(ph);
					a(i, p) = cs * u - sn * w;
					a(i, q) = sn * u + cs * w;
					u = V(i, p), w = V(i, q) * cj(ph);
					V(i, p) = cs * u - sn * w;
					V(i, q) = sn * u + cs * w;
				}
				for (int64_t i = 0; i < n; ++i)
				{
					T u = a(p, i), w = a(q, i) * ph;
					a(p, i) = cs * u - sn * w;
					a(q, i) = sn * u + cs * w;
				}
			}
		if (off <= 1e-15 * scale)
			break;
	}
	std::vector<std::pair<double, int64_t>> e;
	for (int64_t i = 0; i < n; ++i)
		e.push_back({re(a(i, i)), i});
	std::sort(e.begin(), e.end());
	std::vector<double> o;
	if (vec)
		*vec = Mat<T>(n, n);
	for (int64_t j = 0; j < n; ++j)
	{
		o.push_back(e[j].first);
		if (vec)
			for (int64_t i = 0; i < n; ++i)
				(*vec)(i, j) = V(i, e[j].second);
	}
	return o;
}
inline std::string dstr(const std::vector<double> &v) { return mc::vstr(v); }
// the two lists are the same up to zeros (either may lack the values that vanish)
inline bool same_spectrum(std::vector<double> a, std::vector<double> b, double tol)
{
	auto key = [](double x, double y) { return std::abs(x) != std::abs(y) ? std::abs(x) > std::abs(y) : x > y; };
	(void)key;
	auto z = std::max(a.size(), b.size());
	a.resize(z, 0);
	b.resize(z, 0);
	std::sort(a.begin(), a.end());
	std::sort(b.begin(), b.end());
	for (size_t i = 0; i < z; ++i)
		if (!(std::abs(a[i] - b[i]) <= tol))
			return false;
	return true;
}
// content of a tensor, double or complex
template <class T>
ArrT<T> content(const btensor &t) { return assemble<T>(t); }
} // namespace bm
