// small chains with a known spectrum, and the observation of ground state searches on them
#pragma once
#include "dmrg.h"
#include "mps.h"
#include <map>
namespace bm
{
using quantit::dmrg_logger;
using quantit::dmrg_options;
template <class T>
using Pairs = std::vector<std::pair<Mat<T>, Mat<T>>>;
// sum over sites of onsite(i), and over bonds of the products bond(i) of operators of the sites i and i+1
template <class T>
struct Ham
{
	std::string name;
	const Kind *k; // null: nothing is conserved
	std::vector<Leg> phys; // cycled along the chain
	std::function<Mat<T>(int)> onsite;
	std::function<Pairs<T>(int)> bond;
	bool degenerate = false; // singular values can be tied by a symmetry
	const Leg &leg(int i) const { return phys[i % phys.size()]; }
	int64_t d(int i) const { return size_of(leg(i)); }
};
template <class T>
Mat<T> operator+(Mat<T> a, const Mat<T> &b)
{
	for (size_t i = 0; i < a.v.size(); ++i)
		a.v[i] += b.v[i];
	return a;
}
template <class T>
Mat<T> operator*(T x, Mat<T> a)
{
	for (auto &y : a.v)
		y *= x;
	return a;
}
template <class T>
Mat<T> unit(int64_t n, int64_t i, int64_t j, T x = T(1))
{
	Mat<T> o(n, n);
	o(i, j) = x;
	return o;
}
template <class T>
Mat<T> identity_mat(int64_t n)
{
	Mat<T> o(n, n);
	for (int64_t i = 0; i < n; ++i)
		o(i, i) = 1;
	return o;
}
template <class T>
Mat<T> diagonal(std::vector<double> x)
{
	Mat<T> o(x.size(), x.size());
	for (size_t i = 0; i < x.size(); ++i)
		o(i, i) = x[i];
	return o;
}
// quantity of every state of a leg
inline std::vector<Val> state_charges(const Leg &l)
{
	std::vector<Val> o;
	for (auto &x : l)
		o.insert(o.end(), x.size, x.q);
	return o;
}
template <class T>
Val charge_of(const Kind &k, const Leg &l, const Mat<T> &m)
{
	auto q = state_charges(l);
	for (int64_t i = 0; i < m.m; ++i)
		for (int64_t j = 0; j < m.n; ++j)
			if (m(i, j) != T(0))
				return qm::add(k, q[i], qm::inv(k, q[j]));
	return qm::zero(k);
}
template <class T>
RefT<T> plain_of(RefT<T> r)
{
	r.k = nullptr;
	return r;
}
// the matrix product operator, written by hand
template <class T>
ChainT<T> operator_chain(const Ham<T> &h, int L)
{
	ChainT<T> o;
	static const Kind &any = kZ();
	const Kind &k = h.k ? *h.k : any;
	auto zero = qm::zero(k);
	Leg left{{1, zero}};
	for (int i = 0; i < L; ++i)
	{
		Pairs<T> before = i ? h.bond(i - 1) : Pairs<T>{}, after = i + 1 < L ? h.bond(i) : Pairs<T>{};
		// left: 0 nothing yet, 1..n operators, n+1 all done; the edges have only one of them
		int64_t l0 = i == 0 ? 0 : 0, ld = i == 0 ? -1 : (int64_t)before.size() + 1;
		int64_t r0 = i + 1 == L ? -1 : 0, rd = i + 1 == L ? 0 : (int64_t)after.size() + 1;
		Leg right;
		if (i + 1 == L)
			right = {{1, zero}};
		else
		{
			right.push_back({1, zero});
			for (auto &p : after)
				right.push_back({1, h.k ? charge_of(k, h.leg(i), p.first) : zero});
			right.push_back({1, zero});
		}
		RefT<T> r{h.k, {{left, h.leg(i), inv(k, right), inv(k, h.leg(i))}, zero}, {}, {}};
		r.a = ArrT<T>(sizes_of(r.s));
		auto put = [&](int64_t a, int64_t b, const Mat<T> &m) {
			if (a < 0 || b < 0)
				return;
			for (int64_t x = 0; x < m.m; ++x)
				for (int64_t y = 0; y < m.n; ++y)
					r.a({a, x, b, y}) += m(x, y);
		};
		put(l0, r0, identity_mat<T>(h.d(i)));
		put(ld, rd, identity_mat<T>(h.d(i)));
		put(l0, rd, h.onsite(i));
		for (size_t j = 0; j < after.size(); ++j)
			put(l0, 1 + j, after[j].first);
		for (size_t j = 0; j < before.size(); ++j)
			put(1 + j, rd, before[j].second);
		if (h.k)
			for (auto &b : blocks_allowed(k, r.s))
			{
				idx st, sz;
				extent(r.s, b, st, sz);
				bool any_ = false;
				each(sz, [&](const idx &e) {
					idx f = st;
					for (size_t d = 0; d < f.size(); ++d)
						f[d] += e[d];
					any_ = any_ || r.a(f) != T(0);
				});
				if (any_)
					r.present.push_back(b);
			}
		o.push_back(r);
		left = right;
	}
	return o;
}
// the matrix of the Hamiltonian, from the operators themselves
template <class T>
Mat<T> matrix(const Ham<T> &h, int L)
{
	idx d;
	int64_t D = 1;
	for (int i = 0; i < L; ++i)
		d.push_back(h.d(i)), D *= d.back();
	Mat<T> o(D, D);
	std::vector<std::pair<int, Mat<T>>> ons;
	for (int i = 0; i < L; ++i)
		ons.emplace_back(i, h.onsite(i));
	int64_t n = 0;
	ArrT<T> place(d);
	each(d, [&](const idx &in) {
		for (auto &[i, m] : ons)
			for (int64_t x = 0; x < d[i]; ++x)
			{
				auto out = in;
				out[i] = x;
				o(place.off(out), n) += m(x, in[i]);
			}
		for (int i = 0; i + 1 < L; ++i)
			for (auto &[a, b] : h.bond(i))
				for (int64_t x = 0; x < d[i]; ++x)
					for (int64_t y = 0; y < d[i + 1]; ++y)
					{
						auto out = in;
						out[i] = x, out[i + 1] = y;
						o(place.off(out), n) += a(x, in[i]) * b(y, in[i + 1]);
					}
		++n;
	});
	return o;
}
// sector of every state of the basis of the chain
template <class T>
std::vector<Val> sectors(const Ham<T> &h, int L)
{
	std::vector<Val> o{qm::zero(*h.k)};
	for (int i = 0; i < L; ++i)
	{
		std::vector<Val> n;
		for (auto &a : o)
			for (auto &b : state_charges(h.leg(i)))
				n.push_back(qm::add(*h.k, a, b));
		o = n;
	}
	return o;
}
template <class T>
Mat<T> restricted(const Mat<T> &h, const std::vector<int64_t> &keep)
{
	Mat<T> o(keep.size(), keep.size());
	for (size_t i = 0; i < keep.size(); ++i)
		for (size_t j = 0; j < keep.size(); ++j)
			o(i, j) = h(keep[i], keep[j]);
	return o;
}
template <class T>
struct Exact
{
	Mat<T> h{0, 0};
	double norm = 0; // of the matrix
	std::vector<double> all;
	std::map<Val, std::vector<double>> by_sector;
	std::vector<Val> sector;
};
template <class T>
const Exact<T> &exact(const Ham<T> &h, int L)
{
	static std::map<std::pair<std::string, int>, Exact<T>> cache;
	auto &e = cache[{h.name, L}];
	if (e.h.m)
		return e;
	e.h = matrix(h, L);
	double f = 0;
	for (auto &x : e.h.v)
		f += std::norm(x);
	e.norm = std::sqrt(f);
	e.all = hermitian_eigenvalues(e.h);
	std::sort(e.all.begin(), e.all.end());
	if (h.k)
	{
		e.sector = sectors(h, L);
		std::set<Val> s(e.sector.begin(), e.sector.end());
		for (auto &q : s)
		{
			std::vector<int64_t> keep;
			for (size_t i = 0; i < e.sector.size(); ++i)
				if (e.sector[i] == q)
					keep.push_back(i);
			auto x = hermitian_eigenvalues(restricted(e.h, keep));
			std::sort(x.begin(), x.end());
			e.by_sector[q] = x;
		}
	}
	return e;
}
// ---------------------------------------------------------------- the menu of models
template <class T>
std::vector<Ham<T>> hams(bool thorough)
{
	std::vector<Ham<T>> o;
	Leg spin{{1, {1}}, {1, {-1}}}, half{{1, {0}}, {1, {1}}}, one{{1, {2}}, {1, {0}}, {1, {-2}}}, fat{{2, {0}}, {1, {1}}}, single{{1, {1}}}, parity{{1, {0}}, {1, {1}}}, zc{{1, {0, 1}}, {1, {1, 0}}};
	auto none = [](int64_t n) { return Mat<T>(n, n); };
	auto ph = [](double re_, double im) {
		if constexpr (std::is_same_v<T, Cx>)
			return Cx(re_, im);
		else
			return re_;
	};
	const T half_ = T(0.5);
	auto up = unit<T>(2, 0, 1), down = unit<T>(2, 1, 0), sz = diagonal<T>({0.5, -0.5}), num = diagonal<T>({0, 1});
	auto sx = half_ * (up + down);
	auto heis = [=](double j, double jz) {
		return [=](int) { return Pairs<T>{{T(j / 2) * up, down}, {T(j / 2) * down, up}, {T(jz) * sz, sz}}; };
	};
	o.push_back({"Heisenberg", &kZ(), {spin}, [=](int) { return none(2); }, heis(1, 1), true});
	o.push_back({"ferromagnet", &kZ(), {spin}, [=](int) { return none(2); }, heis(-1, -1), true});
	// no symmetry but the conserved charge, complex when it can be
	o.push_back({"disordered", &kZ(), {spin}, [=](int i) { return T(0.3 + 0.4 * std::sin(3. * i)) * sz; },
	             [=](int i) {
		             T z = ph(0.45 + 0.1 * i, 0.3 - 0.15 * i), zb = ph(0.45 + 0.1 * i, -0.3 + 0.15 * i);
		             return Pairs<T>{{z * up, down}, {zb * down, up}, {T(0.6 - 0.25 * i) * sz, sz}};
	             }});
	// every basis state is an eigenstate, of either sign
	o.push_back({"field up", &kZ(), {half}, [=](int i) { return T(1.5 + i) * num; }, [=](int) { return Pairs<T>{}; }, true});
	o.push_back({"constant", &kZ(), {half}, [=](int i) { return T(i == 0 ? 2.5 : 0) * identity_mat<T>(2); }, [=](int) { return Pairs<T>{}; }, true});
	o.push_back({"null", &kZ(), {half}, [=](int) { return none(2); }, [=](int) { return Pairs<T>{}; }, true});
	// hopping, far above zero
	o.push_back({"shifted hopping", &kZ(), {half}, [=](int i) { return T(40) * identity_mat<T>(2) + T(0.2 * i) * num; },
	             [=](int i) { return Pairs<T>{{ph(-1, 0.2 * i) * up, down}, {ph(-1, -0.2 * i) * down, up}}; }});
	auto up3 = unit<T>(3, 0, 1) + unit<T>(3, 1, 2), down3 = unit<T>(3, 1, 0) + unit<T>(3, 2, 1), sz3 = diagonal<T>({1, 0, -1});
	o.push_back({"mixed spins", &kZ(), {spin, one}, [=](int i) { return i % 2 ? T(0.35) * sz3 : T(-0.2) * sz; },
	             [=](int i) {
		             if (i % 2 == 0)
			             return Pairs<T>{{T(0.5) * up, down3}, {T(0.5) * down, up3}, {T(0.7) * sz, sz3}};
		             return Pairs<T>{{T(0.5) * up3, down}, {T(0.5) * down3, up}, {T(0.7) * sz3, sz}};
	             }});
	o.push_back({"Ising with parity", &kC2(), {parity}, [=](int i) { return T(0.8 + 0.1 * i) * num; }, [=](int i) { return Pairs<T>{{T(-1.1 - 0.2 * i) * sx, sx}, {T(0.1) * num, num}}; }, true});
	o.push_back({"Ising", nullptr, {half}, [=](int i) { return T(0.7 - 0.1 * i) * sx + T(0.1) * sz; }, [=](int) { return Pairs<T>{{T(-1) * sz, sz}}; }});
	// all the elements, with sites of several sizes
	auto herm = [=](int64_t n, int seed) {
		Mat<T> m(n, n);
		for (int64_t i = 0; i < n; ++i)
			for (int64_t j = 0; j <= i; ++j)
			{
				m(i, j) = ph(gen(seed, i * n + j) / 4, i == j ? 0 : gen(seed + 50, i * n + j) / 4);
				m(j, i) = cj(m(i, j));
			}
		return m;
	};
	auto sites = std::vector<Leg>{{{2, {0}}}, {{3, {0}}}};
	o.push_back({"generic", nullptr, sites, [=](int i) { return herm(2 + i % 2, i); }, [=](int i) { return Pairs<T>{{herm(2 + i % 2, 10 + i), herm(3 - i % 2, 20 + i)}, {herm(2 + i % 2, 30 + i), herm(3 - i % 2, 40 + i)}}; }});
	if (thorough)
	{
		o.push_back({"attractive", &kZ(), {spin}, [=](int i) { return T(i % 2 ? 0.5 : -0.5) * sz; }, heis(0.7, -1.3)});
		// sections of size two, and sites of size one
		o.push_back({"fat sections", &kZ(), {fat}, [=](int i) { return herm(2, i)(0, 1) * unit<T>(3, 0, 1) + cj(herm(2, i)(0, 1)) * unit<T>(3, 1, 0) + diagonal<T>({0.3, -0.2, 0.1 * i}); },
		             [=](int i) { auto a = unit<T>(3, 0, 2) + T(0.5) * unit<T>(3, 1, 2), ad = unit<T>(3, 2, 0) + T(0.5) * unit<T>(3, 2, 1); return Pairs<T>{{ph(-0.8, 0.1 * i) * a, ad}, {ph(-0.8, -0.1 * i) * ad, a}}; }});
		o.push_back({"sites of size one", &kZ(), {half, single}, [=](int i) { return i % 2 ? diagonal<T>({0.25}) : T(-0.4) * num; }, [=](int i) { return Pairs<T>{{i % 2 ? diagonal<T>({0.5}) : num, i % 2 ? num : diagonal<T>({0.5})}}; }, true});
		o.push_back({"two charges", &kZC2(), {zc}, [=](int i) { return T(0.2 * i) * num; }, [=](int i) { return Pairs<T>{{ph(0.9, 0.2 * i) * up, down}, {ph(0.9, -0.2 * i) * down, up}, {T(0.3) * num, num}}; }});
	}
	return o;
}
// ---------------------------------------------------------------- initial states
// one state of the basis; the sector is carried by the right edge (0) or the rule of the first (1) or last (2) site
template <class T>
ChainT<T> product_state(const Ham<T> &h, const idx &config, int where, T amplitude = T(1))
{
	static const Kind &any = kZ();
	const Kind &k = h.k ? *h.k : any;
	int L = config.size();
	Val total = qm::zero(k);
	for (int i = 0; i < L; ++i)
		total = qm::add(k, total, state_charges(h.leg(i))[config[i]]);
	ChainT<T> o;
	Val left = qm::zero(k);
	for (int i = 0; i < L; ++i)
	{
		Val rule = (where == 1 && i == 0) || (where == 2 && i + 1 == L) ? total : qm::zero(k);
		auto right = qm::add(k, qm::add(k, left, state_charges(h.leg(i))[config[i]]), qm::inv(k, rule));
		RefT<T> r{h.k, {{{{1, left}}, h.leg(i), inv(k, Leg{{1, right}})}, rule}, {}, {}};
		r.a = ArrT<T>(sizes_of(r.s));
		r.a({0, config[i], 0}) = i == 0 ? amplitude : T(1);
		int64_t b = 0, n = config[i];
		while (n >= h.leg(i)[b].size)
			n -= h.leg(i)[b++].size;
		r.present = {{0, b, 0}};
		o.push_back(r);
		left = right;
	}
	return o;
}
template <class T>
ChainT<T> generic_state(const Ham<T> &h, int L, const Val &sector, int where, int pattern, int seed)
{
	ChainT<T> o;
	if (h.k)
	{
		ChainSpec spec{h.k, h.phys, sector, where, pattern, false, ""};
		for (auto &s : chain_shapes(spec, L))
			o.push_back(make_ref<T>(*h.k, s, blocks_allowed(*h.k, s), seed + o.size()));
		return o;
	}
	std::vector<idx> bonds{{1, 2, 2, 2, 2, 2, 2}, {1, 2, 3, 1, 2, 4, 2}, {1, 4, 4, 4, 4, 4, 4}, {1, 1, 1, 1, 1, 1, 1}, {1, 3, 2, 4, 1, 3, 2}};
	auto b = bonds[pattern];
	b[L] = 1;
	for (int i = 0; i < L; ++i)
		o.push_back(plain_ref<T>({b[i], h.d(i), b[i + 1]}, seed + i));
	return o;
}
template <class T>
ChainT<T> without_kind(ChainT<T> c)
{
	for (auto &r : c)
		r.k = nullptr;
	return c;
}
template <class T>
std::vector<T> vector_of(const ChainT<T> &c) { return dense_state(arrays(c)).v; }
template <class T>
double norm2(const std::vector<T> &v)
{
	double n = 0;
	for (auto &x : v)
		n += std::norm(x);
	return n;
}
template <class T>
double expectation(const Mat<T> &h, const std::vector<T> &v)
{
	T e(0);
	for (int64_t i = 0; i < h.m; ++i)
	{
		T x(0);
		for (int64_t j = 0; j < h.n; ++j)
			x += h(i, j) * v[j];
		e += cj(v[i]) * x;
	}
	return re(e);
}
// ---------------------------------------------------------------- observation of a run
template <class T>
struct Snap
{
	std::vector<ArrT<T>> sites;
	size_t oc = 0;
	// which indices of the left and right bond of a site belong to a section with elements. A truncation that removes
	// all of a section leaves its size as it was, without elements
	std::vector<std::vector<char>> left, right;
};
inline std::vector<char> used(const torch::Tensor &t, int d) { return std::vector<char>(t.size(d), 1); }
inline std::vector<char> used(const btensor &t, int d)
{
	std::vector<char> o, s(t.section_number(d), 0);
	for (auto &b : t)
		s[std::get<0>(b)[d]] = 1;
	for (size_t i = 0; i < s.size(); ++i)
		o.insert(o.end(), t.section_size(d, i), s[i]);
	return o;
}
template <class B, class T>
Snap<T> snap(const typename B::mps &s)
{
	Snap<T> o{arrays_of<T>(s), (size_t)s.orthogonality_center, {}, {}};
	for (auto &t : s)
		o.left.push_back(used(t, 0)), o.right.push_back(used(t, 2));
	return o;
}
struct Call
{
	char what; // 'i'nit, 'o'ne iteration, 'e'nd
	size_t step;
	std::complex<double> E;
};
template <class B, class T>
struct Recorder : public dmrg_logger
{
	std::vector<Call> calls;
	std::vector<Snap<T>> snaps; // one per iteration, and the last one
	std::vector<idx> bonds;
	void log_step(size_t) override {}
	void log_energy(const torch::Tensor &) override {}
	void log_energy(const btensor &) override {}
	void log_bond_dims(const MPS &) override {}
	void log_bond_dims(const bMPS &) override {}
	void init(const dmrg_options &) override { calls.push_back({'i', 0, 0}); }
	template <class E_t, class S_t>
	void rec(char w, size_t n, const E_t &E, const S_t &s)
	{
		auto z = E.item().toComplexDouble();
		calls.push_back({w, n, {z.real(), z.imag()}});
		if constexpr (std::is_same_v<S_t, typename B::mps>)
		{
			snaps.push_back(snap<B, T>(s));
			bonds.emplace_back();
			for (size_t i = 0; i + 1 < s.size(); ++i)
			{
				auto &l = snaps.back().right[i], &r = snaps.back().left[i + 1];
				int64_t n = 0;
				for (size_t j = 0; j < l.size(); ++j)
					n += l[j] && r[j];
				bonds.back().push_back(n);
			}
		}
	}
	void it_log_all(size_t n, const torch::Tensor &E, const MPS &s) override { rec('o', n, E, s); }
	void it_log_all(size_t n, const btensor &E, const bMPS &s) override { rec('o', n, E, s); }
	void end_log_all(size_t n, const torch::Tensor &E, const MPS &s) override { rec('e', n, E, s); }
	void end_log_all(size_t n, const btensor &E, const bMPS &s) override { rec('e', n, E, s); }
};
// deviation from the identity of the product of a site with itself, on its left (or right) dimensions
template <class T>
double not_isometric(const ArrT<T> &a, bool left, const std::vector<char> &use)
{
	auto b = a.map([](T x) { return cj(x); });
	auto p = left ? bm::tensordot(a, b, {0, 1}, {0, 1}) : bm::tensordot(a, b, {1, 2}, {1, 2});
	double d = 0;
	for (int64_t i = 0; i < p.shape[0]; ++i)
		for (int64_t j = 0; j < p.shape[1]; ++j)
			d = std::max(d, std::abs(p({i, j}) - T(i == j && use[i])));
	return d;
}
template <class T>
void canonical(mc::Ctx &c, const Snap<T> &s, const std::string &w, double tol)
{
	REQUIRE(s.oc < s.sites.size(), w, ": centre ", s.oc);
	for (size_t i = 0; i < s.sites.size(); ++i)
		if (i != s.oc)
		{
			auto d = not_isometric(s.sites[i], i < s.oc, i < s.oc ? s.right[i] : s.left[i]);
			REQUIRE(d < tol, w, ": site ", i, " is not isometric towards the centre ", s.oc, ", error ", d);
		}
	double n = 0;
	for (auto &x : s.sites[s.oc].v)
		n += std::norm(x);
	REQUIRE(std::abs(n - 1) < tol, w, ": square norm ", n);
}
inline std::string str(const dmrg_options &o)
{
	return mc::cat("cutoff ", o.cutoff, " conv ", o.convergence_criterion, " bond ", o.minimum_bond, "..", o.maximum_bond, " sweeps ", o.maximum_iterations);
}
template <class T>
std::string str(const ChainT<T> &s)
{
	std::string o;
	for (auto &r : s)
		o += r.k ? bm::str(r.s) : mc::vstr(r.a.shape);
	return o;
}
inline dmrg_options options(double cutoff, double conv, size_t max_bond, size_t min_bond, size_t its) { return dmrg_options(cutoff, conv, max_bond, min_bond, its); }
constexpr size_t UNLIMITED = std::numeric_limits<size_t>::max();
} // namespace bm
