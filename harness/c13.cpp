// C13: eigendecomposition of hermitian tensors
#include "blockTensor/LinearAlgebra.h"
#include "LinearAlgebra.h"
#include "la.h"
using namespace bm;
namespace
{
enum
{
	GENERIC,
	DEGENERATE, // rows and columns repeat: multiple eigenvalues, negative ones too
	ZERO,
	N_CONTENTS
};
const char *const kContent[] = {"", "degenerate ", "zeros "};
struct Herm
{
	const Kind *k;
	std::vector<Leg> rows;
};
std::vector<Herm> menu13(bool thorough, bool pairs)
{
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg a{S(1, 0), S(2, 1)}, b{S(2, 0), S(1, -1)}, t{S(2, 0)}, o{S(2, 1)}, r{S(1, 1), S(2, 1)}, u{S(2, 1), S(1, -1), S(1, 0)}, w{S(1, 0), S(2, 0), S(1, 1)}, z{S(1, 1), S(2, 0), S(2, 1)}, y{S(1, 1), S(1, -1)}, x{S(1, 0), S(1, 1), S(1, 0), S(1, 0)};
	std::vector<Herm> m;
	for (auto &l : {a, b, t, o, r, u, w, z, x})
		m.push_back({&kZ(), {l}});
	m.push_back({&kC3(), {{{1, {2}}, {2, {1}}, {1, {2}}}}});
	m.push_back({&kZC2(), {{{1, {0, 1}}, {2, {1, 0}}, {1, {0, 1}}}}});
	// sections without elements, as truncations make
	m.push_back({&kZ(), {{S(1, 0), S(0, 0), S(2, 1), S(0, 2)}}});
	if (pairs)
	{
		m.push_back({&kZ(), {y, y}});
		m.push_back({&kZ(), {a, y}});
		m.push_back({&kZ(), {t, {S(1, 0)}}});
		m.push_back({&kC2(), {{{1, {0}}, {1, {1}}}, {{1, {1}}, {1, {0}}}}});
	}
	if (thorough)
	{
		std::vector<Leg> small{a, b, r, y, {S(1, 0)}, {S(1, 0), S(1, 0)}};
		m.push_back({&kZ(), {{S(1, 1), S(1, 0), S(1, 1), S(1, 0)}}});
		m.push_back({&kZ(), {{S(1, -1), S(2, -1), S(2, 0), S(1, -1)}}});
		m.push_back({&kC3(), {{{2, {0}}, {1, {1}}, {1, {2}}, {2, {1}}}}});
		if (pairs)
			for (auto &p : small)
				for (auto &q : small)
					m.push_back({&kZ(), {p, q}});
	}
	return m;
}
Shape herm_shape(const Herm &h)
{
	Shape s{h.rows, qm::zero(*h.k)};
	for (auto &l : h.rows)
		s.legs.push_back(inv(*h.k, l));
	return s;
}
template <class T>
T content_at(int how, int64_t i, int64_t j, int64_t batch)
{ // hermitian in (i,j)
	if (how == ZERO)
		return T(0);
	if (how == DEGENERATE)
		return T(i == j ? (i % 2 ? -2 : 1) : 0) + (i % 3 == 1 && j % 3 == 1 ? T(1) : T(0));
	bool sw = i > j;
	auto n = (std::min(i, j) * 64 + std::max(i, j)) * 8 + batch;
	if constexpr (std::is_same_v<T, double>)
		return gen(7, n);
	else
		return i == j ? T(gen(7, n), 0) : T(gen(7, n), sw ? -gen(8, n) : gen(8, n));
}
// chooses which blocks are stored: both of a pair, or only one of them when it is zero or not read
template <class T>
RefT<T> choose_hermitian(mc::Ctx &c, const Herm &h, int how, int max_free)
{
	Shape s = herm_shape(h);
	size_t n = h.rows.size();
	std::vector<std::pair<idx, idx>> pairs;
	for (auto &b : blocks_allowed(*h.k, s))
	{
		idx m(b.begin() + n, b.end());
		m.insert(m.end(), b.begin(), b.begin() + n);
		if (b <= m)
			pairs.push_back({b, m});
	}
	std::vector<idx> present;
	int one_sided = how == ZERO ? 1 : 0, i = 0;
	for (auto &p : pairs)
	{
		int pick = i++ < max_free ? c.choose(p.first == p.second ? 2 : one_sided ? 4 : 2, "stored") : 1;
		if (pick == 1 || pick == 2)
			present.push_back(p.first);
		if ((pick == 1 || pick == 3) && p.first != p.second)
			present.push_back(p.second);
	}
	std::sort(present.begin(), present.end());
	RefT<T> r{h.k, s, present, ArrT<T>(sizes_of(s))};
	int64_t N = 1;
	for (auto &l : h.rows)
		N *= size_of(l);
	auto mask = make_ref<double>(*h.k, s, present, 1);
	for (int64_t x = 0; x < N * N; ++x)
		if (mask.a.v[x] != 0)
			r.a.v[x] = content_at<T>(how, x / N, x % N, 0);
	return r;
}
template <class T>
void orthonormal(mc::Ctx &c, const Mat<T> &u, double tol)
{
	Mat<T> one(u.n, u.n);
	for (int64_t i = 0; i < u.n; ++i)
		one(i, i) = 1;
	REQUIRE(dist(mul(dag(u), u), one) < tol, "eigenvectors are not orthonormal");
}
template <class T>
void tensor_eigh_of(mc::Ctx &c, int max_free, bool as_float)
{
	auto menu = menu13(c.thorough, true);
	auto &h = c.pick(menu, "structure");
	int how = c.choose(N_CONTENTS, "content");
	auto A_ = choose_hermitian<T>(c, h, how, max_free);
	bool deff = c.flip("default element type float");
	size_t n = h.rows.size();
	c.describe(mc::cat("eigh of ", as_float ? "float " : std::is_same_v<T, double> ? "double " : "complex ", kContent[how], str(A_.s), present_str(A_.present), " split ", n, deff ? " default float" : ""));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(deff ? torch::kFloat : torch::kDouble));
	auto A = build(A_);
	if (as_float)
		A = A.to(torch::kFloat);
	double tol = as_float ? 1e-4 : 1e-10;
	c.step();
	auto [d, U] = eigh(A, n);
	if (!as_float)
		unchanged(c, A, A_, "operand");
	valid(c, U, "U");
	valid(c, d, "d");
	REQUIRE(U.dim() == (int64_t)n + 1 && d.dim() == 1, "ranks");
	same_dtype(c, U, "U");
	same_dtype(c, d, "d");
	REQUIRE(U.options().dtype() == A.options().dtype(), "element type of U");
	REQUIRE(d.options().dtype() == torch::scalarTypeToTypeMeta(as_float ? torch::kFloat : torch::kDouble), "element type of d");
	for (size_t dd = 0; dd < n; ++dd)
		for (size_t i = 0; i < h.rows[dd].size(); ++i)
			REQUIRE(U.section_number(dd) == h.rows[dd].size() && (int64_t)U.section_size(dd, i) == h.rows[dd][i].size && U.section_conserved_qtt(dd, i) == h.k->make(h.rows[dd][i].q), "sections of U in dimension ", dd);
	int64_t B = d.sizes()[0], N = 1;
	REQUIRE(U.sizes().back() == B, "bond sizes");
	for (auto &l : h.rows)
		N *= size_of(l);
	REQUIRE(B <= N, "more eigenvalues than rows");
	bool none = d.blocks().empty(); // the bond then is a single section of size 1 on which nothing is stored
	REQUIRE(B > 0 && (!none || B == 1), "bond size ", B);
	auto u = Mat<T>(assemble<T>(U), N);
	if (!none)
		orthonormal(c, u, tol);
	auto got = assemble<double>(d).v;
	Mat<T> am(A_.a, N);
	auto want = hermitian_eigenvalues(am);
	REQUIRE(same_spectrum(got, want, tol * 10), "eigenvalues ", dstr(got), ", expected ", dstr(want));
	{
		auto au = mul(am, u);
		for (int64_t i = 0; i < N; ++i)
			for (int64_t j = 0; j < B; ++j)
				REQUIRE(std::abs(au(i, j) - u(i, j) * got[j]) < tol * 10, "vector ", j, " is not an eigenvector");
		auto back = tensordot(U.mul(d), U.conj(), {U.dim() - 1}, {U.dim() - 1});
		compare(c, *h.k, back, A_.s, A_.a, "reconstruction", tol * 10);
	}
	c.state(mc::mix(B, A_.present.size()));
}
// batched: independent matrices along the leading dimension, only one triangle is read
template <class T>
void batched_eigh_of(mc::Ctx &c, int max_free)
{
	auto menu = menu13(c.thorough, false);
	auto &h = c.pick(menu, "structure");
	int batch = c.choose(6, "batch"); // none, one section, two sections, a section the rule excludes, two dimensions
	bool upper = c.flip("upper"), garbage = c.flip("other triangle differs");
	int how = c.choose(N_CONTENTS, "content");
	Herm plain{h.k, h.rows};
	auto base = choose_hermitian<T>(c, plain, how, max_free);
	std::vector<Leg> bl;
	Val q1 = qm::zero(*h.k);
	q1[0] = 1;
	auto q0 = qm::zero(*h.k), q2 = qm::inv(*h.k, q1);
	if (batch == 1)
		bl = {{{2, q0}}};
	if (batch == 2)
		bl = {{{1, q0}, {2, q0}}};
	if (batch == 3)
		bl = {{{1, q1}, {2, q0}}};
	if (batch == 4)
		bl = {{{2, q0}, {1, q0}}, {{3, q0}}};
	if (batch == 5)
		bl = {{{2, q0}, {1, q1}}, {{1, q2}, {2, q0}}};
	int64_t nb = 1, N = size_of(h.rows[0]);
	RefT<T> A_ = base;
	if (batch)
	{
		Shape s{bl, q0};
		for (auto &l : bl)
			nb *= size_of(l);
		A_.s.legs.insert(A_.s.legs.begin(), bl.begin(), bl.end());
		A_.present.clear();
		for (auto &at : blocks_allowed(*h.k, s))
			for (auto &b : base.present)
				if (!(batch != 3 && at[0] == 1 && b[0] != b[1])) // this matrix lacks the off diagonal blocks
				{
					auto i = at;
					i.insert(i.end(), b.begin(), b.end());
					A_.present.push_back(i);
				}
		A_.a = ArrT<T>(sizes_of(A_.s));
	}
	auto mask = make_ref<double>(*h.k, A_.s, A_.present, 1);
	std::vector<Mat<T>> herm(nb, Mat<T>(N, N));
	for (int64_t b = 0; b < nb; ++b)
		for (int64_t i = 0; i < N; ++i)
			for (int64_t j = 0; j < N; ++j)
			{
				auto o = (b * N + i) * N + j;
				bool read = upper ? i <= j : i >= j;
				if (mask.a.v[o] == 0)
					continue;
				auto x = content_at<T>(how, i, j, b);
				if (read)
				{
					herm[b](i, j) = x;
					herm[b](j, i) = cj(x);
				}
				A_.a.v[o] = read || !garbage ? x : x + T(1 + i);
			}
	c.describe(mc::cat("eigh of matrices ", std::is_same_v<T, double> ? "double " : "complex ", kContent[how], str(A_.s), present_str(A_.present), upper ? " upper" : " lower", garbage ? " other triangle differs" : ""));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kDouble));
	auto A = build(A_);
	c.step();
	auto [d, U] = eigh(A, BOOL(upper));
	unchanged(c, A, A_, "operand");
	valid(c, U, "U");
	valid(c, d, "d");
	int64_t B = d.sizes().back();
	REQUIRE(U.sizes().back() == B && d.dim() == U.dim() - 1, "bond sizes");
	auto ua = assemble<T>(U);
	auto da = assemble<double>(d);
	for (int64_t b = 0; b < nb; ++b)
	{
		Mat<T> u(N, B);
		std::copy_n(ua.v.begin() + b * N * B, N * B, u.v.begin());
		std::vector<double> e(da.v.begin() + b * B, da.v.begin() + (b + 1) * B);
		auto want = hermitian_eigenvalues(herm[b]);
		REQUIRE(same_spectrum(e, want, 1e-9), "eigenvalues ", dstr(e), ", expected ", dstr(want));
		Mat<T> ud = u, p = mul(dag(u), u);
		for (int64_t i = 0; i < N; ++i)
			for (int64_t j = 0; j < B; ++j)
				ud(i, j) *= e[j];
		REQUIRE(dist(mul(ud, dag(u)), herm[b]) < 1e-9, "reconstruction of matrix ", b);
		for (int64_t i = 0; i < B; ++i)
			for (int64_t j = 0; j < B; ++j)
				REQUIRE(std::abs(p(i, j) - (i == j && re(p(i, i)) > 0.5 ? T(1) : T(0))) < 1e-10, "eigenvectors are not orthonormal");
	}
}
} // namespace
MC_SUITE(tensor_eigh_double) { tensor_eigh_of<double>(c, c.thorough ? 10 : 8, false); }
MC_SUITE(tensor_eigh_float) { tensor_eigh_of<double>(c, c.thorough ? 6 : 4, true); }
MC_SUITE(tensor_eigh_complex) { tensor_eigh_of<Cx>(c, c.thorough ? 8 : 6, false); }
MC_SUITE(matrices_eigh_double) { batched_eigh_of<double>(c, c.thorough ? 6 : 4); }
MC_SUITE(matrices_eigh_complex) { batched_eigh_of<Cx>(c, c.thorough ? 5 : 3); }
// what is no eigenvalue problem is refused and left alone
MC_SUITE(refused)
{
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	std::vector<std::tuple<Shape, size_t, const char *>> menu{
	    {{{{S(1, 0), S(2, 1)}, {S(1, 0), S(2, -1)}}, {1}}, 1, "rule that connects different sectors"},
	    {{{{S(1, 0), S(2, 1)}, {S(1, 0), S(2, -1)}}, {-1}}, 1, "rule that connects different sectors"},
	    {{{{S(1, 0), S(2, 1)}, {S(2, 0), S(2, -1)}}, {0}}, 1, "different sizes"},
	    {{{{S(1, 0), S(2, 1)}, {S(2, -1), S(1, 0)}}, {0}}, 1, "sections in another order"},
	    {{{{S(3, 0)}, {S(1, 0), S(2, 0)}}, {0}}, 1, "different sections"},
	    {{{{S(1, 0), S(2, 1)}, {S(1, 0), S(2, 1)}}, {0}}, 1, "quantities that are not inverse"},
	    {{{{S(2, 0)}, {S(2, 0)}, {S(2, 0)}, {S(2, 0)}}, {0}}, 1, "split that makes it rectangular"},
	    {{{{S(2, 0)}, {S(2, 0)}, {S(2, 0)}}, {0}}, 2, "split that makes it rectangular"},
	};
	auto &[s, split, why] = c.pick(menu, "structure");
	auto all = blocks_allowed(kZ(), s);
	std::vector<idx> present;
	uint64_t m = c.choose((1 << all.size()) - 1, "stored") + 1;
	for (size_t i = 0; i < all.size(); ++i)
		if (m >> i & 1)
			present.push_back(all[i]);
	int tensor = s.legs.size() == 2 ? c.choose(2, "as tensor") : 1;
	auto A_ = make_ref(kZ(), s, present, 1);
	c.describe(mc::cat("eigh of ", str(s), present_str(present), " ", why, tensor ? " as a tensor" : " as a matrix"));
	auto A = build(A_);
	c.step();
	bool threw = throws([&] { tensor ? eigh(A, split) : eigh(A); });
	REQUIRE(threw, "accepted");
	unchanged(c, A, A_, "operand");
}
template <class T>
static void dense_eigh_of(mc::Ctx &c)
{
	idx rows, shape;
	int r = c.choose(3, "rank") + 1;
	for (int i = 0; i < r; ++i)
		rows.push_back(c.choose(4, "size") + 1);
	int how = c.choose(N_CONTENTS, "content");
	bool perm = c.flip("strided"), other = c.flip("rectangular");
	int64_t N = prod(rows);
	shape = rows;
	shape.insert(shape.end(), rows.begin(), rows.end());
	size_t split = r;
	if (other)
	{ // a split that leaves a rectangular matrix is refused
		split = c.choose(2 * r + 1, "split");
		int64_t m = 1;
		for (size_t i = 0; i < split; ++i)
			m *= shape[i];
		if (m * m == N * N || N == 1)
			c.skip();
	}
	ArrT<T> a(shape);
	for (int64_t x = 0; x < N * N; ++x)
		a.v[x] = content_at<T>(how, x / N, x % N, 0);
	c.describe(mc::cat("dense eigh of ", std::is_same_v<T, double> ? "double " : "complex ", kContent[how], mc::vstr(shape), " split ", split, perm ? " strided" : ""));
	auto A = to_torch(a);
	if (perm)
	{
		idx p(2 * r);
		std::iota(p.rbegin(), p.rend(), 0);
		A = A.permute(p).contiguous().permute(p);
	}
	auto copy = A.clone();
	c.step();
	if (other)
	{
		bool threw = throws([&] { eigh(A, split); });
		REQUIRE(threw, "accepted");
		return;
	}
	auto [d, U] = r % 2 ? eigh(A, split) : eigh(A, int(split));
	REQUIRE(A.equal(copy), "operand changed");
	idx us = rows;
	us.push_back(N);
	REQUIRE(idx(U.sizes().begin(), U.sizes().end()) == us && d.dim() == 1 && d.size(0) == N, "sizes");
	auto u = Mat<T>(from_torch<T>(U), N), am = Mat<T>(a, N), au = mul(am, u);
	orthonormal(c, u, 1e-10);
	auto e = from_torch<double>(d).v, want = hermitian_eigenvalues(am);
	for (int64_t i = 0; i < N; ++i)
	{
		REQUIRE(std::abs(e[i] - want[i]) < 1e-8, "eigenvalue ", i, ": ", e[i], ", expected ", want[i]);
		for (int64_t j = 0; j < N; ++j)
			REQUIRE(std::abs(au(j, i) - e[i] * u(j, i)) < 1e-8, "vector ", i, " is not an eigenvector");
	}
	c.state(mc::mix(N, how));
}
MC_SUITE(dense_eigh_double) { dense_eigh_of<double>(c); }
MC_SUITE(dense_eigh_complex) { dense_eigh_of<Cx>(c); }
int main(int argc, char **argv) { return mc::main_(argc, argv); }
