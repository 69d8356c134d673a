// C12: singular value decomposition
#include "blockTensor/LinearAlgebra.h"
#include "LinearAlgebra.h"
#include "la.h"
using namespace bm;
using torch::indexing::Slice;
namespace
{
std::vector<Named> menu12(int what, bool thorough)
{
	std::vector<Named> o;
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg a{S(1, 0), S(2, 1)}, b{S(2, 0), S(1, -1)}, t{S(1, 0)}, r{S(1, 1), S(2, 1)}, u{S(2, 1), S(1, -1), S(1, 0)}, w{S(1, 0), S(2, 0), S(1, 1)}, x{S(1, -1), S(1, 0), S(2, 0)}, y{S(1, 1), S(1, -1)};
	auto add = [&](std::vector<Leg> l, int rule) { o.push_back({&kZ(), {l, {rule}}}); };
	if (what < 2)
	{
		add({a, b}, 0);
		add({a, b}, 1);
		add({w, x}, 0);
		add({x, w}, 0);
		add({u, a}, 1);
		add({r, t}, 1);
		add({w, w}, 0);
		o.push_back({&kC3(), {{{{1, {2}}, {2, {1}}, {1, {0}}}, {{1, {1}}, {2, {2}}}}, {0}}});
		o.push_back({&kZC2(), {{{{1, {0, 1}}, {2, {1, 0}}}, {{1, {-1, 1}}, {2, {0, 1}}}}, {0, 0}}});
	}
	// sections without elements, as truncations make
	add({{S(1, 1), S(0, 0), S(2, 0)}, x}, 0);
	add({{S(0, 1), S(2, 0)}, b}, 0);
	if (what == 0)
	{
		add({u}, 0);
		add({r}, 1);
		add({}, 0);
		add({y, y, t}, 0);
		add({a, t, b}, 0);
		add({b, a, y}, 1);
		add({y, y, y, y}, 0);
		add({y, y, y, y}, 2);
		o.push_back({&kC2(), {{{{1, {0}}, {2, {1}}}, {{1, {1}}, {1, {0}}}, {{2, {1}}}}, {1}}});
	}
	if (what != 0)
	{
		add({t, a, b}, 0);
		add({y, a, b}, 1);
		add({a, w, x}, 0);
		add({u, y, a}, 1);
		// two batch dimensions
		add({a, y, {S(1, 0)}, b}, 1);
		add({{S(2, 0), S(1, 0)}, y, x, t}, 0);
		add({r, {S(2, 0), S(1, 0)}, a, t}, 1);
		o.push_back({&kC2(), {{{{1, {0}}, {2, {1}}}, {{1, {1}}, {1, {0}}}, {{2, {1}}, {1, {0}}}}, {1}}});
	}
	add({a, a}, 2);
	add({u, x}, 0);
	add({a, y, w}, 1);
	if (what == 0)
		add({a, y, y, b}, 0);
	if (thorough)
	{ // every pair, and every triple of the smaller legs
		std::vector<Leg> legs{a, b, r, u, w, x, y};
		for (auto &p : legs)
			for (auto &q : legs)
				for (int rule : {-1, 0, 1, 2})
					add({p, q}, rule);
		std::vector<Leg> small{a, b, r, y, t};
		for (auto &p : small)
			for (auto &q : small)
				for (auto &z : small)
					for (int rule : {0, 1})
						add({p, q, z}, rule);
	}
	return o;
}
enum
{
	GENERIC,
	ONES,
	ZERO,
	N_CONTENTS
};
template <class T>
RefT<T> filled(const Kind &k, const Shape &s, const std::vector<idx> &p, int how)
{
	auto r = make_ref<T>(k, s, p, 1);
	if (how != GENERIC)
		for (auto &x : r.a.v)
			x = x == T(0) ? T(0) : how == ONES ? T(1) : T(0);
	return r;
}
int64_t rows_of(const Shape &s, size_t split)
{
	int64_t m = 1;
	for (size_t d = 0; d < split; ++d)
		m *= size_of(s.legs[d]);
	return m;
}
template <class T>
Mat<T> as_matrix(const btensor &t, int64_t rows) { return Mat<T>(assemble<T>(t), rows); }
// columns [b] of an array of shape (rows, bonds): orthonormal, where there is a singular value (a tensor without blocks
// has none: the bond then is a single section of size 1 on which nothing is stored)
template <class T>
void orthonormal(mc::Ctx &c, const Mat<T> &u, const std::string &w, double tol, bool none = false)
{
	Mat<T> one(u.n, u.n);
	for (int64_t i = 0; i < u.n; ++i)
		one(i, i) = none ? 0 : 1;
	auto p = mul(dag(u), u);
	REQUIRE(dist(p, one) < tol, w, " is not an isometry");
}
void descending(mc::Ctx &c, const btensor &d)
{
	for (auto &b : d.blocks())
	{
		auto x = from_torch<double>(std::get<1>(b));
		int64_t n = x.shape.back();
		for (size_t i = 0; i < x.v.size(); ++i)
		{
			REQUIRE(x.v[i] >= 0, "negative singular value ", x.v[i]);
			if (i % n)
				REQUIRE(x.v[i] <= x.v[i - 1], "singular values of a block are not in order");
		}
	}
}
template <class T>
std::string type_name() { return std::is_same_v<T, double> ? "double" : "complex"; }
template <class T>
void tensor_svd_of(mc::Ctx &c, int max_free, bool as_float)
{
	auto menu = menu12(0, c.thorough);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), max_free);
	size_t split = c.choose(r + 1, "split");
	int how = c.choose(N_CONTENTS, "content");
	bool deff = c.flip("default element type float");
	auto A_ = filled<T>(*n.k, n.s, present, how);
	c.describe(mc::cat("svd of ", as_float ? "float" : type_name<T>(), how == ONES ? " ones " : how == ZERO ? " zeros " : " ", str(n.s), present_str(present), " split ", split, deff ? " default float" : ""));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(deff ? torch::kFloat : torch::kDouble));
	auto A = build(A_);
	if (as_float)
		A = A.to(torch::kFloat);
	double tol = as_float ? 1e-4 : 1e-10;
	c.step();
	std::tuple<btensor, btensor, btensor> udv;
	bool threw = throws([&] { udv = svd(A, split); });
	if (split == 0 || split == (size_t)r)
	{ // one side without dimension: refused, or right
		unchanged(c, A, A_, "operand");
		if (threw)
			return;
	}
	REQUIRE(!threw, "threw");
	auto &[U, d, V] = udv;
	if (!as_float)
		unchanged(c, A, A_, "operand");
	valid(c, U, "U");
	valid(c, d, "d");
	valid(c, V, "V");
	REQUIRE(U.dim() == (int64_t)split + 1 && V.dim() == r - (int64_t)split + 1 && d.dim() == 1, "ranks");
	same_dtype(c, U, "U");
	same_dtype(c, V, "V");
	same_dtype(c, d, "d");
	REQUIRE(U.options().dtype() == A.options().dtype() && V.options().dtype() == A.options().dtype(), "element type of U and V");
	REQUIRE(d.options().dtype() == torch::scalarTypeToTypeMeta(as_float ? torch::kFloat : torch::kDouble), "element type of d");
	int64_t B = d.sizes()[0];
	REQUIRE(U.sizes().back() == B && V.sizes().back() == B, "bond sizes");
	auto u = as_matrix<T>(U, rows_of(n.s, split)), v = as_matrix<T>(V, prod(sizes_of(n.s)) / std::max<int64_t>(1, rows_of(n.s, split)));
	bool none = d.blocks().empty();
	REQUIRE(B > 0 && (!none || B == 1), "bond size ", B);
	orthonormal(c, u, "U", tol, none);
	orthonormal(c, v, "V", tol, none);
	descending(c, d);
	auto got = assemble<double>(d).v;
	auto want = singular_values(Mat<T>(A_.a, rows_of(n.s, split)));
	REQUIRE(same_spectrum(got, want, tol * 10), "singular values ", dstr(got), ", expected ", dstr(want));
	auto back = tensordot(U.mul(d), V.conj(), {U.dim() - 1}, {V.dim() - 1});
	compare(c, *n.k, back, n.s, A_.a, "reconstruction", tol);
	// the legs of the factors that are not the bond are those of the tensor
	Shape us{{n.s.legs.begin(), n.s.legs.begin() + split}, U.dim() ? Val() : Val()};
	for (size_t dd = 0; dd < split; ++dd)
		for (size_t i = 0; i < n.s.legs[dd].size(); ++i)
			REQUIRE(U.section_number(dd) == n.s.legs[dd].size() && (int64_t)U.section_size(dd, i) == n.s.legs[dd][i].size && U.section_conserved_qtt(dd, i) == n.k->make(n.s.legs[dd][i].q), "sections of U in dimension ", dd);
	// the bond can be contracted from both sides
	{
		auto uu = tensordot(U.conj(), U, idx([&] { idx x(split); std::iota(x.begin(), x.end(), 0); return x; }()), idx([&] { idx x(split); std::iota(x.begin(), x.end(), 0); return x; }()));
		valid(c, uu, "U conj U");
		auto vd = V.mul(d);
		valid(c, vd, "V d");
	}
}
template <class T>
void batched_svd_of(mc::Ctx &c, int max_free)
{
	auto menu = menu12(1, c.thorough);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), max_free);
	int how = c.choose(N_CONTENTS, "content");
	bool some = !c.flip("full"), uv = !some || !c.flip("no vectors");
	auto A_ = filled<T>(*n.k, n.s, present, how);
	c.describe(mc::cat(some ? "" : "full ", "svd of matrices ", type_name<T>(), how == ONES ? " ones " : how == ZERO ? " zeros " : " ", str(n.s), present_str(present), uv ? "" : " without vectors"));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kDouble));
	auto A = build(A_);
	c.step();
	auto [U, d, V] = svd(A, BOOL(some), BOOL(uv));
	unchanged(c, A, A_, "operand");
	valid(c, d, "d");
	descending(c, d);
	auto dd = assemble<double>(d);
	auto sizes = sizes_of(n.s);
	int64_t nb = 1, m = size_of(n.s.legs[r - 2]), k = size_of(n.s.legs[r - 1]), B = d.sizes().back();
	idx bsizes(sizes.begin(), sizes.end() - 2);
	for (auto x : bsizes)
		nb *= x;
	for (int64_t b = 0; b < nb; ++b)
	{
		Mat<T> a(m, k);
		std::copy_n(A_.a.v.begin() + b * m * k, m * k, a.v.begin());
		std::vector<double> got(dd.v.begin() + b * B, dd.v.begin() + (b + 1) * B);
		auto want = singular_values(a);
		REQUIRE(same_spectrum(got, want, 1e-9), "singular values ", dstr(got), ", expected ", dstr(want));
	}
	if (!uv)
		return;
	valid(c, U, "U");
	valid(c, V, "V");
	// whether the diagonal of that matrix of the batch has a block for that section of the bond
	auto stored = [&](int64_t b, int64_t bond_section) {
		idx key(bsizes.size() + 1, 0);
		key.back() = bond_section;
		for (int64_t i = (int64_t)bsizes.size() - 1; i >= 0; --i)
		{
			int64_t at = b % bsizes[i];
			b /= bsizes[i];
			while (at >= n.s.legs[i][key[i]].size)
				at -= n.s.legs[i][key[i]++].size;
		}
		for (auto &x : d.blocks())
			if (std::get<0>(x) == key)
				return true;
		return false;
	};
	if (some)
	{
		auto ua = assemble<T>(U), va = assemble<T>(V);
		for (int64_t b = 0; b < nb; ++b)
		{
			Mat<T> u(m, B), v(k, B);
			std::copy_n(ua.v.begin() + b * m * B, m * B, u.v.begin());
			std::copy_n(va.v.begin() + b * k * B, k * B, v.v.begin());
			Mat<T> one(B, B);
			for (int64_t x = 0, s = 0, e = 0; x < B; ++x)
			{
				while ((int64_t)d.section_size(d.dim() - 1, s) == e)
					++s, e = 0;
				one(x, x) = stored(b, s) ? 1 : 0;
				++e;
			}
			REQUIRE(dist(mul(dag(u), u), one) < 1e-10, "U is not an isometry");
			REQUIRE(dist(mul(dag(v), v), one) < 1e-10, "V is not an isometry");
		}
		auto d_r = d.reshape_as(shape_from(d, btensor({{{1, d.selection_rule->neutral()}}}, d.selection_rule->neutral()))).transpose_(-1, -2);
		auto Vt = V.transpose(-1, -2).conj();
		auto back = U.mul(d_r).bmm(Vt);
		compare(c, *n.k, back, n.s, A_.a, "reconstruction");
	}
}
} // namespace
MC_SUITE(tensor_svd_double) { tensor_svd_of<double>(c, c.thorough ? 10 : 8, false); }
MC_SUITE(tensor_svd_float) { tensor_svd_of<double>(c, c.thorough ? 6 : 4, true); }
MC_SUITE(tensor_svd_complex) { tensor_svd_of<Cx>(c, c.thorough ? 8 : 6, false); }
MC_SUITE(matrices_svd_double) { batched_svd_of<double>(c, c.thorough ? 10 : 8); }
MC_SUITE(matrices_svd_complex) { batched_svd_of<Cx>(c, c.thorough ? 8 : 6); }
template <class T>
static void dense_svd_of(mc::Ctx &c)
{
	idx shape;
	int r = c.choose(4, "rank") + 1;
	for (int i = 0; i < r; ++i)
		shape.push_back(c.choose(3, "size") + 1);
	size_t split = c.choose(r + 1, "split");
	int how = c.choose(N_CONTENTS, "content");
	bool perm = c.flip("strided");
	ArrT<T> a(shape);
	for (size_t i = 0; i < a.v.size(); ++i)
	{
		if constexpr (std::is_same_v<T, double>)
			a.v[i] = gen(3, i);
		else
			a.v[i] = T(gen(3, i), gen(4, i));
		if (how != GENERIC)
			a.v[i] = how == ONES;
	}
	c.describe(mc::cat("dense svd of ", type_name<T>(), " ", mc::vstr(shape), " split ", split, " content ", how, perm ? " strided" : ""));
	auto A = to_torch(a);
	if (perm)
	{
		idx p(r);
		std::iota(p.rbegin(), p.rend(), 0);
		A = A.permute(p).contiguous().permute(p);
	}
	auto copy = A.clone();
	c.step();
	auto [U, d, V] = split % 2 ? svd(A, int(split)) : svd(A, split);
	REQUIRE(A.equal(copy), "operand changed");
	int64_t m = 1, n = 1;
	idx us, vs;
	for (int i = 0; i < r; ++i)
		(i < (int)split ? m : n) *= shape[i], (i < (int)split ? us : vs).push_back(shape[i]);
	int64_t B = std::min(m, n);
	us.push_back(B);
	vs.push_back(B);
	REQUIRE(idx(U.sizes().begin(), U.sizes().end()) == us && idx(V.sizes().begin(), V.sizes().end()) == vs && d.dim() == 1 && d.size(0) == B, "sizes");
	auto u = Mat<T>(from_torch<T>(U), m), v = Mat<T>(from_torch<T>(V), n);
	orthonormal(c, u, "U", 1e-10);
	orthonormal(c, v, "V", 1e-10);
	auto s = from_torch<double>(d).v, want = singular_values(Mat<T>(a, m));
	for (int64_t i = 0; i < B; ++i)
		REQUIRE(s[i] >= 0 && std::abs(s[i] - want[i]) < 1e-9, "singular value ", i, ": ", s[i], ", expected ", want[i]);
	Mat<T> ud = u;
	for (int64_t i = 0; i < m; ++i)
		for (int64_t j = 0; j < B; ++j)
			ud(i, j) *= s[j];
	REQUIRE(dist(mul(ud, dag(v)), Mat<T>(a, m)) < 1e-9, "reconstruction");
	c.state(mc::mix(m * 100 + n, how));
}
MC_SUITE(dense_svd_double) { dense_svd_of<double>(c); }
MC_SUITE(dense_svd_complex) { dense_svd_of<Cx>(c); }
int main(int argc, char **argv) { return mc::main_(argc, argv); }
