// C14: truncation
#include "blockTensor/LinearAlgebra.h"
#include "LinearAlgebra.h"
#include "la.h"
using namespace bm;
using torch::indexing::Ellipsis;
using torch::indexing::Slice;
namespace
{
constexpr size_t NOMAX = std::numeric_limits<size_t>::max();
struct Rule
{
	double tol, pow;
	size_t min, max;
};
std::string str(const Rule &r) { return mc::cat("tol ", r.tol, " pow ", r.pow, " min ", r.min, " max ", r.max == NOMAX ? std::string("none") : mc::cat(r.max)); }
// number of values kept by the definition; magnitudes in descending order
size_t kept_by(const std::vector<double> &v, const Rule &r)
{
	size_t n = v.size();
	double lim = std::pow(r.tol, r.pow);
	while (n > 0 && n > r.min)
	{
		double tail = 0;
		for (size_t i = v.size(); i-- > n - 1;)
			tail += std::pow(std::abs(v[i]), r.pow);
		if (tail > lim && n <= r.max)
			break;
		--n;
	}
	return n;
}
double tail_norm(const std::vector<double> &v, size_t kept, double pow)
{
	double t = 0;
	for (size_t i = v.size(); i-- > kept;)
		t += std::pow(std::abs(v[i]), pow);
	return std::pow(t, 1 / pow);
}
// a truncation rule: tolerances at and around every threshold of the spectrum
Rule choose_rule(mc::Ctx &c, const std::vector<double> &v, bool exact)
{
	Rule r;
	r.pow = c.choose(3, "pow") + 1;
	size_t N = v.size();
	std::vector<double> tols{0};
	double last = 0;
	for (size_t k = N; k-- > 0;)
	{
		double t = tail_norm(v, k, r.pow);
		if (t <= last * (1 + 1e-5) || t < 1e-7)
			continue;
		tols.push_back(t * (1 - 1e-6));
		if (exact && r.pow == 1)
			tols.push_back(t);
		tols.push_back(t * (1 + 1e-6));
		last = t;
	}
	r.tol = c.pick(tols, "tolerance");
	std::vector<size_t> mins{0, 1, 2, N}, maxs{1, 2, N, NOMAX};
	std::sort(mins.begin(), mins.end());
	mins.erase(std::unique(mins.begin(), mins.end()), mins.end());
	std::sort(maxs.begin(), maxs.end());
	maxs.erase(std::unique(maxs.begin(), maxs.end()), maxs.end());
	if (maxs[0] == 0)
		maxs.erase(maxs.begin());
	r.min = c.pick(mins, "min");
	r.max = c.pick(maxs, "max");
	if (r.min > r.max)
		c.skip();
	return r;
}
std::vector<double> choose_values(mc::Ctx &c, int nmax, bool thorough)
{
	static const double few[] = {3, 1, 0.5, 0}, many[] = {3, 2, 1, 0.5, 0};
	int L = thorough ? 5 : 4, n = c.choose(nmax, "number of values") + 1, lo = 0;
	std::vector<double> v;
	for (int i = 0; i < n; ++i)
	{
		lo += c.choose(L - lo, "value");
		v.push_back((thorough ? many : few)[lo]);
	}
	return v;
}
// truncation of factors made by hand: which columns are left
void factors(mc::Ctx &c, int nmax, int smax, bool as_float, bool eigen)
{
	auto v = choose_values(c, nmax, c.thorough);
	int S = c.choose(smax, "sections") + 1, n = v.size();
	std::vector<std::vector<double>> in(S);
	for (auto x : v)
		in[c.choose(S, "section")].push_back(x);
	bool unstored = false;
	for (auto &x : in)
		if (x.empty())
			unstored = true;
	int layout = c.choose(2, "layout");
	if (eigen) // values in ascending order, of both signs
		for (auto &x : in)
		{
			for (size_t i = 0; i < x.size(); i += 2)
				x[i] = -x[i];
			std::sort(x.begin(), x.end());
		}
	auto rule = choose_rule(c, v, true);
	// bond section s has quantity s; rows: two sections for each quantity, one of them before and one after the others
	btensor::vec_list_t ul(2), vl(2), dl(1);
	for (int s = 0; s < S; ++s)
	{
		size_t sz = in[s].empty() ? 2 : in[s].size();
		ul[1].emplace_back(sz, kZ().make({s}));
		vl[1].emplace_back(sz, kZ().make({-s}));
		dl[0].emplace_back(sz, kZ().make({0}));
	}
	std::vector<int> rq;
	for (int s = 0; s < S; ++s)
		rq.push_back(s);
	for (int s = 0; s < S; ++s)
		layout ? rq.push_back(s) : (void)rq.insert(rq.begin() + 2 * s, s);
	for (auto s : rq)
	{
		ul[0].emplace_back(size_t(1 + s), kZ().make({-s}));
		vl[0].emplace_back(size_t(2), kZ().make({s}));
	}
	auto type = as_float ? torch::kFloat : torch::kDouble;
	auto opt = torch::TensorOptions().dtype(type);
	btensor U(ul, kZ().make({0}), opt), V(vl, kZ().make({0}), opt), d(dl, kZ().make({0}), opt);
	for (int s = 0; s < S; ++s)
	{
		int64_t m = in[s].size();
		if (!m)
			continue;
		d.block({s}) = torch::tensor(in[s], torch::kDouble).to(type);
		for (int r = 0; r < (int)rq.size(); ++r)
			if (rq[r] == s)
			{
				Arr a({1 + s, m}), b({2, m});
				for (size_t i = 0; i < a.v.size(); ++i)
					a.v[i] = gen(1 + r, i);
				for (size_t i = 0; i < b.v.size(); ++i)
					b.v[i] = gen(100 + r, i);
				U.block({r, s}) = to_torch(a).to(type);
				V.block({r, s}) = to_torch(b).to(type);
			}
	}
	std::string ds;
	for (auto &x : in)
		ds += mc::vstr(x);
	c.describe(mc::cat("truncation of ", eigen ? "eigenvalues " : "singular values ", ds, " ", str(rule), layout ? " rows apart" : " rows adjacent", as_float ? " float" : ""));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(type));
	auto ua = assemble<double>(U), va = assemble<double>(V);
	// what is kept: the largest, and what equals the smallest of them
	size_t k = kept_by(v, rule);
	double smallest = k ? v[k - 1] : std::numeric_limits<double>::infinity();
	auto keep = [&](double x) { return x != 0 && std::abs(x) >= smallest; };
	c.step();
	btensor U2, d2, V2;
	if (eigen)
		std::tie(d2, U2) = truncate(std::move(d), std::move(U), rule.max, rule.min, rule.tol, rule.pow);
	else
		std::tie(U2, d2, V2) = truncate(std::move(U), std::move(d), std::move(V), rule.max, rule.min, rule.tol, rule.pow);
	valid(c, U2, "U");
	valid(c, d2, "d");
	if (!eigen)
		valid(c, V2, "V");
	same_dtype(c, d2, "d");
	same_dtype(c, U2, "U");
	auto u2 = assemble<double>(U2), v2 = eigen ? u2 : assemble<double>(V2);
	auto dd = assemble<double>(d2).v;
	REQUIRE(u2.shape[1] == (int64_t)dd.size() && v2.shape[1] == (int64_t)dd.size(), "bond sizes differ");
	// columns with a stored value, in order
	std::vector<char> stored(dd.size(), 0);
	for (auto &b : d2.blocks())
	{
		int64_t st = 0;
		for (int64_t i = 0; i < std::get<0>(b)[0]; ++i)
			st += d2.section_size(0, i);
		for (int64_t i = 0; i < std::get<1>(b).size(0); ++i)
			stored[st + i] = 1;
	}
	size_t at = 0, start = 0, count = 0;
	for (int s = 0; s < S; ++s)
	{
		std::vector<std::pair<double, size_t>> want;
		for (size_t i = 0; i < in[s].size(); ++i)
			if (keep(in[s][i]))
				want.push_back({in[s][i], start + i});
		if (eigen)
		{ // order within a block is free: match by value
			std::vector<char> used(want.size(), 0);
			for (size_t w = 0; w < want.size(); ++w)
			{
				while (at < dd.size() && !stored[at])
					++at;
				REQUIRE(at < dd.size(), "a value of section ", s, " is missing");
				size_t j = 0;
				auto same_col = [&](size_t j) {
					for (int64_t i = 0; i < ua.shape[0]; ++i)
						if (u2({i, (int64_t)at}) != ua({i, (int64_t)want[j].second}))
							return false;
					return true;
				};
				while (j < want.size() && (used[j] || want[j].first != dd[at] || !same_col(j)))
					++j;
				REQUIRE(j < want.size(), "value ", dd[at], " does not belong in section ", s, " or has the wrong vector");
				used[j] = 1;
				++at, ++count;
			}
		}
		else
			for (auto &w : want)
			{
				while (at < dd.size() && !stored[at])
					++at;
				REQUIRE(at < dd.size(), "a value of section ", s, " is missing");
				REQUIRE(dd[at] == w.first, "value ", dd[at], " kept in section ", s, ", expected ", w.first);
				for (int64_t i = 0; i < ua.shape[0]; ++i)
					REQUIRE(u2({i, (int64_t)at}) == ua({i, (int64_t)w.second}), "column of U of the value ", w.first);
				for (int64_t i = 0; i < va.shape[0]; ++i)
					REQUIRE(v2({i, (int64_t)at}) == va({i, (int64_t)w.second}), "column of V of the value ", w.first);
				++at, ++count;
			}
		start += in[s].empty() ? 2 : in[s].size();
	}
	for (; at < dd.size(); ++at)
		REQUIRE(!stored[at], "value ", dd[at], " kept in excess");
	for (size_t j = 0; j < dd.size(); ++j)
		if (!stored[j])
		{
			for (int64_t i = 0; i < u2.shape[0]; ++i)
				REQUIRE(u2({i, (int64_t)j}) == 0, "U has a vector without value");
			for (int64_t i = 0; i < v2.shape[0]; ++i)
				REQUIRE(v2({i, (int64_t)j}) == 0, "V has a vector without value");
		}
	c.state(mc::mix(mc::mix(count, n), unstored));
}
// what remains after truncating to n of the values v; other values equal to the smallest may be kept with it
template <class T>
void judge(mc::Ctx &c, std::vector<double> got, std::vector<double> v, const Rule &r, double err, bool blocks)
{
	auto by = [](double x, double y) { return std::abs(x) > std::abs(y); };
	std::sort(got.begin(), got.end(), by);
	while (got.size() && std::abs(got.back()) < 1e-12)
		got.pop_back();
	std::sort(v.begin(), v.end(), by);
	std::vector<double> nz = v;
	while (nz.size() && std::abs(nz.back()) < 1e-9)
		nz.pop_back();
	// nothing is asked of values that vanish to rounding
	size_t k = std::min(kept_by(v, r), nz.size()), hi = k;
	while (k && hi < nz.size() && std::abs(nz[k - 1]) - std::abs(nz[hi]) < 1e-9)
		++hi;
	if (!blocks)
		hi = k;
	size_t lo = k;
	REQUIRE(got.size() >= lo && got.size() <= hi, got.size(), " values kept: ", dstr(got), ", expected ", k, " of ", dstr(v));
	for (size_t i = 0; i < got.size(); ++i)
		REQUIRE(std::abs(std::abs(got[i]) - std::abs(nz[i])) < 1e-9, "kept ", dstr(got), ", expected the largest of ", dstr(v));
	double want = tail_norm(v, got.size(), 2);
	REQUIRE(std::abs(err - want) < 1e-8, "reconstruction error ", err, ", norm of what is discarded ", want);
}
std::vector<Named> menu14(bool thorough)
{
	std::vector<Named> o;
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg a{S(1, 0), S(2, 1)}, b{S(2, 0), S(1, -1)}, u{S(2, 1), S(1, -1), S(1, 0)}, w{S(1, 0), S(2, 0), S(1, 1)}, x{S(1, -1), S(1, 0), S(2, 0)}, y{S(1, 1), S(1, -1)};
	auto add = [&](std::vector<Leg> l, int rule) { o.push_back({&kZ(), {l, {rule}}}); };
	add({a, b}, 0);
	add({w, x}, 0);
	add({u, a}, 1);
	add({{S(1, 1), S(0, 0), S(2, 0), S(0, -1)}, {S(1, -1), S(2, 0), S(1, 1)}}, 0); // sections without elements, as other truncations make
	add({b, a, y}, 1);
	add({y, y, y, y}, 0);
	o.push_back({&kZC2(), {{{{1, {0, 1}}, {2, {1, 0}}}, {{1, {-1, 1}}, {2, {0, 1}}}}, {0, 1}}});
	if (thorough)
	{
		add({w, w}, 0);
		add({x, w}, 1);
		add({a, y, w}, 0);
		add({a, y, y, b}, 0);
		o.push_back({&kC3(), {{{{1, {2}}, {2, {1}}, {1, {0}}}, {{1, {1}}, {2, {2}}}}, {0}}});
	}
	return o;
}
template <class T>
double frob(const ArrT<T> &a, const ArrT<T> &b)
{
	double e = 0;
	for (size_t i = 0; i < a.v.size(); ++i)
		e += std::norm(a.v[i] - b.v[i]);
	return std::sqrt(e);
}
template <class T>
void svd_of(mc::Ctx &c, int max_free)
{
	auto menu = menu14(c.thorough);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), max_free);
	size_t split = 1 + c.choose(r - 1, "split");
	bool ones = c.flip("ones");
	auto A_ = make_ref<T>(*n.k, n.s, present, 1);
	if (ones)
		for (auto &x : A_.a.v)
			x = x == T(0) ? T(0) : T(1);
	int64_t rows = 1;
	for (size_t i = 0; i < split; ++i)
		rows *= size_of(n.s.legs[i]);
	auto v = singular_values(Mat<T>(A_.a, rows));
	auto rule = choose_rule(c, v, false);
	c.describe(mc::cat("truncating svd of ", std::is_same_v<T, double> ? "double " : "complex ", ones ? "ones " : "", str(n.s), present_str(present), " split ", split, " ", str(rule)));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kDouble));
	auto A = build(A_);
	c.step();
	std::tuple<btensor, btensor, btensor> udv;
	if (rule.min == 1 && rule.max == NOMAX)
		udv = split % 2 ? svd(A, split, rule.tol, rule.pow) : svd(A, int(split), rule.tol, rule.pow);
	else
		udv = split % 2 ? svd(A, split, rule.tol, rule.min, rule.max, rule.pow) : svd(A, int(split), rule.tol, rule.min, rule.max, rule.pow);
	auto &[U, d, V] = udv;
	unchanged(c, A, A_, "operand");
	valid(c, U, "U");
	valid(c, d, "d");
	valid(c, V, "V");
	auto back = tensordot(U.mul(d), V.conj(), {U.dim() - 1}, {V.dim() - 1});
	valid(c, back, "reconstruction");
	std::vector<double> got;
	for (auto &b : d.blocks())
		for (auto x : from_torch<double>(std::get<1>(b)).v)
			got.push_back(x);
	judge<T>(c, got, v, rule, frob(assemble<T>(back), A_.a), true);
	c.state(mc::mix(got.size(), v.size()));
}
template <class T>
void eigh_of(mc::Ctx &c, int max_free)
{
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	std::vector<std::pair<const Kind *, std::vector<Leg>>> menu{{&kZ(), {{S(1, 0), S(2, 1)}}}, {&kZ(), {{S(1, 0), S(2, 0), S(1, 1)}}}, {&kZ(), {{S(1, 1), S(1, -1)}, {S(1, 1), S(1, -1)}}}, {&kZ(), {{S(3, 1)}}}};
	if (c.thorough)
	{
		menu.push_back({&kZ(), {{S(1, 1), S(2, 0), S(2, 1)}}});
		menu.push_back({&kZ(), {{S(1, 0), S(1, 1)}, {S(1, 0), S(2, 1)}}});
		menu.push_back({&kC2(), {{{2, {1}}, {2, {0}}}}});
	}
	auto &[k, rows] = c.pick(menu, "structure");
	Shape s{rows, qm::zero(*k)};
	for (auto &l : rows)
		s.legs.push_back(inv(*k, l));
	size_t n = rows.size();
	std::vector<idx> present;
	int i = 0;
	for (auto &b : blocks_allowed(*k, s))
	{
		idx m(b.begin() + n, b.end());
		m.insert(m.end(), b.begin(), b.begin() + n);
		if (m < b)
			continue;
		if (i++ < max_free ? c.choose(2, "stored") : 1)
		{
			present.push_back(b);
			if (b != m)
				present.push_back(m);
		}
	}
	std::sort(present.begin(), present.end());
	auto mask = make_ref<double>(*k, s, present, 1);
	RefT<T> A_{k, s, present, ArrT<T>(sizes_of(s))};
	int64_t N = 1;
	for (auto &l : rows)
		N *= size_of(l);
	bool degenerate = c.flip("degenerate");
	for (int64_t x = 0; x < N * N; ++x)
		if (mask.a.v[x] != 0)
		{
			int64_t p = x / N, q = x % N;
			auto y = gen(7, std::min(p, q) * 64 + std::max(p, q)), z = p == q ? 0 : p < q ? gen(8, x) : -gen(8, q * N + p);
			if (degenerate)
				y = p == q ? (p % 2 ? -1 : 1) : 0, z = 0;
			if constexpr (std::is_same_v<T, double>)
				A_.a.v[x] = y;
			else
				A_.a.v[x] = T(y, z);
		}
	auto v = hermitian_eigenvalues(Mat<T>(A_.a, N));
	std::sort(v.begin(), v.end(), [](double x, double y) { return std::abs(x) > std::abs(y); });
	auto rule = choose_rule(c, v, false);
	bool dense = c.flip("dense");
	c.describe(mc::cat("truncating ", dense ? "dense " : "", "eigh of ", std::is_same_v<T, double> ? "double " : "complex ", degenerate ? "degenerate " : "", str(s), present_str(present), " ", str(rule)));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kDouble));
	c.step();
	if (dense)
	{
		auto A = to_torch(A_.a);
		auto copy = A.clone();
		std::tuple<torch::Tensor, torch::Tensor> du;
		if (rule.min == 1 && rule.max == NOMAX)
			du = quantit::eigh(A, n, rule.tol, rule.pow);
		else
			du = quantit::eigh(A, n, rule.tol, rule.min, rule.max, rule.pow);
		auto &[d, U] = du;
		REQUIRE(A.equal(copy), "operand changed");
		REQUIRE(U.dim() == (int64_t)n + 1 && d.dim() == 1 && U.size(n) == d.size(0), "sizes");
		auto u = Mat<T>(from_torch<T>(U), N), ud = u;
		auto e = from_torch<double>(d).v;
		for (int64_t i = 0; i < u.m; ++i)
			for (int64_t j = 0; j < u.n; ++j)
				ud(i, j) *= e[j];
		ArrT<T> back(A_.a.shape);
		back.v = mul(ud, dag(u)).v;
		size_t want = kept_by(v, rule), zeros = 0;
		for (auto x : v)
			zeros += std::abs(x) < 1e-9;
		if (!zeros)
			REQUIRE(e.size() == want, e.size(), " values kept, expected ", want);
		judge<T>(c, e, v, rule, frob(back, A_.a), false);
		return;
	}
	auto A = build(A_);
	std::tuple<btensor, btensor> du;
	if (rule.min == 1 && rule.max == NOMAX)
		du = quantit::eigh(A, n, rule.tol, rule.pow);
	else
		du = quantit::eigh(A, n, rule.tol, rule.min, rule.max, rule.pow);
	auto &[d, U] = du;
	unchanged(c, A, A_, "operand");
	valid(c, U, "U");
	valid(c, d, "d");
	auto back = tensordot(U.mul(d), U.conj(), {U.dim() - 1}, {U.dim() - 1});
	std::vector<double> got;
	for (auto &b : d.blocks())
		for (auto x : from_torch<double>(std::get<1>(b)).v)
			got.push_back(x);
	judge<T>(c, got, v, rule, frob(assemble<T>(back), A_.a), true);
	c.state(mc::mix(got.size(), v.size()));
}
} // namespace
MC_SUITE(singular_factors) { factors(c, c.thorough ? 4 : 3, c.thorough ? 3 : 2, false, false); }
MC_SUITE(singular_factors_float) { factors(c, c.thorough ? 3 : 2, 2, true, false); }
MC_SUITE(eigen_factors) { factors(c, c.thorough ? 4 : 3, c.thorough ? 3 : 2, false, true); }
MC_SUITE(svd_double) { svd_of<double>(c, c.thorough ? 6 : 2); }
MC_SUITE(svd_complex) { svd_of<Cx>(c, c.thorough ? 4 : 1); }
MC_SUITE(eigh_double) { eigh_of<double>(c, c.thorough ? 8 : 3); }
MC_SUITE(eigh_complex) { eigh_of<Cx>(c, c.thorough ? 6 : 2); }
// dense factors, alone and in batches that are truncated together
MC_SUITE(dense_factors)
{
	auto v = choose_values(c, c.thorough ? 5 : 4, c.thorough);
	int batch = c.choose(3, "batch"), form = c.choose(6, "form");
	bool deff = c.flip("default element type float"), neg = c.flip("negative values");
	auto rule = choose_rule(c, v, true);
	int64_t n = v.size();
	if (form == 5 && batch)
		c.skip();
	// the other matrices of a batch have smaller values
	int64_t nb = std::max(1, batch);
	Arr d(batch ? idx{nb, n} : idx{n}), u(batch ? idx{nb, 2, n} : idx{2, n}), w(batch ? idx{nb, 3, n} : idx{3, n});
	for (int64_t b = 0; b < nb; ++b)
		for (int64_t i = 0; i < n; ++i)
			d.v[b * n + i] = (b ? v[i] / 2 : v[i]) * (neg && i % 2 ? -1 : 1);
	for (size_t i = 0; i < u.v.size(); ++i)
		u.v[i] = gen(1, i);
	for (size_t i = 0; i < w.v.size(); ++i)
		w.v[i] = gen(2, i);
	auto D = to_torch(d), U = to_torch(u), W = to_torch(w);
	const char *names[] = {"of three tensors", "of a tuple of three", "of two tensors", "of a tuple of two", "compute_last_index", "compute_first_index_ascending"};
	c.describe(mc::cat("truncation ", names[form], " ", mc::vstr(v), neg ? " signs alternate" : "", " batch ", batch, " ", str(rule), deff ? " default float" : ""));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(deff ? torch::kFloat : torch::kDouble));
	int64_t k = kept_by(v, rule);
	c.step();
	torch::Tensor u2, d2, w2;
	auto cols = [&](const torch::Tensor &t) { return t.index({Ellipsis, Slice(0, k)}); };
	if (form == 0)
		std::tie(u2, d2, w2) = quantit::truncate(U, D, W, rule.tol, rule.min, rule.max, rule.pow);
	if (form == 1)
	{
		auto t = std::make_tuple(U, D, W);
		std::tie(u2, d2, w2) = quantit::truncate(t, rule.tol, rule.min, rule.max, rule.pow);
	}
	if (form == 2)
		std::tie(u2, d2) = quantit::truncate(U, D, rule.tol, rule.min, rule.max, rule.pow);
	if (form == 3)
	{
		auto t = std::make_tuple(U, D);
		std::tie(u2, d2) = quantit::truncate(t, rule.tol, rule.min, rule.max, rule.pow);
	}
	if (form == 4)
	{
		auto l = compute_last_index(D, rule.tol, rule.pow, rule.min, rule.max);
		REQUIRE(l == k - 1, "index ", l, ", expected ", k - 1);
	}
	else if (form == 5)
	{
		auto f = compute_first_index_ascending(D.flip({0}), rule.tol, rule.pow, rule.min, rule.max);
		REQUIRE(f == n - k, "index ", f, ", expected ", n - k);
	}
	else
	{
		REQUIRE(u2.sizes() == cols(U).sizes() && d2.sizes() == cols(D).sizes(), d2.size(-1), " values kept, expected ", k);
		REQUIRE(u2.equal(cols(U)) && d2.equal(cols(D)), "wrong columns");
		if (form < 2)
			REQUIRE(w2.sizes() == cols(W).sizes() && w2.equal(cols(W)), "wrong columns of the third");
	}
	c.state(mc::mix(k, n));
}
MC_SUITE(dense_truncating_svd)
{
	idx shape;
	int r = c.choose(3, "rank") + 1;
	for (int i = 0; i < r; ++i)
		shape.push_back(c.choose(c.thorough ? 4 : 3, "size") + 1);
	size_t split = c.choose(r + 1, "split");
	bool ones = c.flip("ones");
	Arr a(shape);
	for (size_t i = 0; i < a.v.size(); ++i)
		a.v[i] = ones ? 1 : gen(3, i);
	int64_t m = 1;
	for (size_t i = 0; i < split; ++i)
		m *= shape[i];
	auto v = singular_values(Mat<double>(a, m));
	auto rule = choose_rule(c, v, false);
	c.describe(mc::cat("dense truncating svd of ", mc::vstr(shape), ones ? " ones" : "", " split ", split, " ", str(rule)));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kDouble));
	auto A = to_torch(a), copy = A.clone();
	c.step();
	std::tuple<torch::Tensor, torch::Tensor, torch::Tensor> udv;
	if (rule.min == 1 && rule.max == NOMAX)
		udv = quantit::svd(A, split, rule.tol, rule.pow);
	else
		udv = quantit::svd(A, split, rule.tol, rule.min, rule.max, rule.pow);
	auto &[U, d, V] = udv;
	REQUIRE(A.equal(copy), "operand changed");
	REQUIRE(d.dim() == 1 && U.dim() == (int64_t)split + 1 && V.dim() == r - (int64_t)split + 1 && U.size(split) == d.size(0) && V.size(V.dim() - 1) == d.size(0), "sizes");
	size_t zeros = 0;
	for (auto x : v)
		zeros += std::abs(x) < 1e-9;
	auto e = from_torch<double>(d).v;
	if (!zeros)
		REQUIRE(e.size() == kept_by(v, rule), e.size(), " values kept, expected ", kept_by(v, rule));
	auto u = Mat<double>(from_torch<double>(U), m), w = Mat<double>(from_torch<double>(V), prod(shape) / m);
	for (int64_t i = 0; i < u.m; ++i)
		for (int64_t j = 0; j < u.n; ++j)
			u(i, j) *= e[j];
	Arr back(shape);
	if (e.size())
		back.v = mul(u, dag(w)).v;
	judge<double>(c, e, v, rule, frob(back, a), false);
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
