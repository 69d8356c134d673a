// C22: helpers on dense tensors: scaled contractions, lists of dimensions, precision of types, two by two matrices
#include "blockTensor/btensor.h"
#include "dimension_manip.h"
#include "dmrg.h"
#include "mps.h"
#include "numeric.h"
#include "tensorgdot.h"
using namespace bm;
namespace
{
// every ordered choice of k numbers below n
std::vector<idx> ordered(int n, int k)
{
	std::vector<idx> o;
	idx cur;
	std::function<void()> go = [&]() {
		if ((int)cur.size() == k)
			return o.push_back(cur);
		for (int i = 0; i < n; ++i)
			if (std::find(cur.begin(), cur.end(), i) == cur.end())
			{
				cur.push_back(i);
				go();
				cur.pop_back();
			}
	};
	go();
	return o;
}
template <class S>
std::string show(const S &x)
{
	std::string o = "(";
	for (auto i : x)
		o += mc::cat(i, " ");
	return o + ")";
}
enum Layout
{
	PACKED,
	TRANSPOSED,
	STEPPED,
	N_LAYOUTS
};
// a view with the given elements; base: the whole storage
template <class T>
torch::Tensor laid_out(const ArrT<T> &a, int layout, torch::Tensor &base)
{
	auto t = to_torch(a);
	if (layout == PACKED)
		return base = t;
	if (layout == TRANSPOSED)
	{
		std::vector<int64_t> p;
		for (int64_t d = t.dim() - 1; d >= 0; --d)
			p.push_back(d);
		base = t.permute(p).contiguous();
		return base.permute(p);
	}
	auto s = a.shape;
	for (auto &x : s)
		x = 2 * x + 1;
	base = torch::full(s, 7, t.options());
	auto v = base;
	for (int64_t d = 0; d < t.dim(); ++d)
		v = v.slice(d, 1, 2 * a.shape[d] + 1, 2);
	v.copy_(t);
	return v;
}
// the storage around the view is as it was
template <class T>
bool around_intact(const torch::Tensor &base, const ArrT<T> &a, int layout)
{
	if (layout != STEPPED)
		return true;
	auto b = base.clone();
	auto v = b;
	for (int64_t d = 0; d < b.dim(); ++d)
		v = v.slice(d, 1, 2 * a.shape[d] + 1, 2);
	v.fill_(7);
	return torch::equal(b, torch::full_like(b, 7));
}
template <class T>
void check_gdot(mc::Ctx &c)
{
	int top = c.thorough ? 4 : 3;
	int ra = c.choose(top + 1, "rank"), rb = c.choose(top + 1, "rank");
	if (ra + rb > 6)
		c.skip();
	int k = c.choose(std::min(ra, rb) + 1, "contracted");
	auto d1 = c.pick(ordered(ra, k)), d2 = c.pick(ordered(rb, k));
	c.shard();
	// sizes: of the free dimensions 2, 3, 1, ..; a contracted one of size one is spread over the other
	int spread = c.choose(k ? 4 : 1, "spread"), free = c.choose(c.thorough ? 3 : 2, "free sizes");
	idx sa(ra), sb(rb);
	const int64_t menu[3][4] = {{2, 3, 2, 1}, {3, 1, 2, 3}, {2, 0, 3, 1}};
	for (int i = 0; i < ra; ++i)
		sa[i] = menu[free][i];
	for (int i = 0; i < rb; ++i)
		sb[i] = menu[free][(i + 1) % 4];
	for (int i = 0; i < k; ++i)
		sa[d1[i]] = sb[d2[i]] = 2 + (i + free) % 2;
	bool wrong = false;
	if (spread == 1)
		sa[d1[0]] = 1;
	if (spread == 2)
		sb[d2[k - 1]] = 1;
	if (spread == 3) // sizes that do not match
		sa[d1[0]] += 2, wrong = true;
	auto A = plain_ref<T>(sa, 1).a, B = plain_ref<T>(sb, 2).a;
	auto A2 = A, B2 = B;
	auto collapse = [&](ArrT<T> &x, int64_t d) {
		auto s = x.shape;
		s[d] = 1;
		ArrT<T> o(s);
		each(x.shape, [&](const idx &i) {
			auto j = i;
			j[d] = 0;
			o(j) += x(i);
		});
		x = o;
	};
	if (!wrong)
		for (int i = 0; i < k; ++i)
		{
			if (sb[d2[i]] == 1 && sa[d1[i]] != 1)
				collapse(A2, d1[i]);
			else if (sa[d1[i]] == 1 && sb[d2[i]] != 1)
				collapse(B2, d2[i]);
		}
	ArrT<T> P;
	if (wrong)
	{
		auto s = sb;
		s[d2[0]] = sa[d1[0]];
		P = bm::tensordot(A, ArrT<T>(s), d1, d2);
	}
	else
		P = bm::tensordot(A2, B2, d1, d2);
	auto C = plain_ref<T>(P.shape, 3).a;
	static const std::vector<std::pair<double, double>> scalings{{1, 1}, {2, -1}, {0, 1}, {1, 0}, {-0.5, 3}, {0, 0}};
	auto [beta, alpha] = c.pick(scalings, "scaling");
	int what = c.choose(6, "function"), layout = c.choose(N_LAYOUTS, "layout"), in_layout = c.choose(2, "layout of the operands");
	bool neg = c.flip("counted from the end");
	if (neg && (what == 3 || k == 0))
		c.skip();
	auto e1 = d1, e2 = d2;
	if (neg)
		for (int i = 0; i < k; ++i)
			e1[i] -= ra, e2[i] -= rb;
	bool adjacent = true;
	for (int i = 0; i < k; ++i)
		adjacent &= d1[i] == ra - k + i && d2[i] == i;
	if (what == 3 && (!adjacent || spread == 1 || spread == 2))
		c.skip();
	static const char *names[] = {"tensorgdot", "tensorgdot_", "tensorgdot_out", "tensorgdot_ by count", "tensorgdot_out onto the addend", "tensorgdot, wrong accumulator"};
	c.describe(mc::cat(names[what], std::is_same_v<T, double> ? "" : " complex", " ", show(sa), show(e1), " . ", show(sb), show(e2), " beta ", beta, " alpha ", alpha, " layouts ", layout, in_layout));
	auto want = C;
	for (size_t i = 0; i < want.v.size(); ++i)
		want.v[i] = T(beta) * C.v[i] + T(alpha) * P.v[i];
	torch::Tensor bc, ba, bb;
	auto tc = laid_out(C, layout, bc), ta = laid_out(A, in_layout, ba), tb = laid_out(B, in_layout, bb);
	c.step();
	if (what == 5)
	{
		auto w = C.shape;
		w.push_back(2);
		auto bad = torch::zeros(w, tc.options());
		REQUIRE(throws([&]() { quantit::tensorgdot(bad, ta, tb, e1, e2, beta, alpha); }), "accepted an accumulator of rank ", w.size());
		REQUIRE(throws([&]() { quantit::tensorgdot_(bad, ta, tb, e1, e2, beta, alpha); }), "accepted an accumulator of rank ", w.size());
		REQUIRE(throws([&]() { quantit::tensorgdot_out(bad, tc, ta, tb, e1, e2, beta, alpha); }) || prod(C.shape) == 0, "accepted an output of rank ", w.size());
		if (C.shape.size() == 2 && C.shape[0] != C.shape[1] && prod(C.shape))
		{
			auto flipped = torch::zeros({C.shape[1], C.shape[0]}, tc.options());
			REQUIRE(throws([&]() { quantit::tensorgdot_out(flipped, tc, ta, tb, e1, e2, beta, alpha); }), "accepted an output of the wrong shape");
		}
		REQUIRE(bad.abs().sum().item().toDouble() == 0, "refused and modified");
		return;
	}
	torch::Tensor out;
	bool threw = false;
	auto result = what == 2 ? C : want;
	torch::Tensor bo;
	try
	{
		if (what == 0)
			out = quantit::tensorgdot(tc, ta, tb, e1, e2, beta, alpha);
		else if (what == 1)
		{
			auto &r = quantit::tensorgdot_(tc, ta, tb, e1, e2, beta, alpha);
			REQUIRE(&r == &tc, "the reference is not to the accumulator");
			out = tc;
		}
		else if (what == 2)
		{
			out = laid_out(ArrT<T>(C.shape, 5), layout, bo);
			auto &r = quantit::tensorgdot_out(out, tc, ta, tb, e1, e2, beta, alpha);
			REQUIRE(&r == &out, "the reference is not to the output");
		}
		else if (what == 3)
		{
			auto &r = quantit::tensorgdot_(tc, ta, tb, k, beta, alpha);
			REQUIRE(&r == &tc, "the reference is not to the accumulator");
			out = tc;
		}
		else
		{
			quantit::tensorgdot_out(tc, tc, ta, tb, e1, e2, beta, alpha);
			out = tc;
		}
	}
	catch (const c10::Error &e)
	{
		threw = true;
		REQUIRE(wrong, "refused: ", e.what_without_backtrace());
	}
	if (wrong)
		REQUIRE(threw, "accepted contracted dimensions of different sizes");
	else
	{
		auto v = from_torch<T>(out);
		REQUIRE(v.shape == want.shape, "shape ", show(v.shape), " for ", show(want.shape));
		REQUIRE(close(v, want, 1e-12), "wrong values");
		if (what == 1 || what == 3 || what == 4)
		{
			// seen through the storage
			torch::Tensor base = layout == TRANSPOSED ? bc : bc;
			REQUIRE(out.is_alias_of(base), "the accumulator was replaced instead of modified");
		}
		if (what == 2)
			REQUIRE(out.is_alias_of(bo) || prod(C.shape) == 0, "the output was replaced instead of modified");
	}
	if (what == 0 || what == 2 || wrong)
		REQUIRE(close(from_torch<T>(tc), C, 0), "the addend changed");
	REQUIRE(around_intact(bc, C, layout), "elements next to the accumulator changed");
	if (what == 2 && !wrong)
		REQUIRE(around_intact(bo, C, layout), "elements next to the output changed");
	REQUIRE(close(from_torch<T>(ta), A, 0) && close(from_torch<T>(tb), B, 0), "operand changed");
}
MC_SUITE(scaled_contraction) { check_gdot<double>(c); }
MC_SUITE(scaled_contraction_complex) { check_gdot<std::complex<double>>(c); }
MC_SUITE(scaled_contraction_lists)
{
	// lists of dimensions that make no sense are refused
	int ra = c.choose(4), rb = c.choose(4), n1 = c.choose(4), n2 = c.choose(4);
	idx d1, d2;
	for (int i = 0; i < n1; ++i)
		d1.push_back(c.choose(6, "dimension") - 2);
	for (int i = 0; i < n2; ++i)
		d2.push_back(i);
	auto ok = [](const idx &d, int r) {
		std::set<int64_t> s;
		for (auto x : d)
		{
			if (x < -r || x >= r)
				return false;
			s.insert(x < 0 ? x + r : x);
		}
		return s.size() == d.size();
	};
	if (n1 == n2 && ok(d1, ra) && ok(d2, rb))
		c.skip();
	c.describe(mc::cat("rank ", ra, " dimensions ", show(d1), " with rank ", rb, " dimensions ", show(d2)));
	c.step();
	auto a = torch::ones(idx(ra, 2), torch::kDouble), b = torch::ones(idx(rb, 2), torch::kDouble);
	for (int r = 0; r <= 6; ++r)
	{
		auto o = torch::zeros(idx(r, 2), torch::kDouble), o2 = o.clone();
		REQUIRE(throws([&]() { quantit::tensorgdot(o, a, b, d1, d2); }), "accepted");
		REQUIRE(throws([&]() { quantit::tensorgdot_(o, a, b, d1, d2); }), "accepted");
		REQUIRE(throws([&]() { quantit::tensorgdot_out(o, o2, a, b, d1, d2); }), "accepted");
		REQUIRE(o.sum().item().toDouble() == 0, "refused and modified");
	}
}
MC_SUITE(scaled_contraction_count)
{
	int ra = c.choose(4), rb = c.choose(4), k = c.choose(8) - 2;
	c.describe(mc::cat("rank ", ra, " with rank ", rb, " over ", k, " dimensions"));
	c.step();
	auto a = torch::ones(idx(ra, 2), torch::kDouble), b = torch::ones(idx(rb, 2), torch::kDouble);
	for (int r = 0; r <= 6; ++r)
	{
		auto o = torch::zeros(idx(r, 2), torch::kDouble);
		bool good = k >= 0 && k <= ra && k <= rb && r == ra + rb - 2 * k;
		bool t = throws([&]() { quantit::tensorgdot_(o, a, b, k); });
		REQUIRE(t == !good, t ? "refused" : "accepted", " with an accumulator of rank ", r);
		REQUIRE(o.sum().item().toDouble() == (good ? double((1 << r) * (1 << k)) : 0), "wrong value");
	}
}
// ---------------------------------------------------------------- lists of dimensions
idx choose_list(mc::Ctx &c, int longest)
{
	idx o;
	int n = c.choose(longest + 1, "length");
	for (int i = 0; i < n; ++i)
		o.push_back(c.pick(std::vector<int64_t>{0, 1, 3, -2, int64_t(1) << 33}, "value"));
	return o;
}
MC_SUITE(lists_of_dimensions)
{
	auto a = choose_list(c, c.thorough ? 4 : 3);
	int start = c.choose(a.size() + 1, "start"), n = c.choose(a.size() - start + 1, "size");
	c.describe(mc::cat(show(a), " from ", start, " size ", n));
	c.step();
	int64_t p = 1, ps = 1;
	auto mul = [](int64_t x, int64_t y) { return int64_t(uint64_t(x) * uint64_t(y)); };
	bool overflow = std::count(a.begin(), a.end(), int64_t(1) << 33) > 1;
	for (auto x : a)
		p = mul(p, x);
	idx part(a.begin() + start, a.begin() + start + n);
	for (auto x : part)
		ps = mul(ps, x);
	if (!overflow)
	{
		REQUIRE(quantit::prod(a) == p, "product");
		REQUIRE(quantit::prod(a, start, n) == ps, "product of a part");
	}
	auto before = a;
	auto s1 = quantit::slice(a, start, n);
	auto s2 = quantit::slice(torch::IntArrayRef(a), start, n);
	REQUIRE(s1.vec() == part && s2.vec() == part, "part ", show(s1), show(s2));
	auto r = part;
	std::reverse(r.begin(), r.end());
	auto got = quantit::reverse(part);
	REQUIRE(got == r, "reversed: ", show(got));
	REQUIRE(a == before, "list changed");
}
MC_SUITE(parts_out_of_range)
{
	auto a = idx(c.choose(4), 2);
	int start = c.choose(6, "start"), n = c.choose(6, "size");
	if (start + n <= (int)a.size())
		c.skip();
	c.describe(mc::cat(a.size(), " dimensions from ", start, " size ", n));
	c.step();
	REQUIRE(throws([&]() { quantit::slice(a, start, n); }), "accepted a part outside of the list");
	REQUIRE(throws([&]() { quantit::slice(torch::IntArrayRef(a), start, n); }), "accepted a part outside of the list");
	REQUIRE(throws([&]() { quantit::prod(a, start, n); }), "accepted a part outside of the list");
}
MC_SUITE(joined_lists)
{
	auto a = choose_list(c, 2), b = choose_list(c, 2), d = choose_list(c, 1);
	c.describe(mc::cat(show(a), show(b), show(d)));
	c.step();
	auto ab = a, abd = a;
	ab.insert(ab.end(), b.begin(), b.end());
	abd = ab;
	abd.insert(abd.end(), d.begin(), d.end());
	REQUIRE(quantit::concat(a) == a, "one list");
	REQUIRE(quantit::concat(a, b) == ab, "two lists");
	REQUIRE(quantit::concat(a, b, d) == abd, "three lists");
	REQUIRE(quantit::concat({a, b, d}) == abd, "a list of lists");
	REQUIRE(quantit::concat(torch::IntArrayRef(a), torch::IntArrayRef(b)) == ab, "references to lists");
}
// ---------------------------------------------------------------- precision of the types
MC_SUITE(precision)
{
	struct Row
	{
		torch::ScalarType t, real;
		double eps;
	};
	static const std::vector<Row> rows{{torch::kFloat, torch::kFloat, std::numeric_limits<float>::epsilon()},
	                                   {torch::kDouble, torch::kDouble, std::numeric_limits<double>::epsilon()},
	                                   {torch::kComplexFloat, torch::kFloat, std::numeric_limits<float>::epsilon()},
	                                   {torch::kComplexDouble, torch::kDouble, std::numeric_limits<double>::epsilon()},
	                                   {torch::kHalf, torch::kHalf, 1.0 / 1024},
	                                   {torch::kBFloat16, torch::kBFloat16, 1.0 / 128},
	                                   {torch::kInt, torch::kInt, 0},
	                                   {torch::kLong, torch::kLong, 0},
	                                   {torch::kByte, torch::kByte, 0},
	                                   {torch::kChar, torch::kChar, 0},
	                                   {torch::kShort, torch::kShort, 0},
	                                   {torch::kBool, torch::kBool, 0}};
	auto &r = c.pick(rows);
	c.describe(mc::cat("type ", c10::toString(r.t)));
	c.step();
	REQUIRE(quantit::eps(r.t).toDouble() == r.eps, "precision ", quantit::eps(r.t).toDouble(), " for ", r.eps);
	REQUIRE(quantit::real_type(r.t) == r.real, "real type ", c10::toString(quantit::real_type(r.t)));
}
// ---------------------------------------------------------------- two by two matrices
template <class T>
T lone(const torch::Tensor &t) { return from_torch<T>(t.to(std::is_same_v<T, double> ? torch::kDouble : torch::kComplexDouble)).v[0]; }
template <class T>
T lone(const btensor &t) { return assemble<T>(t.to(std::is_same_v<T, double> ? torch::kDouble : torch::kComplexDouble)).v[0]; }
template <class B, class T>
void check_2x2(mc::Ctx &c)
{
	std::vector<double> values{0, 1, -1, 2.5, -3, 1e-9, 1e-17, 1e9, -1e20};
	std::vector<double> sizes{0, 1, 0.5, 1e-3, 1e-8, 1e-12, 1e-17, 1e-30, 1e6, 1e20};
	double a0 = c.pick(values), a1 = c.pick(values), m = c.pick(sizes);
	std::vector<T> phases{T(1), T(-1)};
	if constexpr (!std::is_same_v<T, double>)
		phases.insert(phases.end(), {T(0, 1), T(0.6, -0.8)});
	T b = T(m) * c.pick(phases);
	c.describe(mc::cat("energies ", a0, " ", a1, " coupling ", b));
	c.step();
	// a value of zero has a block or none
	bool stored = !B::block || c.flip("stored zeros");
	auto make = [&](T x) {
		RefT<T> r{&kZ(), {{}, {0}}, {}, ArrT<T>(idx{})};
		r.a.v[0] = x;
		if (x != T(0) || stored)
			r.present = {idx{}};
		if constexpr (B::block)
			return build(r);
		else
			return to_torch(r.a);
	};
	auto t0 = make(T(a0)), t1 = make(T(a1)), tb = make(b);
	auto [E, o, n] = quantit::details::eig2x2Mat(t0, t1, tb);
	T e = lone<T>(E), x = lone<T>(o), y = lone<T>(n);
	double scale = std::max({std::abs(a0), std::abs(a1), std::abs(b)});
	double exact = (a0 + a1) / 2 - std::hypot((a0 - a1) / 2, std::abs(b));
	REQUIRE(std::abs(e - T(exact)) <= 1e-14 * scale, "lowest eigenvalue ", e, " for ", exact);
	REQUIRE(std::abs(std::abs(x) * std::abs(x) + std::abs(y) * std::abs(y) - 1) < 1e-12, "eigenvector ", x, " ", y, " is not normalised");
	// (a0, b*; b, a1) (x, y) = e (x, y)
	REQUIRE(std::abs(T(a0) * x + cj(b) * y - e * x) <= 1e-12 * scale && std::abs(b * x + T(a1) * y - e * y) <= 1e-12 * scale, "not an eigenvector: ", x, " ", y);
	REQUIRE(lone<T>(t0) == T(a0) && lone<T>(t1) == T(a1) && lone<T>(tb) == b, "operand changed");
}
MC_SUITE(two_by_two) { check_2x2<Plain, double>(c); }
MC_SUITE(two_by_two_complex) { check_2x2<Plain, std::complex<double>>(c); }
MC_SUITE(two_by_two_block) { check_2x2<Block, double>(c); }
MC_SUITE(two_by_two_block_complex) { check_2x2<Block, std::complex<double>>(c); }
} // namespace
int main(int argc, char **argv) { return mc::main_(argc, argv); }
