// C05: arithmetic of block tensors against the model's dense arithmetic
#include "bt.h"
using namespace bm;
namespace
{
using D = double;
Ref map_ref(const Ref &r, const std::function<D(D)> &f) // f(0)==0, or applied on the stored blocks only
{
	Ref o = r;
	each(sections_of(r.s), [&](const idx &b) {
		if (std::find(r.present.begin(), r.present.end(), b) == r.present.end())
			return;
		idx st, sz;
		extent(r.s, b, st, sz);
		each(sz, [&](const idx &i) {
			idx e = st;
			for (size_t d = 0; d < e.size(); ++d)
				e[d] += i[d];
			o.a(e) = f(r.a(e));
		});
	});
	return o;
}
// f on every element of the allowed blocks, stored or not
Arr map_allowed(const Ref &r, const std::function<D(D)> &f)
{
	Ref o = r;
	o.present = blocks_allowed(*r.k, r.s);
	return map_ref(o, f).a;
}
struct Un
{
	const char *name;
	int kind; // 0: by value, 1: in place
	std::function<btensor(btensor &)> op;
	std::function<D(D)> f;
	int domain; // 0: stored blocks, 1: allowed blocks, 2: the operand is made positive first
};
#define BV(expr) 0, [](btensor &A) -> btensor { return expr; }
#define IP(expr) 1, [](btensor &A) -> btensor { auto *r = &(expr); if (r != &A) throw std::runtime_error("the in place operation returned another object"); return A; }
const std::vector<Un> &unaries()
{
	static const std::vector<Un> u{
	    {"mul(-2.5)", BV(A.mul(-2.5)), [](D x) { return -2.5 * x; }, 0},
	    {"mul(0)", BV(A.mul(0)), [](D x) { return 0 * x; }, 0},
	    {"multiply(3)", BV(A.multiply(3)), [](D x) { return 3 * x; }, 0},
	    {"A*0.5", BV(A * 0.5), [](D x) { return 0.5 * x; }, 0},
	    {"0.5*A", BV(0.5 * A), [](D x) { return 0.5 * x; }, 0},
	    {"mul_(-2.5)", IP(A.mul_(-2.5)), [](D x) { return -2.5 * x; }, 0},
	    {"multiply_(3)", IP(A.multiply_(3)), [](D x) { return 3 * x; }, 0},
	    {"A*=4", IP(A *= 4), [](D x) { return 4 * x; }, 0},
	    {"div(4)", BV(A.div(4)), [](D x) { return x / 4; }, 0},
	    {"A/-0.5", BV(A / -0.5), [](D x) { return x / -0.5; }, 0},
	    {"div_(4)", IP(A.div_(4)), [](D x) { return x / 4; }, 0},
	    {"A/=3", IP(A /= 3), [](D x) { return x / 3; }, 0},
	    {"2.0/A", BV(2.0 / A), [](D x) { return 2.0 / x; }, 0},
	    {"-A", BV(-A), [](D x) { return -x; }, 0},
	    {"-const A", BV(-static_cast<const btensor &>(A)), [](D x) { return -x; }, 0},
	    {"sqrt()", BV(A.sqrt()), [](D x) { return std::sqrt(x); }, 2},
	    {"sqrt(A)", BV(quantit::sqrt(A)), [](D x) { return std::sqrt(x); }, 2},
	    {"sqrt_()", IP(A.sqrt_()), [](D x) { return std::sqrt(x); }, 2},
	    {"abs()", BV(A.abs()), [](D x) { return std::abs(x); }, 0},
	    {"abs_()", IP(A.abs_()), [](D x) { return std::abs(x); }, 0},
	    {"pow(2)", BV(A.pow(2)), [](D x) { return x * x; }, 0},
	    {"pow(A,3)", BV(quantit::pow(A, 3)), [](D x) { return x * x * x; }, 0},
	    {"pow(0.5)", BV(A.pow(0.5)), [](D x) { return std::sqrt(x); }, 2},
	    {"pow_(3)", IP(A.pow_(3)), [](D x) { return x * x * x; }, 0},
	    {"add(1.5)", BV(A.add(1.5)), [](D x) { return x + 1.5; }, 1},
	    {"add(1.5,-2)", BV(A.add(1.5, -2)), [](D x) { return x - 3; }, 1},
	    {"sub(1.5)", BV(A.sub(1.5)), [](D x) { return x - 1.5; }, 1},
	    {"sub(2,3)", BV(A.sub(2, 3)), [](D x) { return x - 6; }, 1},
	    {"subtract(2)", BV(A.subtract(2)), [](D x) { return x - 2; }, 1},
	    {"add_(1.5)", IP(A.add_(1.5)), [](D x) { return x + 1.5; }, 1},
	    {"add_(1.5,4)", IP(A.add_(1.5, 4)), [](D x) { return x + 6; }, 1},
	    {"sub_(1.5)", IP(A.sub_(1.5)), [](D x) { return x - 1.5; }, 1},
	    {"subtract_(2,2)", IP(A.subtract_(2, 2)), [](D x) { return x - 4; }, 1},
	    {"A+=2", IP(A += 2), [](D x) { return x + 2; }, 1},
	    {"A-=2", IP(A -= 2), [](D x) { return x - 2; }, 1},
	    {"ge(0.25)", BV(A.ge(0.25)), [](D x) { return D(x >= 0.25); }, 0},
	    {"le(0.25)", BV(A.le(0.25)), [](D x) { return D(x <= 0.25); }, 0},
	    {"less(-1)", BV(A.less(-1)), [](D x) { return D(x < -1); }, 0},
	    {"greater(-1)", BV(A.greater(-1)), [](D x) { return D(x > -1); }, 0},
	    {"eq(V)", BV(A.eq(-0.125)), [](D x) { return D(x == -0.125); }, 0},
	    {"not_equal(V)", BV(A.not_equal(-0.125)), [](D x) { return D(x != -0.125); }, 0},
	    {"A>V", BV(A > 0.125), [](D x) { return D(x > 0.125); }, 0},
	    {"A<V", BV(A < 0.125), [](D x) { return D(x < 0.125); }, 0},
	    {"A>=V", BV(A >= 0.125), [](D x) { return D(x >= 0.125); }, 0},
	    {"A<=V", BV(A <= 0.125), [](D x) { return D(x <= 0.125); }, 0},
	    {"A==V", BV(A == 0.125), [](D x) { return D(x == 0.125); }, 0},
	    {"A!=V", BV(A != 0.125), [](D x) { return D(x != 0.125); }, 0},
	    {"V>A", BV(0.125 > A), [](D x) { return D(0.125 > x); }, 0},
	    {"V<A", BV(0.125 < A), [](D x) { return D(0.125 < x); }, 0},
	    {"V>=A", BV(0.125 >= A), [](D x) { return D(0.125 >= x); }, 0},
	    {"V<=A", BV(0.125 <= A), [](D x) { return D(0.125 <= x); }, 0},
	    {"V==A", BV(0.125 == A), [](D x) { return D(0.125 == x); }, 0},
	    {"V!=A", BV(0.125 != A), [](D x) { return D(0.125 != x); }, 0},
	    {"isnan()", BV(A.isnan()), [](D) { return 0.; }, 0},
	    {"to(double)", BV(A.to(torch::kDouble)), [](D x) { return x; }, 0},
	    {"to(float)", BV(A.to(torch::kFloat)), [](D x) { return D(float(x)); }, 0},
	    {"to(options)", BV(A.to(torch::TensorOptions().dtype(torch::kFloat))), [](D x) { return D(float(x)); }, 0},
	    {"to(tensor)", BV(A.to(torch::zeros({}, torch::kFloat))), [](D x) { return D(float(x)); }, 0},
	    {"to(btensor)", BV(A.to(A)), [](D x) { return x; }, 0},
	};
	return u;
}
} // namespace

MC_SUITE(scalars)
{
	auto menu = structures(3, c.thorough);
	auto &n = c.pick(menu, "structure");
	c.shard();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s));
	auto &u = c.pick(unaries(), "operation");
	auto r = make_ref(*n.k, n.s, present, 1);
	if (u.domain == 2)
		r = map_ref(r, [](D x) { return std::abs(x); });
	// one element is exactly the value comparisons are made with
	for (auto &x : r.a.v)
		if (x != 0)
		{
			x = 0.125;
			break;
		}
	c.describe(mc::cat("A", str(n.s), present_str(present), ", ", u.name));
	auto A = build(r);
	auto B = u.op(A);
	auto want = u.domain == 1 ? map_allowed(r, u.f) : map_ref(r, u.f).a;
	compare(c, *n.k, B, n.s, want, u.name);
	same_dtype(c, B, u.name);
	auto dense = from_torch(B.to_dense());
	REQUIRE(close(dense, want), u.name, ": to_dense gives ", astr(dense));
	if (u.kind == 0)
		unchanged(c, A, r, "operand");
}
MC_SUITE(reductions)
{
	auto menu = structures(3, c.thorough);
	auto &n = c.pick(menu, "structure");
	c.shard();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s));
	auto r = make_ref(*n.k, n.s, present, 2);
	// every element in turn is the special one (and none)
	std::vector<size_t> stored;
	for (size_t i = 0; i < r.a.v.size(); ++i)
		if (r.a.v[i] != 0)
			stored.push_back(i);
	int which = c.choose(stored.size() + 1, "special element") - 1;
	c.describe(mc::cat("A", str(n.s), present_str(present), ", reductions, special element ", which));
	{
		auto A = build(r);
		auto s = A.sum();
		D tot = 0;
		for (auto x : r.a.v)
			tot += x;
		compare(c, *n.k, s, Shape{{}, zero(*n.k)}, [&] { Arr a; a.v[0] = tot; return a; }(), "sum");
		REQUIRE(std::abs(s.item().toDouble() - tot) < 1e-10, "item of the sum");
		REQUIRE(std::abs(quantit::sum(A).item().toDouble() - tot) < 1e-10, "sum as a function");
		unchanged(c, A, r, "operand of sum");
		auto cmp = A > 0;
		REQUIRE(!A.anynan(), "anynan of an ordinary tensor");
		D count = 0;
		for (auto x : r.a.v)
			count += x > 0;
		REQUIRE(cmp.sum().item().toDouble() == count, "sum of a comparison counts the elements");
	}
	{
		auto z = r;
		for (auto &x : z.a.v)
			x = 0;
		if (which >= 0)
			z.a.v[stored[which]] = 7;
		auto m = build(z) != 0;
		auto any = m.any();
		c.step();
		if (present.empty())
			REQUIRE(any.defined() && !any.item().toBool(), "any of an empty tensor");
		else
			REQUIRE(any.item().toBool() == (which >= 0), "any is ", any.item().toBool());
		compare(c, *n.k, m, n.s, map_ref(z, [](D x) { return D(x != 0); }).a, "tensor after any");
	}
	{
		auto z = r;
		if (which >= 0)
			z.a.v[stored[which]] = std::nan("");
		auto A = build(z);
		c.step();
		REQUIRE(A.anynan() == (which >= 0), "anynan");
		compare(c, *n.k, A.isnan(), n.s, map_ref(z, [](D x) { return D(std::isnan(x)); }).a, "isnan");
	}
}
namespace
{
struct Bin
{
	const char *name;
	bool inplace;
	std::function<btensor(btensor &, btensor &)> op;
	D ca, cb;
	bool consumes; // the second operand is given away
};
#define BB(expr) false, [](btensor &A, btensor &B) -> btensor { return expr; }
#define BI(expr) true, [](btensor &A, btensor &B) -> btensor { auto *r = &(expr); if (r != &A) throw std::runtime_error("the in place operation returned another object"); return A; }
const std::vector<Bin> &linears()
{
	static const std::vector<Bin> u{
	    {"A+B", BB(A + B), 1, 1},
	    {"A-B", BB(A - B), 1, -1},
	    {"add(B)", BB(A.add(B)), 1, 1},
	    {"add(B,-2)", BB(A.add(B, -2)), 1, -2},
	    {"add(B,0)", BB(A.add(B, 0)), 1, 0},
	    {"sub(B)", BB(A.sub(B)), 1, -1},
	    {"sub(B,0.5)", BB(A.sub(B, 0.5)), 1, -0.5},
	    {"subtract(B,2)", BB(A.subtract(B, 2)), 1, -2},
	    {"add(copy of B,3)", BB(A.add(btensor(B), 3)), 1, 3},
	    {"sub(copy of B)", BB(A.sub(btensor(B))), 1, -1},
	    {"add(temporary 2*B)", BB(A.add(B * 2)), 1, 2},
	    {"sub(temporary 2*B,2)", BB(A.sub(B * 2, 2)), 1, -4},
	    {"add(moved B)", BB(A.add(std::move(B), 2)), 1, 2, true},
	    {"add_(B)", BI(A.add_(B)), 1, 1},
	    {"add_(B,-3)", BI(A.add_(B, -3)), 1, -3},
	    {"sub_(B)", BI(A.sub_(B)), 1, -1},
	    {"sub_(B,2)", BI(A.sub_(B, 2)), 1, -2},
	    {"subtract_(B,2)", BI(A.subtract_(B, 2)), 1, -2},
	    {"A+=B", BI(A += B), 1, 1},
	    {"A-=B", BI(A -= B), 1, -1},
	    {"A+=copy of B", BI(A += btensor(B)), 1, 1},
	    {"A-=copy of B", BI(A -= btensor(B)), 1, -1},
	    {"A-=temporary 2*B", BI(A -= B * 2), 1, -2},
	    {"add_(temporary 2*B,3)", BI(A.add_(B * 2, 3)), 1, 6},
	    {"add_(moved B,2)", BI(A.add_(std::move(B), 2)), 1, 2, true},
	    {"(A+B)+B", BB((A + B) + B), 1, 2},
	    {"B-(A-B)", BB(B - (A - B)), -1, 2},
	};
	return u;
}
} // namespace
MC_SUITE(sums)
{
	auto menu = structures(3, c.thorough);
	auto &n = c.pick(menu, "structure");
	auto all = blocks_allowed(*n.k, n.s);
	auto pa = choose_present(c, all, c.thorough ? 5 : 4, "blocks of A");
	c.shard();
	auto pb = choose_present(c, all, c.thorough ? 5 : 4, "blocks of B");
	auto &u = c.pick(linears(), "operation");
	auto ra = make_ref(*n.k, n.s, pa, 1), rb = make_ref(*n.k, n.s, pb, 2);
	c.describe(mc::cat("A", str(n.s), present_str(pa), ", B", present_str(pb), ", ", u.name));
	auto A = build(ra), B = build(rb);
	auto R = u.op(A, B);
	auto want = broadcast(ra.a, rb.a, [&](D x, D y) { return u.ca * x + u.cb * y; });
	compare(c, *n.k, R, n.s, want, u.name);
	same_dtype(c, R, u.name);
	if (!u.inplace)
		unchanged(c, A, ra, "left operand");
	else
		compare(c, *n.k, A, n.s, want, "left operand after the in place operation");
	if (!u.consumes)
		unchanged(c, B, rb, "right operand");
}
MC_SUITE(self)
{
	auto menu = structures(3, c.thorough);
	auto &n = c.pick(menu, "structure");
	c.shard();
	auto pa = choose_present(c, blocks_allowed(*n.k, n.s));
	auto ra = make_ref(*n.k, n.s, pa, 1);
	struct S
	{
		const char *name;
		bool inplace;
		std::function<btensor(btensor &)> op;
		std::function<D(D)> f;
	};
	static const std::vector<S> ops{
	    {"A+A", BV(A + A), [](D x) { return 2 * x; }},
	    {"A-A", BV(A - A), [](D x) { return x - x; }},
	    {"A+=A", IP(A += A), [](D x) { return 2 * x; }},
	    {"A-=A", IP(A -= A), [](D x) { return x - x; }},
	    {"A.add_(A,3)", IP(A.add_(A, 3)), [](D x) { return 4 * x; }},
	};
	auto &u = c.pick(ops);
	c.describe(mc::cat("A", str(n.s), present_str(pa), ", ", u.name));
	auto A = build(ra);
	auto R = u.op(A);
	compare(c, *n.k, R, n.s, map_ref(ra, u.f).a, u.name);
	if (!u.inplace)
		unchanged(c, A, ra, "operand");
}
MC_SUITE(closeness)
{
	auto menu = structures(2, c.thorough);
	auto &n = c.pick(menu, "structure");
	auto all = blocks_allowed(*n.k, n.s);
	auto pa = choose_present(c, all, 4, "blocks of A");
	c.shard();
	auto pb = choose_present(c, all, 4, "blocks of B");
	auto ra = make_ref(*n.k, n.s, pa, 1), rb = make_ref(*n.k, n.s, pb, 1);
	// B's elements are those A has at the same place where both are stored, then one of them is changed
	static const std::vector<D> small{0, 1e-9, 1e-3};
	D sc = c.pick(small, "size of the blocks stored by one only");
	std::vector<size_t> stored;
	for (size_t i = 0; i < ra.a.v.size(); ++i)
	{
		D &x = ra.a.v[i], &y = rb.a.v[i];
		if (x != 0 && y != 0)
			y = x;
		else
			x *= sc, y *= sc;
		if (y != 0)
			stored.push_back(i);
	}
	int which = c.choose(std::min<int>(stored.size(), 4) + 1, "changed element") - 1;
	if (which >= 0)
		rb.a.v[stored[which * (stored.size() - 1) / 3 % stored.size()]] *= 1 + 1e-4;
	static const std::vector<std::pair<D, D>> tols{{1e-5, 1e-8}, {1e-2, 0}, {0, 1e-2}, {1, 0}, {0, 0}};
	auto &t = c.pick(tols, "tolerances");
	c.describe(mc::cat("A", str(n.s), present_str(pa), astr(ra.a), ", B", present_str(pb), astr(rb.a), ", allclose rtol ", t.first, " atol ", t.second));
	auto A = build(ra), B = build(rb);
	bool want = true;
	for (size_t i = 0; i < ra.a.v.size(); ++i)
		want = want && std::abs(ra.a.v[i] - rb.a.v[i]) <= t.second + t.first * std::abs(rb.a.v[i]);
	bool got = quantit::allclose(A, B, t.first, t.second);
	c.step();
	REQUIRE(got == want, "allclose says ", got);
	unchanged(c, A, ra, "left operand");
	unchanged(c, B, rb, "right operand");
}
namespace
{
bool same(const Kind &k, const Shape &a, const Shape &b)
{
	if (a.legs.size() != b.legs.size() || norm(k, a.rule) != norm(k, b.rule))
		return false;
	for (size_t d = 0; d < a.legs.size(); ++d)
	{
		if (a.legs[d].size() != b.legs[d].size())
			return false;
		for (size_t i = 0; i < a.legs[d].size(); ++i)
			if (a.legs[d][i].size != b.legs[d][i].size || a.legs[d][i].q != b.legs[d][i].q)
				return false;
	}
	return true;
}
std::vector<Shape> perturbed()
{
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	std::vector<Shape> o;
	auto add = [&](std::vector<Leg> l, int r) { o.push_back({l, {r}}); };
	add({{S(1, 0), S(2, 1)}, {S(2, 0), S(1, -1)}}, 0);
	add({{S(1, 0), S(2, 1)}, {S(2, 0), S(1, -1)}}, 1);                  // other rule
	add({{S(1, 0), S(1, 1)}, {S(2, 0), S(1, -1)}}, 0);                  // other size
	add({{S(1, 0), S(2, 1)}, {S(2, 0), S(2, -1)}}, 0);                  // other size
	add({{S(1, 0), S(2, 2)}, {S(2, 0), S(1, -1)}}, 0);                  // other quantity
	add({{S(1, 0), S(2, 1)}, {S(2, 0), S(1, -2)}}, 0);                  // other quantity
	add({{S(1, 0), S(2, 1), S(2, 0)}, {S(1, -1)}}, 0);                  // same list of sections, other dimensions
	add({{S(1, 0)}, {S(2, 1), S(2, 0), S(1, -1)}}, 0);                  // same list of sections, other dimensions
	add({{S(1, 0), S(2, 1), S(2, 0), S(1, -1)}}, 0);                    // same list of sections, one dimension
	add({{S(1, 0), S(2, 1)}, {S(2, 0)}, {S(1, -1)}}, 0);                // same list of sections, three dimensions
	add({{S(2, 1), S(1, 0)}, {S(2, 0), S(1, -1)}}, 0);                  // permuted sections
	add({{S(2, 0), S(1, -1)}, {S(1, 0), S(2, 1)}}, 0);                  // permuted dimensions
	add({{S(1, 0), S(2, 1)}}, 0);
	add({}, 0);
	return o;
}
} // namespace
MC_SUITE(refused_sums)
{
	auto menu = perturbed();
	auto &sa = c.pick(menu, "structure of A");
	auto &sb = c.pick(menu, "structure of B");
	c.shard();
	auto &k = kZ();
	if (same(k, sa, sb))
		c.skip();
	auto pa = choose_present(c, blocks_allowed(k, sa), 2, "blocks of A"), pb = choose_present(c, blocks_allowed(k, sb), 2, "blocks of B");
	auto &u = c.pick(linears(), "operation");
	c.describe(mc::cat("A", str(sa), present_str(pa), ", B", str(sb), present_str(pb), ", refused ", u.name));
	auto ra = make_ref(k, sa, pa, 1), rb = make_ref(k, sb, pb, 2);
	auto A = build(ra), B = build(rb);
	c.step();
	bool thrown = false;
	try
	{
		u.op(A, B);
	}
	catch (std::exception &)
	{
		thrown = true;
	}
	REQUIRE(thrown, u.name, " accepted incompatible tensors");
	unchanged(c, A, ra, "left operand of the refused operation");
	unchanged(c, B, rb, "right operand of the refused operation");
	REQUIRE(!quantit::allclose(A, B, 1e-5, 1e8), "tensors of different structure are not close");
	REQUIRE(!btensor::test_same_shape(A, B), "test_same_shape");
}
namespace
{
struct El
{
	const char *name;
	bool inplace;
	std::function<btensor(btensor &, btensor &)> op;
	std::function<D(D, D)> f;
	int prep; // 1: B is made of small positive integers, 2: both are made of few values
};
const std::vector<El> &elementwise()
{
	static const std::vector<El> u{
	    {"A*B", BB(A * B), [](D x, D y) { return x * y; }},
	    {"mul(B)", BB(A.mul(B)), [](D x, D y) { return x * y; }},
	    {"mul_(B)", BI(A.mul_(B)), [](D x, D y) { return x * y; }},
	    {"A*=B", BI(A *= B), [](D x, D y) { return x * y; }},
	    {"A/B", BB(A / B), [](D x, D y) { return x / y; }},
	    {"div(B)", BB(A.div(B)), [](D x, D y) { return x / y; }},
	    {"div_(B)", BI(A.div_(B)), [](D x, D y) { return x / y; }},
	    {"A/=B", BI(A /= B), [](D x, D y) { return x / y; }},
	    {"pow(B)", BB(A.pow(B)), [](D x, D y) { return std::pow(x, y); }, 1},
	    {"pow_(B)", BI(A.pow_(B)), [](D x, D y) { return std::pow(x, y); }, 1},
	    {"A>=B", BB(A >= B), [](D x, D y) { return D(x >= y); }, 2},
	    {"A<=B", BB(A <= B), [](D x, D y) { return D(x <= y); }, 2},
	    {"A<B", BB(A < B), [](D x, D y) { return D(x < y); }, 2},
	    {"A>B", BB(A > B), [](D x, D y) { return D(x > y); }, 2},
	    {"A==B", BB(A == B), [](D x, D y) { return D(x == y); }, 2},
	    {"A!=B", BB(A != B), [](D x, D y) { return D(x != y); }, 2},
	};
	return u;
}
bool single(const Leg &l) { return l.size() == 1 && l[0].size == 1; }
// the structure of the broadcast; false if the operands are incompatible
bool broadcast_shape(const Kind &k, const Shape &a, const Shape &b, Shape &o)
{
	size_t r = std::max(a.legs.size(), b.legs.size());
	o.legs.assign(r, {});
	o.rule = qm::add(k, a.rule, b.rule);
	for (size_t n = 1; n <= r; ++n)
	{
		auto &l = o.legs[r - n];
		if (n > a.legs.size() || n > b.legs.size())
		{
			l = n > a.legs.size() ? b.legs[b.legs.size() - n] : a.legs[a.legs.size() - n];
			continue;
		}
		auto &x = a.legs[a.legs.size() - n], &y = b.legs[b.legs.size() - n];
		if (single(x))
		{
			l = shifted(k, y, x[0].q);
			continue;
		}
		if (single(y))
		{
			l = shifted(k, x, y[0].q);
			continue;
		}
		if (x.size() != y.size())
			return false;
		l = x;
		for (size_t i = 0; i < x.size(); ++i)
		{
			if (x[i].size != y[i].size)
				return false;
			l[i].q = qm::add(k, x[i].q, y[i].q);
		}
	}
	return true;
}
std::vector<std::vector<Leg>> leg_lists(int maxrank, bool thorough)
{
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	std::vector<Leg> m{{S(1, 0), S(2, 1)}, {S(1, -1), S(2, 1)}, {S(1, 1)}, {S(2, 1)}, {S(2, 0), S(1, 1)}};
	if (thorough)
		m.push_back({S(1, 0), S(1, 1), S(2, 0)});
	std::vector<std::vector<Leg>> o{{}}, last{{}};
	for (int r = 1; r <= maxrank; ++r)
	{
		std::vector<std::vector<Leg>> nxt;
		for (auto &x : last)
			for (size_t i = 0; i < m.size(); ++i)
			{
				if (r == 3 && i != 0 && i != 2)
					continue;
				auto y = x;
				y.insert(y.begin(), m[i]);
				nxt.push_back(y);
			}
		last = nxt;
		o.insert(o.end(), last.begin(), last.end());
	}
	return o;
}
void elementwise_body(mc::Ctx &c, int rank, bool thorough)
{
	const Kind &k = rank == 2 && c.flip("kind") ? kC3() : kZ();
	auto lists = leg_lists(rank, thorough);
	for (auto &l : lists)
		for (auto &d : l)
			for (auto &x : d)
				x.q = norm(k, x.q);
	Shape sa{c.pick(lists, "legs of A"), {0}}, sb{c.pick(lists, "legs of B"), {0}}, so;
	c.shard();
	bool compat = broadcast_shape(k, sa, sb, so);
	if (rank == 3 && std::max(sa.legs.size(), sb.legs.size()) < 3)
		c.skip();
	// a rule that allows blocks: 0 if possible, 1, or 2
	auto rule = [&](Shape &s, const char *w) {
		std::vector<int> q;
		for (int v = k.mods[0] ? 0 : -2; v <= (k.mods[0] ? k.mods[0] - 1 : 3); ++v)
		{
			s.rule = {v};
			if (blocks_allowed(k, s).size())
				q.push_back(v);
		}
		q.resize(std::min<size_t>(q.size(), 3));
		if (!k.mods[0])
			q.push_back(7); // and one that allows none
		s.rule = {c.pick(q, w)};
	};
	rule(sa, "rule of A");
	rule(sb, "rule of B");
	int np = rank == 2 ? 3 : 2;
	auto pa = choose_present(c, blocks_allowed(k, sa), np, "blocks of A"), pb = choose_present(c, blocks_allowed(k, sb), np, "blocks of B");
	auto &u = c.pick(elementwise(), "operation");
	auto ra = make_ref(k, sa, pa, 1), rb = make_ref(k, sb, pb, 2);
	if (u.prep == 1)
		rb = map_ref(rb, [](D x) { return D(int(std::abs(x))) + 1; });
	if (u.prep == 2) // comparisons meet equal values, opposite ones and different ones, of both signs
	{
		const D few[] = {-2, 1, -1, 2, -2};
		int n = 0;
		for (auto &x : ra.a.v)
			x = x != 0 ? few[n++ % 5] : x;
		n = 0;
		for (auto &x : rb.a.v)
			x = x != 0 ? few[n++ % 4] : x;
	}
	c.describe(mc::cat("A", str(sa), present_str(pa), ", B", str(sb), present_str(pb), ", ", u.name));
	auto A = build(ra), B = build(rb);
	// the rank of the output of an in place operation is not increased by broadcasting, as in torch
	if (!compat || (u.inplace && sb.legs.size() > sa.legs.size()))
	{
		c.step();
		bool thrown = false;
		try
		{
			u.op(A, B);
		}
		catch (std::exception &)
		{
			thrown = true;
		}
		REQUIRE(thrown, u.name, " accepted incompatible tensors");
		unchanged(c, A, ra, "left operand of the refused operation");
		unchanged(c, B, rb, "right operand of the refused operation");
		return;
	}
	broadcast_shape(k, sa, sb, so); // with the rules
	auto R = u.op(A, B);
	// stored positions hold non zero values, the others are zero
	auto want = broadcast(ra.a, rb.a, [&](D x, D y) { return x == 0 || y == 0 ? 0. : u.f(x, y); });
	compare(c, k, R, so, want, u.name, 1e-9);
	if (!u.inplace)
		unchanged(c, A, ra, "left operand");
	else
		compare(c, k, A, so, want, "left operand after the in place operation", 1e-9);
	unchanged(c, B, rb, "right operand");
}
} // namespace
MC_SUITE(products) { elementwise_body(c, 2, c.thorough); }
MC_THOROUGH_SUITE(products_rank3) { elementwise_body(c, 3, false); }
// results have one element type: the one the same dense operation gives
namespace
{
const std::vector<torch::ScalarType> &all_types()
{
	static const std::vector<torch::ScalarType> t{torch::kFloat, torch::kDouble, torch::kComplexFloat, torch::kComplexDouble, torch::kLong, torch::kInt};
	return t;
}
// 1 where a block of the list is stored
torch::Tensor stored_mask(const Named &n, const std::vector<idx> &p)
{
	Ref r = make_ref(*n.k, n.s, p, 1);
	return build(map_ref(r, [](D) { return D(1); })).to_dense().ne(0);
}
} // namespace
MC_SUITE(dtypes)
{
	using T = torch::Tensor;
	auto menu = structures(2, c.thorough);
	auto &n = c.pick(menu, "structure");
	if (n.s.legs.size() == 1)
		c.skip();
	auto all = blocks_allowed(*n.k, n.s);
	auto ta = c.pick(all_types(), "type of A");
	c.shard();
	auto pa = choose_present(c, all, 2, "blocks of A");
	auto ra = make_ref(*n.k, n.s, pa, 1);
	auto mk = [&](const Ref &r, torch::ScalarType t) { return build(map_ref(r, [](D x) { return D(int(4 * x)); })).to(t); };
	// allowed blocks, stored blocks of A, stored blocks of both operands
	struct Masks
	{
		T allowed, a, both;
	};
	auto in = [](const T &mask, const T &x) { return torch::where(mask, x, torch::zeros_like(x)); };
	using SOp = std::tuple<const char *, std::function<btensor(btensor &, torch::Scalar)>, std::function<T(T &, torch::Scalar, const Masks &)>>;
#define SOPS(e, f) [](btensor &A, torch::Scalar s) -> btensor { return e; }, [in](T &A, torch::Scalar s, const Masks &m) -> T { return f; }
	static const std::vector<SOp> sops{
	    {"A.mul(s)", SOPS(A.mul(s), A.mul(s))},
	    {"A*s", SOPS(A *s, A.mul(s))},
	    {"s*A", SOPS(s *A, A.mul(s))},
	    {"A.div(s)", SOPS(A.div(s), A.div(s))},
	    {"s/A", SOPS(s / A, in(m.a, s / A))},
	    {"A.pow(2)", SOPS(A.pow(2), A.pow(2))},
	    {"abs(A).pow(s)", SOPS(A.abs().pow(s), in(m.a, A.abs().pow(s)))},
	    {"A.abs()", SOPS(A.abs(), A.abs())},
	    {"A.abs().sqrt()", SOPS(A.abs().sqrt(), A.abs().sqrt())},
	    {"A.sum()", SOPS(A.sum(), A.sum())},
	    {"-A", SOPS(-A, -A)},
	    {"A==s", SOPS(A == s, A.eq(s).logical_and(m.a))},
	    {"A!=s", SOPS(A != s, A.ne(s).logical_and(m.a))},
	    {"A.ge(s)", SOPS(A.ge(s), A.ge(s).logical_and(m.a))},
	    {"s>A", SOPS(s > A, A.lt(s).logical_and(m.a))},
	    {"A.add(s)", SOPS(A.add(s), in(m.allowed, A.add(s)))},
	    {"A.add(s,2)", SOPS(A.add(s, 2), in(m.allowed, A.add(s, 2)))},
	    {"A.sub(s)", SOPS(A.sub(s), in(m.allowed, A.sub(s)))},
	    {"A*=s", SOPS(A *= s, A *= s)},
	    {"A/=s", SOPS(A /= s, A /= s)},
	    {"A+=s", SOPS(A += s, A = in(m.allowed, A += s))},
	    {"A.sub_(s,2)", SOPS(A.sub_(s, 2), A = in(m.allowed, A.sub_(s, 2)))},
	    {"A.pow_(3)", SOPS(A.pow_(3), A.pow_(3))},
	    {"A.abs_()", SOPS(A.abs_(), A.abs_())},
	};
	using TOp = std::tuple<const char *, std::function<btensor(btensor &, const btensor &)>, std::function<T(T &, const T &, const Masks &)>>;
#define TOPS(e, f) [](btensor &A, const btensor &B) -> btensor { return e; }, [in](T &A, const T &B, const Masks &m) -> T { return f; }
	static const std::vector<TOp> tops{
	    {"A+B", TOPS(A + B, A + B)},
	    {"A.add(B,2)", TOPS(A.add(B, 2), A.add(B, 2))},
	    {"A-B", TOPS(A - B, A - B)},
	    {"A-copy of B", TOPS(A.sub(btensor(B)), A - B)},
	    {"A+=B", TOPS(A += B, A += B)},
	    {"A-=B", TOPS(A -= B, A -= B)},
	    {"A.add_(copy of B)", TOPS(A.add_(btensor(B)), A += B)},
	    {"A.add(B,2.5)", TOPS(A.add(B, 2.5), A.add(B, 2.5))},
	    {"A.sub_(B,2.5)", TOPS(A.sub_(B, 2.5), A = A.sub_(B, 2.5))},
	    {"A*=B", TOPS(A *= B, A *= B)},
	    {"A/=B", TOPS(A /= B, A = in(m.both, A /= B))},
	    {"A*B", TOPS(A *B, A *B)},
	    {"A/B", TOPS(A / B, in(m.both, A / B))},
	    {"A.abs().pow(B.abs())", TOPS(A.abs().pow(B.abs()), in(m.both, A.abs().pow(B.abs())))},
	    {"A==B", TOPS(A == B, A.eq(B).logical_and(m.both))},
	    {"A.ge(B)", TOPS(A.ge(B), A.ge(B).logical_and(m.both))},
	    {"A<B", TOPS(A < B, A.lt(B).logical_and(m.both))},
	};
	auto same = [&](const btensor &R, const T &want, const std::string &w) {
		c.step();
		same_dtype(c, R, w);
		auto d = R.to_dense();
		REQUIRE(d.dtype() == want.dtype(), ": ", w, ": dense form of type ", d.dtype().name(), " instead of ", want.dtype().name());
		REQUIRE(d.sizes() == want.sizes() && (d.dtype() == torch::kBool ? d.eq(want).all().item().toBool() : torch::allclose(d, want, 1e-5, 1e-6, true)), ": ", w, ": other content");
	};
	// the block operation does what torch does on the dense form: the same value of the same type, or a refusal
	auto both_ways = [&](const char *w, btensor &A, const std::function<btensor(btensor &)> &op, const std::function<T(T &)> &ref, bool meets) {
		auto before = A.to_dense();
		auto a = before.clone();
		T want;
		bool refused = false;
		try
		{
			want = ref(a);
		}
		catch (const std::exception &)
		{
			refused = true;
		}
		if (refused)
		{
			// an operation without any block to apply it to may find nothing to object to
			if (!meets)
				return;
			bool threw = false;
			try
			{
				op(A);
			}
			catch (const std::exception &)
			{
				threw = true;
			}
			REQUIRE(threw, w, " accepted, torch refuses it");
			same(A, before, mc::cat("operand of refused ", w));
			return;
		}
		same(op(A), want, w);
		same(A, a, mc::cat("operand after ", w));
	};
	Masks m;
	m.a = stored_mask(n, pa);
	m.allowed = stored_mask(n, all);
	if (c.flip("with a tensor"))
	{
		auto tb = c.pick(all_types(), "type of B");
		auto pb = choose_present(c, all, 2, "blocks of B");
		auto &u = c.pick(tops, "operation");
		m.both = m.a.logical_and(stored_mask(n, pb));
		c.describe(mc::cat("A", str(n.s), present_str(pa), " of ", ta, ", B", present_str(pb), " of ", tb, ", ", std::get<0>(u)));
		auto rb = make_ref(*n.k, n.s, pb, 2);
		auto A = mk(ra, ta), B = mk(rb, tb);
		auto b = B.to_dense();
		both_ways(std::get<0>(u), A, [&](btensor &x) { return std::get<1>(u)(x, B); }, [&](T &x) { return std::get<2>(u)(x, b, m); }, m.both.any().item().toBool());
		same(B, b, "right operand");
	}
	else
	{
		static const std::vector<torch::Scalar> sc{torch::Scalar(int64_t(2)), torch::Scalar(0.5), torch::Scalar(c10::complex<double>(0.5, 1))};
		auto &s = c.pick(sc, "scalar");
		auto &u = c.pick(sops, "operation");
		c.describe(mc::cat("A", str(n.s), present_str(pa), " of ", ta, ", scalar of ", s.type(), ", ", std::get<0>(u)));
		auto A = mk(ra, ta);
		both_ways(std::get<0>(u), A, [&](btensor &x) { return std::get<1>(u)(x, s); }, [&](T &x) { return std::get<2>(u)(x, s, m); }, !pa.empty());
	}
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
