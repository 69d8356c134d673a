// C07: permutations, reshapes and squeezes only move elements
#include "bt.h"
using namespace bm;
namespace
{
// structures of rank up to 4, with size one dimensions of neutral or other quantity in every position
std::vector<Named> shapes(bool thorough)
{
	auto o = structures(3, thorough);
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg a{S(1, 0), S(2, 1)}, b{S(2, 0), S(1, -1)}, t{S(1, 0)}, t1{S(1, 1)}, d{S(1, 0), S(1, 1)}, two{S(2, 1)}, tt{S(1, 0), S(0, 1)};
	auto add = [&](std::vector<Leg> l, int rule) { o.push_back({&kZ(), {l, {rule}}}); };
	add({t}, 0);
	add({t1}, 1);
	add({t, t}, 0);
	add({t1, a, t}, 2);
	add({a, d, b, t1}, 1);
	add({d, a, d, a}, 2);
	add({two, d, a, two}, 3);
	o.push_back({&kC3(), {{{{1, {2}}, {2, {1}}}, {{1, {1}}}, {{1, {0}}, {1, {2}}}, {{2, {1}}, {1, {0}}}}, {2}}});
	return o;
}
std::vector<idx> all_cuts(int64_t rank)
{
	std::vector<idx> o;
	for (int m = 0; m < (1 << std::max<int64_t>(rank - 1, 0)); ++m)
	{
		idx c{0};
		for (int64_t d = 1; d < rank; ++d)
			if (m >> (d - 1) & 1)
				c.push_back(d);
		c.push_back(rank);
		o.push_back(c);
	}
	return o;
}
// empty groups too: they make dimensions of size one
std::vector<idx> more_cuts(int64_t rank)
{
	auto o = all_cuts(rank);
	for (int64_t i = 0; i <= rank; ++i)
	{
		o.push_back({0, i, i, rank});
		for (int64_t j = i; j <= rank; ++j)
			if (i == 0 || j == rank)
				o.push_back({0, i, j, rank});
	}
	return o;
}
idx inner(const idx &cuts) { return idx(cuts.begin() + 1, cuts.end() - 1); }
void match(mc::Ctx &c, const btensor &t, const Ref &r, const std::string &w)
{
	compare(c, *r.k, t, r.s, r.a, w, 0);
	auto d = from_torch(t.to_dense());
	REQUIRE(close(d, r.a, 0), w, ": to_dense gives ", astr(d));
	for (auto &b : t.blocks())
		if (std::find(r.present.begin(), r.present.end(), std::get<0>(b)) == r.present.end())
			c.fail(w + ": a block appeared at " + mc::vstr(std::get<0>(b)));
	REQUIRE((size_t)std::distance(t.begin(), t.end()) == r.present.size(), w, ": number of blocks");
}
template <class F>
void inplace(mc::Ctx &c, const Ref &from, const Ref &want, const std::string &w, F &&f)
{
	auto A = build(from);
	auto B = A; // shares the blocks
	auto &r = f(A);
	REQUIRE(&r == &A, w, " returns another object");
	match(c, A, want, w);
	unchanged(c, B, from, w + ": copy of the operand");
}
} // namespace

MC_SUITE(permutation)
{
	auto menu = shapes(c.thorough);
	{
		auto S = [](int64_t s, int q) { return Section{s, {q}}; };
		Leg a{S(1, 0), S(2, 1)}, u{S(2, 1), S(1, -1), S(1, 0)}, t{S(1, 1)}, x{S(1, 0), S(1, 0)};
		menu.push_back({&kZ(), {{a, u, t, x, a}, {1}}}); // five dimensions
		if (c.thorough)
			menu.push_back({&kZ(), {{a, t, u, t, x, {S(2, 0)}}, {1}}});
	}
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	auto ps = arrangements(r, r);
	auto &p = c.pick(ps, "permutation");
	c.shard();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 7 : 5);
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", permute ", mc::vstr(p)));
	auto A = build(A_);
	auto want = permuted(A_, p);
	auto B = A.permute(p);
	match(c, B, want, "permute");
	unchanged(c, A, A_, "operand");
	auto q = p;
	for (auto &x : q)
		x -= r;
	match(c, A.permute(q), want, "permute, dimensions counted from the last");
	inplace(c, A_, want, "permute_", [&](btensor &t) -> btensor & { return t.permute_(p); });
	idx back(r);
	for (int64_t d = 0; d < r; ++d)
		back[p[d]] = d;
	match(c, B.permute(back), A_, "permutation and its inverse");
	match(c, B.permute(p), permuted(want, p), "permutation of a permuted tensor");
}
MC_SUITE(transposition)
{
	auto menu = shapes(c.thorough);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	if (r == 0)
		c.skip();
	int64_t i = c.choose(2 * r, "dim0") - r, j = c.choose(2 * r, "dim1") - r;
	c.shard();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 5 : 3);
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", transpose ", i, " ", j));
	idx p(r);
	std::iota(p.begin(), p.end(), 0);
	std::swap(p[(i + r) % r], p[(j + r) % r]);
	auto A = build(A_);
	auto want = permuted(A_, p);
	match(c, A.transpose(i, j), want, "transpose");
	inplace(c, A_, want, "transpose_", [&](btensor &t) -> btensor & { return t.transpose_(i, j); });
	if (r >= 2)
	{
		std::iota(p.begin(), p.end(), 0);
		std::swap(p[r - 1], p[r - 2]);
		want = permuted(A_, p);
		match(c, A.t(), want, "t");
		inplace(c, A_, want, "t_", [&](btensor &t) -> btensor & { return t.t_(); });
	}
	unchanged(c, A, A_, "operand");
}
MC_SUITE(refused_permutations)
{
	auto menu = shapes(false);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	// every list of up to rank+1 dimensions in [-r-1,r] that is not a permutation
	int len = c.choose(r + 2, "length");
	if (r > 3 && len > 4)
		c.skip();
	idx p;
	for (int i = 0; i < len; ++i)
		p.push_back(c.choose(r > 2 ? r + 1 : 2 * r + 2, "dim") - (r > 2 ? 0 : r + 1));
	std::set<int64_t> seen;
	bool good = len == r;
	for (auto x : p)
	{
		good = good && x >= -r && x < r;
		seen.insert(x < 0 ? x + r : x);
	}
	if (good && (int64_t)seen.size() == r)
		c.skip();
	c.shard();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), 1);
	if (c.flip("no blocks"))
		present.clear();
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", refused permute ", mc::vstr(p)));
	auto A = build(A_);
	c.step();
	REQUIRE(throws([&] { A.permute(p); }), "permute accepted");
	REQUIRE(throws([&] { A.permute_(p); }), "permute_ accepted");
	if (len == 2 && (p[0] < -r || p[0] >= r || p[1] < -r || p[1] >= r))
	{
		REQUIRE(throws([&] { A.transpose(p[0], p[1]); }), "transpose accepted");
		REQUIRE(throws([&] { A.transpose_(p[0], p[1]); }), "transpose_ accepted");
	}
	unchanged(c, A, A_, "operand");
}
MC_SUITE(grouping)
{
	auto menu = shapes(c.thorough);
	auto &n = c.pick(menu, "structure");
	auto cuts = more_cuts(n.s.legs.size());
	auto &g = c.pick(cuts, "groups");
	c.shard();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 8 : 5);
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", reshape ", mc::vstr(inner(g))));
	auto A = build(A_);
	auto want = reshaped(A_, grouped(*n.k, n.s, g));
	auto B = static_cast<const btensor &>(A).reshape(torch::IntArrayRef(inner(g)));
	match(c, B, want, "reshape");
	match(c, B.reshape_as(A), A_, "reshape and back with reshape_as");
	btensor shape(shape_list(*n.k, n.s), n.k->make(n.s.rule));
	match(c, B.reshape_as(shape), A_, "reshape and back to a structure");
	// to another grouping, directly
	auto &h = c.pick(cuts, "other groups");
	auto other = reshaped(A_, grouped(*n.k, n.s, h));
	btensor oshape(shape_list(*n.k, other.s), n.k->make(other.s.rule));
	match(c, B.reshape_as(oshape), other, "reshape_as another grouping");
	match(c, B.reshape_as<quantit::reshape_mode::overwrite_c_vals>(oshape), other, "reshape_as another grouping, overwriting the same quantities");
	unchanged(c, A, A_, "operand");
	unchanged(c, B, want, "grouped operand");
}
MC_SUITE(regrouping_permuted)
{
	// the blocks of a permuted tensor are strided
	auto menu = shapes(false);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	auto ps = arrangements(r, r);
	auto &p = c.pick(ps, "permutation");
	c.shard();
	auto cuts = all_cuts(r);
	auto &g = c.pick(cuts, "groups");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 4 : 2);
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", permute ", mc::vstr(p), " then reshape ", mc::vstr(inner(g))));
	auto A = build(A_);
	auto P_ = permuted(A_, p);
	auto P = A.permute(p);
	auto want = reshaped(P_, grouped(*n.k, P_.s, g));
	auto B = P.reshape(torch::IntArrayRef(inner(g)));
	match(c, B, want, "permute then reshape");
	auto back = B.reshape_as(P);
	match(c, back, P_, "undone grouping");
	idx q(r);
	for (int64_t d = 0; d < r; ++d)
		q[p[d]] = d;
	match(c, back.permute(q), A_, "undone grouping and permutation");
	unchanged(c, A, A_, "operand");
}
MC_SUITE(overwriting)
{
	// new quantities: shifted in some dimensions, and a rule that does or does not agree with them
	auto menu = shapes(c.thorough);
	auto &n = c.pick(menu, "structure");
	auto &k = *n.k;
	int64_t r = n.s.legs.size();
	if (r == 0)
		c.skip();
	int dim = c.choose(r, "shifted dimension"), s = c.choose(4, "shift") - 1, rs = c.choose(4, "change of the rule") - 1;
	c.shard();
	bool one = c.flip("a single section is shifted");
	auto present = choose_present(c, blocks_allowed(k, n.s), c.thorough ? 5 : 3);
	auto A_ = make_ref(k, n.s, present, 1);
	Val sv(k.mods.size(), 0), rv = sv;
	sv[0] = s, rv[0] = rs;
	auto t = n.s;
	if (one)
		t.legs[dim].back().q = add(k, t.legs[dim].back().q, sv);
	else
		t.legs[dim] = shifted(k, t.legs[dim], sv);
	t.rule = add(k, norm(k, t.rule), rv);
	bool flux = true, stored = true; // dims_only wants the same quantity on every possible block; overwrite only cares for stored blocks
	each(sections_of(t), [&](const idx &b) {
		Val x = zero(k), y = x;
		for (int64_t d = 0; d < r; ++d)
			x = add(k, x, n.s.legs[d][b[d]].q), y = add(k, y, t.legs[d][b[d]].q);
		flux = flux && x == y;
		if (std::find(present.begin(), present.end(), b) != present.end())
			stored = stored && y == norm(k, t.rule);
	});
	c.describe(mc::cat("A", str(n.s), present_str(present), ", reshape_as to ", str(t)));
	auto A = build(A_);
	btensor shape(shape_list(k, t), k.make(t.rule));
	auto want = A_;
	want.s = t;
	c.step();
	if (stored)
		match(c, A.reshape_as<quantit::reshape_mode::overwrite_c_vals>(shape), want, "reshape_as, overwriting");
	else
		REQUIRE(throws([&] { A.reshape_as<quantit::reshape_mode::overwrite_c_vals>(shape); }), "reshape_as accepted a forbidden block");
	if (flux)
	{
		want.s.rule = n.s.rule; // the rule is kept
		match(c, A.reshape_as(shape), want, "reshape_as");
	}
	else
		REQUIRE(throws([&] { A.reshape_as(shape); }), "reshape_as accepted other quantities");
	unchanged(c, A, A_, "operand");
}
MC_SUITE(refused_reshapes)
{
	auto menu = shapes(false);
	auto &n = c.pick(menu, "structure");
	auto &m = c.pick(menu, "target");
	c.shard();
	if (n.k != m.k)
	{
		// other kind of quantities: refused whenever it is more than rank 0
		if (n.s.legs.empty())
			c.skip();
	}
	else
	{
		// compatible structures are not refused
		auto fa = grouped(*n.k, n.s, {0, (int64_t)n.s.legs.size()}), fb = grouped(*n.k, m.s, {0, (int64_t)m.s.legs.size()});
		if (str(Shape{fa.legs, {0}}) == str(Shape{fb.legs, {0}}))
			c.skip();
	}
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), 3);
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", refused reshape_as to ", str(m.s)));
	auto A = build(A_);
	btensor shape(shape_list(*m.k, m.s), m.k->make(m.s.rule));
	c.step();
	REQUIRE(throws([&] { A.reshape_as(shape); }), "accepted");
	unchanged(c, A, A_, "operand");
}
MC_SUITE(refused_groupings)
{
	auto menu = shapes(false);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	int len = 1 + c.choose(3, "length");
	idx g;
	for (int i = 0; i < len; ++i)
		g.push_back(c.choose(r + 3, "cut") - 1);
	bool good = true;
	for (int i = 0; i < len; ++i)
		good = good && g[i] >= (i ? g[i - 1] : 0) && g[i] <= r;
	if (good)
		c.skip();
	c.shard();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), 1);
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", refused reshape ", mc::vstr(g)));
	auto A = build(A_);
	c.step();
	REQUIRE(throws([&] { A.reshape(torch::IntArrayRef(g)); }), "accepted");
	unchanged(c, A, A_, "operand");
}
MC_SUITE(squeezing)
{
	auto menu = shapes(c.thorough);
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg a{S(1, 0), S(2, 1)}, t{S(1, 0)}, t1{S(1, 1)};
	auto add = [&](std::vector<Leg> l, int rule) { menu.push_back({&kZ(), {l, {rule}}}); };
	add({t, a, a}, 1);
	add({t1, a, a}, 2);
	add({a, t1, t1, a}, 3);
	add({a, a, t1}, 2);
	add({t1, t, t1}, 2);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	int dim = c.choose(2 * r + 1, "dimension") - r; // r: all of them
	c.shard();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 6 : 4);
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", squeeze ", dim == r ? "all" : mc::cat(dim)));
	idx el(r, -1);
	for (int64_t d = 0; d < r; ++d)
		if ((dim == r || (dim + r) % r == d) && n.s.legs[d].size() == 1 && n.s.legs[d][0].size == 1)
			el[d] = 0;
	auto want = sliced(A_, el);
	auto A = build(A_);
	if (dim == r)
	{
		match(c, A.squeeze(), want, "squeeze");
		match(c, quantit::squeeze(A), want, "free squeeze");
		inplace(c, A_, want, "squeeze_", [&](btensor &t) -> btensor & { return t.squeeze_(); });
		inplace(c, A_, want, "free squeeze_", [&](btensor &t) -> btensor & { return quantit::squeeze_(t); });
	}
	else
	{
		match(c, A.squeeze(dim), want, "squeeze(dim)");
		match(c, quantit::squeeze(A, dim), want, "free squeeze(dim)");
		inplace(c, A_, want, "squeeze_(dim)", [&](btensor &t) -> btensor & { return t.squeeze_(dim); });
		inplace(c, A_, want, "free squeeze_(dim)", [&](btensor &t) -> btensor & { return quantit::squeeze_(t, dim); });
	}
	unchanged(c, A, A_, "operand");
}
namespace
{
// programs of movements: the model is moved along
void program(mc::Ctx &c, int depth)
{
	auto menu = shapes(false);
	auto &n = c.pick(menu, "structure");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), 2);
	std::vector<Ref> hist{make_ref(*n.k, n.s, present, 1)};
	std::vector<btensor> ts{build(hist[0])};
	std::string what = mc::cat("A", str(n.s), present_str(present));
	for (int i = 0; i < depth; ++i)
	{
		auto &cur = hist.back();
		int64_t r = cur.s.legs.size();
		int op = c.choose(4, "operation");
		if (op == 0)
		{
			auto ps = arrangements(r, r);
			auto &p = c.pick(ps, "permutation");
			what += mc::cat(", permute ", mc::vstr(p));
			c.describe(what);
			ts.push_back(ts.back().permute(p));
			hist.push_back(permuted(cur, p));
		}
		else if (op == 1)
		{
			auto cuts = all_cuts(r);
			auto &g = c.pick(cuts, "groups");
			what += mc::cat(", reshape ", mc::vstr(inner(g)));
			c.describe(what);
			ts.push_back(ts.back().reshape(torch::IntArrayRef(inner(g))));
			hist.push_back(reshaped(cur, grouped(*cur.k, cur.s, g)));
		}
		else if (op == 2)
		{
			what += ", squeeze";
			c.describe(what);
			idx el(r, -1);
			for (int64_t d = 0; d < r; ++d)
				if (cur.s.legs[d].size() == 1 && cur.s.legs[d][0].size == 1)
					el[d] = 0;
			ts.push_back(ts.back().squeeze());
			hist.push_back(sliced(cur, el));
		}
		else
		{
			// back to the structure of an earlier tensor, when the last operations were groupings only
			int j = c.choose(hist.size(), "earlier tensor");
			auto fa = grouped(*n.k, hist[j].s, {0, (int64_t)hist[j].s.legs.size()}), fb = grouped(*n.k, cur.s, {0, r});
			if (str(fa) != str(fb))
				c.skip();
			what += mc::cat(", reshape_as tensor ", j);
			c.describe(what);
			ts.push_back(ts.back().reshape_as(ts[j]));
			hist.push_back(reshaped(cur, hist[j].s));
		}
		if (i == 0)
			c.shard();
	}
	for (size_t i = 0; i < ts.size(); ++i)
		match(c, ts[i], hist[i], mc::cat("tensor ", i));
}
} // namespace
MC_SUITE(programs) { program(c, 2); }
MC_THOROUGH_SUITE(programs3) { program(c, 3); }
int main(int argc, char **argv) { return mc::main_(argc, argv); }
