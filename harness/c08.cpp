// C08: slices and sub-tensor assignment
#include "bt.h"
using namespace bm;
namespace
{
std::vector<Named> shapes(bool thorough)
{
	auto o = structures(3, thorough);
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg a{S(1, 0), S(2, 1)}, b{S(2, 0), S(1, -1)}, t1{S(1, 1)}, d{S(1, 0), S(1, 1)}, r{S(1, 1), S(2, 1)};
	auto add = [&](std::vector<Leg> l, int rule) { o.push_back({&kZ(), {l, {rule}}}); };
	add({a}, 1);
	add({t1}, 1);
	add({r, a}, 2);
	add({a, d, b, t1}, 1);
	add({d, d, d, d}, 2);
	return o;
}
idx choose_slice(mc::Ctx &c, const Shape &s)
{
	idx el;
	for (size_t d = 0; d < s.legs.size(); ++d)
		el.push_back(c.choose(size_of(s.legs[d]) + 1, "element or whole dimension") - 1);
	return el;
}
// the selected dimensions are kept, with size one
Ref kept(const Ref &r, const idx &el)
{
	Ref o = sliced(r, el);
	Shape s{{}, r.s.rule};
	std::vector<idx> present;
	idx sec(el.size());
	for (size_t d = 0; d < el.size(); ++d)
		if (el[d] < 0)
			s.legs.push_back(r.s.legs[d]);
		else
		{
			int64_t e = el[d], i = 0;
			while (e >= r.s.legs[d][i].size)
				e -= r.s.legs[d][i++].size;
			s.legs.push_back({{1, r.s.legs[d][i].q}});
		}
	for (auto &b : o.present)
	{
		idx n;
		size_t j = 0;
		for (auto x : el)
			n.push_back(x < 0 ? b[j++] : 0);
		present.push_back(n);
	}
	o.s = s, o.present = present, o.a.shape = sizes_of(s);
	return o;
}
void match(mc::Ctx &c, const btensor &t, const Ref &r, const std::string &w)
{
	compare(c, *r.k, t, r.s, r.a, w, 0);
	for (auto &b : t.blocks())
		if (std::find(r.present.begin(), r.present.end(), std::get<0>(b)) == r.present.end())
			c.fail(w + ": unexpected block at " + mc::vstr(std::get<0>(b)));
}
// the destination after the assignment
Ref assigned(const Ref &dst, const idx &el, const Arr &v)
{
	Ref o = dst;
	idx sh;
	for (size_t d = 0; d < el.size(); ++d)
		if (el[d] < 0)
			sh.push_back(dst.a.shape[d]);
	each(sh, [&](const idx &i) {
		idx e = el;
		size_t j = 0;
		for (auto &x : e)
			if (x < 0)
				x = i[j++];
		o.a(e) = v(i);
	});
	return o;
}
} // namespace
MC_SUITE(views)
{
	auto menu = shapes(c.thorough);
	auto &n = c.pick(menu, "structure");
	c.shard();
	auto el = choose_slice(c, n.s);
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 7 : n.s.legs.size() >= 3 ? 3 : 5);
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", slice ", mc::vstr(el)));
	auto A = build(A_);
	auto want = sliced(A_, el);
	auto s = A.shape_from(el);
	same_structure(c, *n.k, s, want.s, "shape_from");
	REQUIRE(s.begin() == s.end(), "shape_from has blocks");
	auto s2 = quantit::shape_from(A, el);
	same_structure(c, *n.k, s2, want.s, "free shape_from");
	auto v = A.basic_create_view(el);
	match(c, v, want, "view");
	REQUIRE(close(from_torch(v.to_dense()), want.a, 0), "dense form of the view");
	unchanged(c, A, A_, "source of the view");
	auto k = A.basic_create_view(el, true);
	match(c, k, kept(A_, el), "view keeping the rank");
	unchanged(c, A, A_, "source of the view keeping the rank");
}
MC_SUITE(views_of_views)
{
	auto menu = shapes(false);
	auto &n = c.pick(menu, "structure");
	if (n.s.legs.size() < 2 || (!c.thorough && n.s.legs.size() > 3))
		c.skip();
	c.shard();
	auto el = choose_slice(c, n.s);
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), 2);
	auto A_ = make_ref(*n.k, n.s, present, 1);
	auto V_ = sliced(A_, el), K_ = kept(A_, el);
	auto el2 = choose_slice(c, V_.s);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", slice ", mc::vstr(el), " then ", mc::vstr(el2)));
	auto A = build(A_);
	auto V = A.basic_create_view(el);
	match(c, V.basic_create_view(el2), sliced(V_, el2), "view of a view");
	auto el3 = el;
	size_t j = 0;
	for (auto &x : el3)
		x = x < 0 ? el2[j++] : 0;
	auto K = A.basic_create_view(el, true);
	match(c, K.basic_create_view(el3), sliced(K_, el3), "view of a view keeping the rank");
	unchanged(c, A, A_, "source");
	unchanged(c, V, V_, "view");
}
MC_SUITE(assignments)
{
	auto menu = shapes(c.thorough);
	auto &n = c.pick(menu, "structure");
	c.shard();
	auto el = choose_slice(c, n.s);
	int rank = n.s.legs.size();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 6 - (rank >= 3) : rank >= 3 ? 2 : 4, "blocks of the destination");
	auto A_ = make_ref(*n.k, n.s, present, 1);
	auto vs = sliced(A_, el).s;
	auto vp = choose_present(c, blocks_allowed(*n.k, vs), c.thorough ? 4 : 2, "blocks of the value");
	auto V_ = make_ref(*n.k, vs, vp, 2);
	int form = c.choose(3, "form of the value");
	static const char *forms[] = {"a block tensor", "a dense tensor", "a strided dense tensor"};
	c.describe(mc::cat("A", str(n.s), present_str(present), ", put ", forms[form], present_str(vp), " at ", mc::vstr(el)));
	auto A = build(A_);
	auto want = assigned(A_, el, V_.a);
	btensor *r;
	if (form == 0)
	{
		auto V = build(V_);
		r = &A.basic_index_put_(el, V);
		unchanged(c, V, V_, "assigned value");
		compare(c, *n.k, A, n.s, want.a, "destination", 0);
		if (r->begin() != r->end()) // later changes of the value are not seen
		{
			V.mul_(3);
			compare(c, *n.k, A, n.s, want.a, "destination after a change of the value", 0);
		}
	}
	else
	{
		auto v = to_torch(V_.a);
		if (form == 2)
			v = torch::stack({v, v + 1}, -1).select(-1, 0);
		auto copy = v.clone();
		r = &A.basic_index_put_(el, v);
		compare(c, *n.k, A, n.s, want.a, "destination", 0);
		REQUIRE(torch::equal(v, copy), "the assigned value changed");
		v.mul_(3);
		compare(c, *n.k, A, n.s, want.a, "destination after a change of the value", 0);
	}
	REQUIRE(r == &A, "basic_index_put_ returns another object");
	same_dtype(c, A, "destination");
	auto back = A.basic_create_view(el);
	compare(c, *n.k, back, vs, V_.a, "the assigned slice, read back", 0);
}
MC_SUITE(two_puts)
{
	// assignments at two places of a small tensor: the second leaves the first when they are disjoint
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg a{S(1, 0), S(2, 1)}, d{S(1, 0), S(1, 1)};
	std::vector<Named> menu{{&kZ(), {{a, d}, {1}}}, {&kZ(), {{d, a, d}, {2}}}, {&kC3(), {{{{1, {2}}, {1, {1}}}, {{1, {1}}, {2, {2}}}}, {0}}}};
	auto &n = c.pick(menu, "structure");
	auto el = choose_slice(c, n.s);
	c.shard();
	auto el2 = choose_slice(c, n.s);
	auto A_ = make_ref(*n.k, n.s, choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 3 : 1), 1);
	auto s1 = sliced(A_, el).s, s2 = sliced(A_, el2).s;
	auto V_ = make_ref(*n.k, s1, blocks_allowed(*n.k, s1), 2), W_ = make_ref(*n.k, s2, choose_present(c, blocks_allowed(*n.k, s2), 2), 3);
	c.describe(mc::cat("A", str(n.s), present_str(A_.present), ", put at ", mc::vstr(el), " then", present_str(W_.present), " at ", mc::vstr(el2)));
	auto A = build(A_), V = build(V_), W = build(W_);
	A.basic_index_put_(el, V).basic_index_put_(el2, W);
	compare(c, *n.k, A, n.s, assigned(assigned(A_, el, V_.a), el2, W_.a).a, "destination", 0);
	unchanged(c, V, V_, "first value");
	unchanged(c, W, W_, "second value");
}
MC_SUITE(refused_slices)
{
	auto menu = shapes(false);
	auto &n = c.pick(menu, "structure");
	int r = n.s.legs.size();
	if (r > 3)
		c.skip();
	// every list of positions, one beyond the valid ones on both sides, of every length up to rank+1
	int len = c.choose(r + 2, "length");
	c.shard();
	idx el;
	bool good = len == r;
	for (int d = 0; d < len; ++d)
	{
		int64_t s = d < r ? size_of(n.s.legs[d]) : 1;
		el.push_back(c.choose(s + 3, "position") - 2);
		good = good && el[d] >= -1 && el[d] < s;
	}
	if (good)
		c.skip();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), r == 3 ? 0 : 1);
	if (c.flip("no blocks"))
		present.clear();
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("A", str(n.s), present_str(present), ", refused slice ", mc::vstr(el)));
	auto A = build(A_);
	c.step();
	REQUIRE(throws([&] { A.shape_from(el); }), "shape_from accepted");
	REQUIRE(throws([&] { A.basic_create_view(el); }), "basic_create_view accepted");
	REQUIRE(throws([&] { A.basic_create_view(el, true); }), "basic_create_view keeping the rank accepted");
	REQUIRE(throws([&] { A.basic_index_put_(el, A); }), "basic_index_put_ accepted");
	REQUIRE(throws([&] { A.basic_index_put_(el, to_torch(A_.a)); }), "basic_index_put_ of a dense tensor accepted");
	unchanged(c, A, A_, "tensor");
}
MC_SUITE(refused_values)
{
	auto &k = kZ();
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg a{S(1, 0), S(2, 1)}, b{S(2, 0), S(1, -1)};
	Shape sa{{a, b, a}, {1}};
	auto A_ = make_ref(k, sa, choose_present(c, blocks_allowed(k, sa), 3), 1);
	idx el{c.choose(4, "first position") - 1, -1, c.choose(4, "last position") - 1};
	c.shard();
	auto good = sliced(A_, el).s;
	int what = c.choose(6, "mismatch");
	auto bad = good;
	static const char *names[] = {"rule", "size", "quantity", "more dimensions", "fewer dimensions", "sections"};
	if (what == 0)
		bad.rule = {bad.rule[0] + 1};
	else if (what == 1)
		bad.legs.back().back().size += 1;
	else if (what == 2)
		bad.legs.back().back().q = {7};
	else if (what == 3)
		bad.legs.push_back({S(1, 0)});
	else if (what == 4)
		bad.legs.pop_back();
	else
		bad.legs.back().push_back(S(1, 0));
	auto vp = choose_present(c, blocks_allowed(k, bad), 2, "blocks of the value");
	c.describe(mc::cat("A", str(sa), present_str(A_.present), ", refused put at ", mc::vstr(el), " of ", str(bad), present_str(vp), ": other ", names[what]));
	auto A = build(A_);
	auto V_ = make_ref(k, bad, vp, 2);
	auto V = build(V_);
	c.step();
	REQUIRE(throws([&] { A.basic_index_put_(el, V); }), "accepted");
	if (what == 1 || what >= 3)
		REQUIRE(throws([&] { A.basic_index_put_(el, to_torch(V_.a)); }), "accepted a dense value");
	unchanged(c, A, A_, "destination");
	unchanged(c, V, V_, "value");
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
