// C10: conversion from and to dense tensors, factories, structures of tensor products, element type conversion
#include "bt.h"
using namespace bm;
namespace
{
std::vector<Named> menu10(int maxrank, bool thorough)
{
	auto o = structures(maxrank, thorough);
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	auto add = [&](std::vector<Leg> l, int rule) { o.push_back({&kZ(), {l, {rule}}}); };
	add({{S(0, 0), S(2, 1)}, {S(1, 0), S(1, -1)}}, 0); // an empty section
	add({{S(1, 1), S(1, 0), S(2, 1)}}, 1);             // several blocks of a vector
	return o;
}
torch::Tensor strided(const torch::Tensor &t, int how)
{
	if (how == 0)
		return t;
	if (how == 1)
	{ // transposed storage
		idx p(t.dim());
		for (size_t i = 0; i < p.size(); ++i)
			p[i] = p.size() - 1 - i;
		return t.permute(p).contiguous().permute(p);
	}
	// every other element of a bigger tensor
	idx s(t.sizes().begin(), t.sizes().end());
	s.push_back(2);
	auto b = torch::full(s, 7, t.options());
	auto v = b.select(-1, 1);
	v.copy_(t);
	return v;
}
double norm2(const torch::Tensor &t)
{
	auto a = from_torch<std::complex<double>>(t);
	double s = 0;
	for (auto &x : a.v)
		s += std::norm(x);
	return std::sqrt(s);
}
const std::vector<torch::ScalarType> &types()
{
	static std::vector<torch::ScalarType> t{torch::kDouble, torch::kFloat, torch::kComplexDouble, torch::kLong};
	return t;
}
// the dtype announced, and that of every block
void typed(mc::Ctx &c, const btensor &t, torch::ScalarType want, const std::string &w)
{
	REQUIRE(torch::typeMetaToScalarType(t.options().dtype()) == want, ": ", w, ": announced element type");
	same_dtype(c, t, w);
}
std::vector<idx> stored(const btensor &t)
{
	std::vector<idx> p;
	for (auto &b : t.blocks())
		p.push_back(std::get<0>(b));
	return p;
}
} // namespace
MC_SUITE(to_dense)
{
	auto menu = menu10(3, c.thorough);
	auto &n = c.pick(menu, "structure");
	bool cplx = c.flip("complex");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 10 : 6);
	c.describe(mc::cat("dense form of ", str(n.s), present_str(present), cplx ? " complex" : ""));
	auto go = [&](auto x) {
		using T = decltype(x);
		auto R = make_ref<T>(*n.k, n.s, present, 1);
		auto A = build(R);
		auto D = A.to_dense();
		REQUIRE(D.dtype() == A.options().dtype(), "element type");
		REQUIRE(close(from_torch<T>(D), R.a, 0), "dense form ", astr(from_torch<T>(D)));
		unchanged(c, A, R, "after to_dense");
		D.fill_(99);
		unchanged(c, A, R, "modifying the dense form modified the tensor");
	};
	if (cplx)
		go(std::complex<double>(0));
	else
		go(0.);
}
// sizes, dense forms and views of tensors with dimensions of sizes that do not fit in the small integer types
MC_SUITE(long_dimensions)
{
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg l = c.pick(std::vector<Leg>{{S(200, 0), S(100, 1)}, {S(200, 0), S(40, 1), S(90, 0)}, {S(20000, 0), S(20000, 1)}, {S(40000, 1), S(30000, 0)}, {S(1, 0), S(70000, 0)}}, "long dimension");
	Leg o = c.pick(std::vector<Leg>{{}, {S(1, 0)}, {S(1, 0), S(1, -1)}}, "other dimension");
	Shape s{{l}, {0}};
	if (o.size())
		s.legs.insert(s.legs.begin() + c.choose(2, "position"), o);
	auto present = choose_present(c, blocks_allowed(kZ(), s), 3);
	auto R = make_ref(kZ(), s, present, 1);
	c.describe(mc::cat("long ", str(s), present_str(present)));
	auto A = build(R);
	REQUIRE(A.sizes() == sizes_of(s), "sizes ", mc::vstr(A.sizes()));
	auto D = A.to_dense();
	REQUIRE(close(from_torch<double>(D), R.a, 0), "dense form");
	auto B = from_basic_tensor_like(A, D);
	REQUIRE(close(from_torch<double>(B.to_dense()), R.a, 0), "dense form of the tensor made from the dense form");
	REQUIRE(B.blocks().size() <= blocks_allowed(kZ(), s).size(), "number of blocks");
	// one element at each end of each section
	size_t d = prod(sizes_of({{s.legs[0]}, {0}})) < 3 ? 1 : 0;
	int64_t b = 0;
	for (auto &x : l)
	{
		for (auto e : {b, b + x.size - 1})
		{
			c.step();
			idx at(s.legs.size(), -1);
			at[d] = e;
			auto v = A.basic_create_view(at).to_dense();
			REQUIRE(torch::equal(v, D.select(d, e)), "element ", e, " of dimension ", d);
		}
		b += x.size;
	}
}
// a dense tensor whose allowed blocks are each zero, small or big, and whose forbidden part is zero or not
MC_SUITE(from_dense)
{
	auto menu = menu10(3, c.thorough);
	auto &n = c.pick(menu, "structure");
	c.shard();
	auto all = blocks_allowed(*n.k, n.s);
	double cutoff = c.pick(std::vector<double>{-1, 0, 1, 4}, "cutoff");
	bool forbidden = c.flip("forbidden part");
	auto R = make_ref(*n.k, n.s, {}, 1);
	if (forbidden)
		for (size_t i = 0; i < R.a.v.size(); ++i)
			R.a.v[i] = gen(5, i);
	Arr want(sizes_of(n.s));
	std::vector<idx> kept;
	std::string what;
	int free = 0;
	for (auto &b : all)
	{
		int k = free++ < (c.thorough ? 6 : 4) ? c.choose(3, "content of the block") : free % 3;
		what += mc::cat(" ", mc::vstr(b), k == 0 ? "zero" : k == 1 ? "small" : "big");
		idx st, sz;
		extent(n.s, b, st, sz);
		double s2 = 0, v0 = k == 1 ? 0.5 : 0.75;
		int64_t cnt = 0;
		each(sz, [&](const idx &i) {
			idx e = st;
			for (size_t d = 0; d < e.size(); ++d)
				e[d] += i[d];
			R.a(e) = k == 0 ? 0. : (cnt++ % 2 ? -v0 : v0) * (k == 2 && cnt == prod(sz) ? 5 : 1);
			s2 += R.a(e) * R.a(e);
		});
		if (std::sqrt(s2) > (cutoff < 0 ? 1e-16 : cutoff))
		{
			kept.push_back(b);
			each(sz, [&](const idx &i) {
				idx e = st;
				for (size_t d = 0; d < e.size(); ++d)
					e[d] += i[d];
				want(e) = R.a(e);
			});
		}
	}
	int layout = c.choose(3, "layout");
	bool like = c.flip("like");
	c.describe(mc::cat("from a dense tensor: ", str(n.s), what, forbidden ? ", with forbidden elements" : "", ", cutoff ", cutoff, ", layout ", layout, like ? ", like" : ""));
	auto dense = strided(to_torch(R.a), layout);
	btensor shape(shape_list(*n.k, n.s), n.k->make(n.s.rule), torch::kDouble);
	auto t = like ? (cutoff < 0 ? from_basic_tensor_like(shape, dense) : from_basic_tensor_like(shape, dense, cutoff))
	              : (cutoff < 0 ? from_basic_tensor(shape_list(*n.k, n.s), n.k->make(n.s.rule), dense)
	                            : from_basic_tensor(shape_list(*n.k, n.s), n.k->make(n.s.rule), dense, cutoff));
	compare(c, *n.k, t, n.s, want, "from dense", 0);
	typed(c, t, torch::kDouble, "from dense");
	REQUIRE(stored(t) == kept, ": stored blocks", present_str(stored(t)), " expected", present_str(kept));
	auto back = t.to_dense();
	REQUIRE(close(from_torch(back), want, 0), "dense form of the conversion");
	REQUIRE(close(from_torch(dense), R.a, 0), "the dense tensor was modified");
	REQUIRE(shape.begin() == shape.end(), "the shape was modified");
	for (auto &b : t)
		std::get<1>(b).fill_(55);
	REQUIRE(close(from_torch(dense), R.a, 0), "modifying the block tensor modified the dense tensor it was made from");
}
MC_SUITE(from_dense_types)
{
	auto menu = menu10(2, c.thorough);
	auto &n = c.pick(menu, "structure");
	auto vt = c.pick(types(), "element type of the values");
	int o = c.choose(4, "requested element type");
	auto st = c.pick(types(), "element type of the shape");
	bool empty = c.flip("all zero");
	c.describe(mc::cat("from a dense tensor of type ", toString(vt), ", shape of type ", toString(st), o ? mc::cat(", requested ", toString(types()[o - 1])) : "", empty ? ", zero" : "", " ", str(n.s)));
	ArrT<std::complex<double>> v(sizes_of(n.s));
	for (size_t i = 0; i < v.v.size() && !empty; ++i)
		v.v[i] = {double(i % 5 + 1), isComplexType(vt) ? double(i % 3) : 0};
	auto dense = to_torch(v).to(isComplexType(vt) ? torch::kComplexDouble : torch::kDouble).to(vt);
	torch::TensorOptions opt;
	auto want_t = vt;
	if (o)
		opt = opt.dtype(types()[o - 1]), want_t = types()[o - 1];
	if (isComplexType(vt) && !isComplexType(want_t))
		c.skip(); // drops the imaginary part
	auto R = make_ref<std::complex<double>>(*n.k, n.s, {}, 1);
	for (auto &b : blocks_allowed(*n.k, n.s))
	{
		idx s, z;
		extent(n.s, b, s, z);
		each(z, [&](const idx &i) {
			idx e = s;
			for (size_t d = 0; d < e.size(); ++d)
				e[d] += i[d];
			R.a(e) = v(e);
		});
	}
	btensor shape(shape_list(*n.k, n.s), n.k->make(n.s.rule), st);
	for (int like = 0; like < 2; ++like)
	{
		auto t = like ? from_basic_tensor_like(shape, dense, 1e-16, opt) : from_basic_tensor(shape_list(*n.k, n.s), n.k->make(n.s.rule), dense, 1e-16, opt);
		compare(c, *n.k, t, n.s, R.a, "from dense");
		typed(c, t, want_t, like ? "from dense like" : "from dense");
		REQUIRE(t.to_dense().dtype() == torch::scalarTypeToTypeMeta(want_t), "element type of the dense form");
	}
}
MC_SUITE(refused_from_dense)
{
	auto menu = menu10(3, c.thorough);
	auto &n = c.pick(menu, "structure");
	auto sz = sizes_of(n.s);
	int how = c.choose(2 + 2 * sz.size(), "defect");
	if (how == 0)
		sz.push_back(1);
	else if (how == 1)
	{
		if (sz.empty())
			c.skip();
		sz.pop_back();
	}
	else
		sz[(how - 2) / 2] += how % 2 ? 1 : -1;
	for (auto s : sz)
		if (s < 0)
			c.skip();
	c.describe(mc::cat("from a dense tensor of sizes ", mc::vstr(sz), ": ", str(n.s)));
	btensor shape(shape_list(*n.k, n.s), n.k->make(n.s.rule));
	auto v = torch::ones(sz);
	REQUIRE(throws([&] { from_basic_tensor_like(shape, v); }), "accepted");
	REQUIRE(throws([&] { from_basic_tensor(shape_list(*n.k, n.s), n.k->make(n.s.rule), v); }), "accepted");
	c.step();
}
MC_SUITE(factories)
{
	auto menu = menu10(3, c.thorough);
	auto &n = c.pick(menu, "structure");
	int f = c.choose(9, "factory");
	int form = c.choose(2, "like");
	int o = c.choose(5, "element type"); // 0: default
	auto proto = c.pick(types(), "element type of the prototype");
	if (!form && proto != types()[0])
		c.skip();
	auto all = blocks_allowed(*n.k, n.s);
	auto present = choose_present(c, all, form ? (c.thorough ? 3 : 1) : 0);
	torch::TensorOptions opt;
	auto want_t = form ? proto : torch::kFloat;
	if (o)
		opt = opt.dtype(types()[o - 1]), want_t = types()[o - 1];
	static const char *names[] = {"sparse_zeros", "zeros", "ones", "full", "empty", "rand", "randn", "randint", "randint"};
	c.describe(mc::cat(names[f], f == 7 ? "(high)" : "", form ? mc::cat("_like ", toString(proto), present_str(present)) : "", ", type ", o ? toString(want_t) : "default", " ", str(n.s)));
	if (f == 3 && want_t == torch::kLong)
		c.skip(); // a fractional value
	auto P_ = make_ref(*n.k, n.s, present, 3);
	auto P = build(P_);
	auto Q = P.to(proto);
	auto l = shape_list(*n.k, n.s);
	auto q = n.k->make(n.s.rule);
	auto make = [&]() -> btensor {
		switch (f)
		{
		case 0: return form ? quantit::sparse_zeros_like(Q, opt) : quantit::sparse_zeros(l, q, opt);
		case 1: return form ? quantit::zeros_like(Q, opt) : quantit::zeros(l, q, opt);
		case 2: return form ? quantit::ones_like(Q, opt) : quantit::ones(l, q, opt);
		case 3: return form ? quantit::full_like(Q, 2.5, opt) : quantit::full(l, q, 2.5, opt);
		case 4: return form ? quantit::empty_like(Q, opt) : quantit::empty(l, q, opt);
		case 5: return form ? quantit::rand_like(Q, opt) : quantit::rand(l, q, opt);
		case 6: return form ? quantit::randn_like(Q, opt) : quantit::randn(l, q, opt);
		case 7: return form ? quantit::randint_like(3, Q, opt) : quantit::randint(3, l, q, opt);
		default: return form ? quantit::randint_like(-2, 5, Q, opt) : quantit::randint(-2, 5, l, q, opt);
		}
	};
	btensor t;
	try
	{
		t = make();
	}
	catch (std::exception &e)
	{
		if ((f == 5 || f == 6) && want_t == torch::kLong)
			return; // no uniform nor normal integers
		if (f >= 7 && want_t == torch::kComplexDouble)
			return;
		c.fail(std::string("threw: ") + e.what());
	}
	c.step();
	same_structure(c, *n.k, t, n.s, names[f]);
	valid(c, t, names[f]);
	typed(c, t, want_t, names[f]);
	REQUIRE(stored(t) == (f == 0 ? std::vector<idx>{} : all), ": stored blocks", present_str(stored(t)));
	for (auto &b : t.blocks())
	{
		auto a = from_torch<std::complex<double>>(std::get<1>(b));
		for (auto x : a.v)
			switch (f)
			{
			case 1: REQUIRE(x == 0.); break;
			case 2: REQUIRE(x == 1.); break;
			case 3: REQUIRE(x == 2.5); break;
			case 5: REQUIRE(x.real() >= 0 && x.real() < 1 && x.imag() >= 0 && x.imag() < 1); break;
			case 6: REQUIRE(std::isfinite(x.real()) && std::isfinite(x.imag())); break;
			case 7: REQUIRE(x.real() == 0 || x.real() == 1 || x.real() == 2); break;
			case 8: REQUIRE(x.imag() == 0 && x.real() == std::round(x.real()) && x.real() >= -2 && x.real() < 5); break;
			default: break;
			}
	}
	unchanged(c, P, P_, "prototype");
	// every block has its own storage
	double k = 1;
	for (auto &b : t)
		std::get<1>(b).fill_(k++);
	k = 1;
	for (auto &b : t)
	{
		for (auto &x : from_torch(std::get<1>(b)).v)
			REQUIRE(x == k, "blocks share their storage");
		++k;
	}
	unchanged(c, P, P_, "prototype shares the storage of the new tensor");
}
// the spellings of randint with the bounds after the structure
MC_SUITE(randint_spellings)
{
	auto menu = menu10(2, false);
	auto &n = c.pick(menu, "structure");
	int f = c.choose(4, "spelling");
	c.describe(mc::cat("randint spelling ", f, " ", str(n.s)));
	btensor P(shape_list(*n.k, n.s), n.k->make(n.s.rule));
	auto l = shape_list(*n.k, n.s);
	auto q = n.k->make(n.s.rule);
	auto t = f == 0 ? quantit::randint(l, q, -3, -1) : f == 1 ? quantit::randint(l, q, 2) : f == 2 ? quantit::randint_like(P, -3, -1) : quantit::randint_like(P, 2);
	same_structure(c, *n.k, t, n.s, "randint");
	valid(c, t, "randint");
	for (auto &b : t.blocks())
		for (auto x : from_torch(std::get<1>(b)).v)
			REQUIRE(f % 2 ? (x == 0 || x == 1) : (x == -3 || x == -2), "value ", x);
	c.step();
}
MC_SUITE(identity)
{
	std::vector<std::pair<const Kind *, Leg>> legs;
	for (auto &n : menu10(2, c.thorough))
		for (auto &l : n.s.legs)
			legs.push_back({n.k, l});
	auto &[k, a] = c.pick(legs, "first leg");
	int form = c.choose(3, "form");
	int o = c.choose(4, "element type");
	torch::TensorOptions opt;
	if (o)
		opt = opt.dtype(types()[o]);
	Shape s{{a, inv(*k, a)}, zero(*k)};
	if (form)
	{
		std::vector<Leg> m{inv(*k, a)};
		for (auto &x : legs)
			if (x.first == k)
				m.push_back(x.second), m.push_back(inv(*k, x.second));
		s.legs[1] = c.pick(m, "second leg");
	}
	if (form == 2)
	{
		auto r = rules_of(*k, s.legs);
		s.rule = c.pick(r, "rule");
	}
	c.describe(mc::cat(form == 0 ? "eye of a leg " : form == 1 ? "eye " : "eye_like ", str(s), o ? mc::cat(" ", toString(types()[o])) : ""));
	btensor proto(shape_list(*k, s), k->make(s.rule), torch::kDouble);
	auto t = form == 0 ? quantit::eye(shape_list(*k, {{a}, s.rule}), opt) : form == 1 ? quantit::eye(shape_list(*k, s), opt) : quantit::eye_like(proto, opt);
	Arr want(sizes_of(s));
	std::vector<idx> blocks;
	for (auto &b : blocks_allowed(*k, s))
		if (b[0] == b[1])
		{
			idx st, sz;
			extent(s, b, st, sz);
			blocks.push_back(b);
			for (int64_t i = 0; i < std::min(sz[0], sz[1]); ++i)
				want({st[0] + i, st[1] + i}) = 1;
		}
	compare(c, *k, t, s, want, "identity", 0);
	REQUIRE(stored(t) == blocks, "stored blocks");
	typed(c, t, o ? types()[o] : form == 2 ? torch::kDouble : torch::kFloat, "identity");
}
MC_SUITE(refused_identity)
{
	int what = c.choose(4, "what");
	c.describe(mc::cat("eye of a shape of rank ", what == 0 ? 0 : what == 1 ? 3 : what == 2 ? 1 : 3, what >= 2 ? " (like)" : ""));
	Leg a{{1, {0}}, {2, {1}}};
	std::vector<Leg> l(what == 0 ? 0 : what == 2 ? 1 : 3, a);
	btensor t(shape_list(kZ(), {l, {0}}), kZ().make({0}));
	c.step();
	if (what >= 2)
		REQUIRE(throws([&] { quantit::eye_like(t); }), "accepted");
	else
		REQUIRE(throws([&] { quantit::eye(shape_list(kZ(), {l, {0}})); }), "accepted");
}
MC_SUITE(selection_rule)
{
	std::vector<Named> menu;
	for (auto &n : structures(2, c.thorough))
		if (n.s.legs.size() == 2)
			menu.push_back(n);
	auto &n = c.pick(menu, "structure");
	auto sz = sizes_of(n.s);
	int cells = std::min<int64_t>(prod(sz), c.thorough ? 12 : 9);
	double cutoff = c.pick(std::vector<double>{-1, 0.6}, "cutoff");
	Arr a(sz);
	int m = c.choose(1 << cells, "non zero elements");
	bool small = cutoff > 0 && c.flip("small values");
	int cplx = c.choose(2, "complex");
	std::set<Val> rules;
	each(sz, [&](const idx &i) {
		int f = a.off(i);
		if (f >= cells || !(m >> f & 1))
			return;
		bool s = small && f % 2;
		a(i) = s ? 0.5 : f % 3 ? -1. : 0.7;
		if (s)
			return;
		Val q = zero(*n.k);
		for (int d = 0; d < 2; ++d)
		{
			int64_t e = i[d], j = 0;
			while (e >= n.s.legs[d][j].size)
				e -= n.s.legs[d][j++].size;
			q = qm::add(*n.k, q, n.s.legs[d][j].q);
		}
		rules.insert(q);
	});
	c.describe(mc::cat("selection rule of ", astr(a), " in ", str(n.s), ", cutoff ", cutoff, cplx ? " imaginary" : ""));
	btensor shape(shape_list(*n.k, n.s), n.k->make(n.s.rule));
	auto t = to_torch(a);
	if (cplx)
		t = t * c10::complex<double>(0, 1);
	c.step();
	any_quantity q = shape.selection_rule->neutral();
	bool threw = throws([&] { q = cutoff < 0 ? find_selection_rule(t, shape) : find_selection_rule(t, shape, cutoff); });
	REQUIRE(threw == (rules.size() > 1), rules.size(), " selection rules, threw ", threw);
	if (!threw)
		REQUIRE(q == n.k->make(rules.empty() ? zero(*n.k) : *rules.begin()), "wrong selection rule");
	REQUIRE(any_quantity_cref(shape.selection_rule) == n.k->make(n.s.rule), "shape modified");
	c.state(mc::mix(mc::hash_str(str(n.s)), m));
}
MC_SUITE(refused_selection_rule)
{
	std::vector<idx> sizes{{}, {3}, {3, 3, 1}, {3, 4}, {4, 3}, {2, 3}, {3, 2}, {3, 3}};
	auto sz = c.pick(sizes, "sizes");
	int rank = c.choose(4, "rank of the shape");
	Leg a{{1, {0}}, {2, {1}}};
	bool ok = sz == idx{3, 3} && rank == 2;
	btensor shape(shape_list(kZ(), {std::vector<Leg>(rank, a), {0}}), kZ().make({0}));
	auto t = torch::zeros(sz);
	if (c.flip("last element"))
		t.flatten().index_put_({-1}, 1); // a single element: well defined if the sizes match
	c.describe(mc::cat("selection rule of a tensor of sizes ", mc::vstr(sz), " in a shape of rank ", rank));
	c.step();
	REQUIRE(throws([&] { find_selection_rule(t, shape); }) == !ok, "not refused");
}
MC_SUITE(products_of_shapes)
{
	auto menu = menu10(2, c.thorough);
	auto &a = c.pick(menu, "first structure");
	auto &b = c.pick(menu, "second structure");
	if (a.k != b.k)
		c.skip();
	int third = c.choose(3, "form");
	auto ta = c.pick(types(), "first element type"), tb = c.pick(types(), "second element type");
	auto A_ = make_ref(*a.k, a.s, blocks_allowed(*a.k, a.s), 1), B_ = make_ref(*b.k, b.s, blocks_allowed(*b.k, b.s), 2);
	c.describe(mc::cat("shape of the product of ", str(a.s), " ", toString(ta), " and ", str(b.s), " ", toString(tb), ", form ", third));
	auto A0 = build(A_), B0 = build(B_);
	auto A = A0.to(ta), B = B0.to(tb);
	Shape s = a.s;
	auto times = [&](const Shape &o) {
		for (auto &l : o.legs)
			s.legs.push_back(l);
		s.rule = qm::add(*a.k, qm::norm(*a.k, s.rule), qm::norm(*a.k, o.rule));
	};
	times(b.s);
	btensor t;
	if (third == 0)
		t = A.tensor_product_shape(B);
	else if (third == 1)
		t = quantit::shape_from(A, B);
	else
	{
		times(a.s);
		t = quantit::shape_from(std::vector<btensor>{A, B, A});
	}
	same_structure(c, *a.k, t, s, "product");
	REQUIRE(t.begin() == t.end(), "has blocks");
	typed(c, t, torch::promote_types(ta, tb), "product");
	unchanged(c, A0, A_, "first");
	unchanged(c, B0, B_, "second");
	c.step();
}
MC_SUITE(shape_of_one)
{
	auto menu = menu10(3, c.thorough);
	auto &n = c.pick(menu, "structure");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), 2);
	c.describe(mc::cat("shape_from ", str(n.s), present_str(present)));
	auto R = make_ref(*n.k, n.s, present, 1);
	auto A = build(R);
	for (auto t : {quantit::shape_from(std::vector<btensor>{A}), disambiguated_shape_from({A}), quantit::sparse_zeros_like(A)})
	{
		same_structure(c, *n.k, t, n.s, "shape");
		REQUIRE(t.begin() == t.end(), "has blocks");
		typed(c, t, torch::kDouble, "shape");
	}
	unchanged(c, A, R, "operand");
	c.step();
}
// dense counterpart of the shapes
MC_SUITE(dense_shapes)
{
	std::vector<idx> sizes{{}, {2}, {1, 3}, {2, 3, 4}, {0, 2}, {3, 1, 2, 2}};
	auto a = c.pick(sizes, "sizes");
	idx keep, want;
	for (size_t d = 0; d < a.size(); ++d)
	{
		int64_t e = c.choose(a[d] ? 3 : 1, "element or whole") - 1;
		if (e == 1)
			e = a[d] - 1;
		keep.push_back(e);
		if (e < 0)
			want.push_back(a[d]);
	}
	auto b = c.pick(sizes, "second sizes");
	auto ty = c.pick(types(), "element type");
	c.describe(mc::cat("dense shape ", mc::vstr(a), " sliced ", mc::vstr(keep), " times ", mc::vstr(b)));
	auto A = torch::zeros(a, ty), B = torch::zeros(b);
	// allocated exactly: writing past the end is seen by the address sanitizer of the allocator or as corruption
	torch_shape sa(A);
	auto s = quantit::shape_from(sa, keep);
	REQUIRE(s._sizes == want, "sliced sizes ", mc::vstr(s._sizes));
	REQUIRE(s.opt.dtype() == A.dtype(), "element type");
	auto p = quantit::shape_from(A, B);
	idx ab = a;
	ab.insert(ab.end(), b.begin(), b.end());
	REQUIRE(p._sizes == ab, "sizes of the product ", mc::vstr(p._sizes));
	REQUIRE(p.opt.dtype() == A.dtype(), "element type of the product");
	REQUIRE(quantit::zeros_like(p).sizes() == torch::IntArrayRef(ab) && quantit::zeros_like(p).dtype() == A.dtype(), "zeros_like");
	REQUIRE(quantit::full_like(s, 3).equal(torch::full(want, 3, ty)), "full_like");
	REQUIRE(quantit::ones_like(s).equal(torch::ones(want, ty)), "ones_like");
	if (want.size() == 2)
		REQUIRE(quantit::eye_like(s).equal(torch::eye(want[0], want[1], ty)), "eye_like");
	else
		REQUIRE(throws([&] { quantit::eye_like(s); }), "eye_like accepted");
	c.step();
}
MC_SUITE(dense_shapes_refused)
{
	std::vector<idx> sizes{{}, {2}, {2, 3}};
	auto a = c.pick(sizes, "sizes");
	int how = c.choose(2 + 2 * a.size(), "defect");
	idx k(a.size(), -1);
	if (how == 0)
		k.push_back(-1);
	else if (how == 1)
	{
		if (a.empty())
			c.skip();
		k.pop_back();
	}
	else
		k[(how - 2) / 2] = how % 2 ? a[(how - 2) / 2] : -2;
	c.describe(mc::cat("dense shape ", mc::vstr(a), " sliced ", mc::vstr(k)));
	c.step();
	REQUIRE(throws([&] { quantit::shape_from(torch_shape(torch::zeros(a)), k); }), "accepted");
}
MC_SUITE(element_types)
{
	auto menu = menu10(3, c.thorough);
	auto &n = c.pick(menu, "structure");
	auto from = c.pick(types(), "from"), to = c.pick(types(), "to");
	int form = c.choose(6, "form");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), 2);
	c.describe(mc::cat("conversion ", toString(from), " to ", toString(to), " form ", form, " ", str(n.s), present_str(present)));
	auto R = make_ref(*n.k, n.s, present, 1);
	for (auto &x : R.a.v)
		x = std::round(x);
	auto A0 = build(R);
	auto A = A0.to(from);
	typed(c, A, from, "first conversion");
	btensor other(shape_list(*n.k, n.s), n.k->make(n.s.rule), to);
	auto B = form == 0   ? A.to(to)
	         : form == 1 ? A.to(torch::TensorOptions().dtype(to))
	         : form == 2 ? A.to(other)
	         : form == 3 ? A.to(torch::kCPU, to)
	         : form == 4 ? A.to(torch::zeros({1}, to))
	                     : A.to(torch::TensorOptions());
	compare(c, *n.k, B, n.s, R.a, "converted", 0);
	typed(c, B, form == 5 ? from : to, "converted");
	REQUIRE(stored(B) == stored(A0), "stored blocks");
	typed(c, A, from, "operand");
	unchanged(c, A0, R, "operand");
	auto C = A.to(to, false, true);
	for (auto &b : C)
		std::get<1>(b).fill_(77);
	compare(c, *n.k, A, n.s, R.a, "a conversion with copy shares its storage", 0);
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
