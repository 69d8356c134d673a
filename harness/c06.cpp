// C06: contraction of block tensors against the model's dense contraction
#include "bt.h"
using namespace bm;
namespace
{
using D = double;
Leg lg(std::initializer_list<std::pair<int64_t, Val>> l)
{
	Leg o;
	for (auto &x : l)
		o.push_back({x.first, x.second});
	return o;
}
struct Menu
{
	const Kind *k;
	std::vector<std::vector<Leg>> left; // legs of the left operand
	std::vector<Leg> free;              // free legs of the right operand
};
const std::vector<Menu> &menus()
{
	static const std::vector<Menu> m = [] {
		std::vector<Menu> o;
		{
			Leg X = lg({{1, {0}}, {2, {1}}}), Y = lg({{2, {-1}}, {1, {1}}, {1, {0}}}), W = lg({{2, {1}}, {1, {1}}}), t = lg({{1, {2}}}), n = lg({{1, {0}}});
			o.push_back({&kZ(), {{}, {X}, {W}, {X, Y}, {W, X}, {X, Y, X}, {t, X, W}, {n, n}}, {Y, t, X}});
		}
		{
			Leg X = lg({{1, {2}}, {2, {0}}}), Y = lg({{2, {1}}, {1, {1}}, {1, {2}}}), t = lg({{1, {1}}});
			o.push_back({&kC3(), {{Y}, {Y, X}, {X, X, Y}}, {X, t, Y}});
		}
		{
			Leg X = lg({{1, {1, 1}}, {2, {0, 1}}}), Y = lg({{2, {-1, 0}}, {1, {0, 0}}});
			o.push_back({&kZC2(), {{Y, X}}, {X, Y}});
		}
		return o;
	}();
	return m;
}
Shape contracted_shape(const Kind &k, const Shape &a, const Shape &b, const idx &da, const idx &db)
{
	Shape o;
	for (size_t d = 0; d < a.legs.size(); ++d)
		if (std::find(da.begin(), da.end(), d) == da.end())
			o.legs.push_back(a.legs[d]);
	for (size_t d = 0; d < b.legs.size(); ++d)
		if (std::find(db.begin(), db.end(), d) == db.end())
			o.legs.push_back(b.legs[d]);
	o.rule = add(k, norm(k, a.rule), norm(k, b.rule));
	return o;
}
} // namespace

MC_SUITE(contraction)
{
	auto &m = c.pick(menus(), "kind");
	auto &k = *m.k;
	auto &la = c.pick(m.left, "legs of A");
	int rb = c.choose(4, "rank of B");
	int nc = c.choose(std::min<int>(la.size(), rb) + 1, "contracted dimensions");
	auto aa = arrangements(la.size(), nc), ab = arrangements(rb, nc);
	auto &da = c.pick(aa, "dims of A");
	c.shard();
	auto &db = c.pick(ab, "dims of B");
	std::vector<Leg> lb(rb);
	bool first = true;
	for (int d = 0, f = 0; d < rb; ++d)
	{
		auto it = std::find(db.begin(), db.end(), d);
		if (it != db.end())
			lb[d] = inv(k, la[da[it - db.begin()]]);
		else if (first && (c.thorough || rb < 3))
			lb[d] = c.pick(m.free, "free leg"), first = false;
		else
			lb[d] = m.free[f++ % m.free.size()];
	}
	auto ra = rules_of(k, la), rbr = rules_of(k, lb);
	// the rules allowing most blocks, and a rule allowing none
	auto pick_rule = [&](std::vector<Val> &r, const char *w) {
		size_t n = std::min<size_t>(r.size(), c.thorough ? 3 : 2);
		r.resize(n);
		return c.pick(r, w);
	};
	Shape sa{la, pick_rule(ra, "rule of A")}, sb{lb, pick_rule(rbr, "rule of B")};
	int big = la.size() + rb >= 5;
	auto pa = choose_present(c, blocks_allowed(k, sa), c.thorough ? 5 - big : 4 - big, "blocks of A"), pb = choose_present(c, blocks_allowed(k, sb), c.thorough ? 4 : 3 - big, "blocks of B");
	c.describe(mc::cat("A", str(sa), present_str(pa), ", B", str(sb), present_str(pb), ", contracted dims ", mc::vstr(da), " ", mc::vstr(db)));
	auto A_ = make_ref(k, sa, pa, 1), B_ = make_ref(k, sb, pb, 2);
	auto A = build(A_), B = build(B_);
	auto so = contracted_shape(k, sa, sb, da, db);
	auto want = tensordot(A_.a, B_.a, da, db);
	auto C = A.tensordot(B, da, db);
	compare(c, k, C, so, want, "tensordot");
	unchanged(c, A, A_, "left operand");
	unchanged(c, B, B_, "right operand");
	auto na = da, nb = db;
	if (c.thorough || pb.size() <= 1) // same dimensions, counted from the last
	{
		for (auto &d : na)
			d -= la.size();
		for (auto &d : nb)
			d -= rb;
	}
	auto C2 = quantit::tensordot(A, B, na, nb);
	compare(c, k, C2, so, want, "free tensordot");
	auto dense = from_torch(C.to_dense());
	REQUIRE(close(dense, want), "to_dense gives ", astr(dense));
	if (nc == 0)
	{
		auto s = A.tensor_product_shape(B);
		same_structure(c, k, s, so, "tensor_product_shape");
		REQUIRE(s.begin() == s.end(), "tensor_product_shape has blocks");
	}
	if (so.legs.empty())
	{
		c.step();
		REQUIRE(std::abs(C.item().toDouble() - want.v[0]) < 1e-10, "item() of the scalar result");
	}
}

// operands with strided blocks, complex elements, and different element types
MC_SUITE(types)
{
	using CD = std::complex<double>;
	static const std::vector<torch::ScalarType> types{torch::kDouble, torch::kFloat, torch::kComplexDouble};
	auto &m = menus()[c.choose(2, "kind")];
	auto &k = *m.k;
	auto &la = c.pick(m.left, "legs of A");
	if (la.size() < 1)
		c.skip();
	auto sel = [&](const char *w) { return c.pick(types, w); };
	auto ta = sel("type of A"), tb = sel("type of B");
	c.shard();
	std::vector<Leg> lb{inv(k, la.back()), m.free[0]};
	bool flip = c.flip("order of B");
	if (flip)
		std::swap(lb[0], lb[1]);
	bool stra = c.flip("strided A"), strb = c.flip("strided B");
	Shape sa{la, rules_of(k, la)[0]}, sb{lb, rules_of(k, lb)[0]};
	auto pa = choose_present(c, blocks_allowed(k, sa), 2, "blocks of A"), pb = choose_present(c, blocks_allowed(k, sb), 2, "blocks of B");
	auto A_ = make_ref<CD>(k, sa, pa, 1), B_ = make_ref<CD>(k, sb, pb, 2);
	auto real = [](RefT<CD> &r, torch::ScalarType t) {
		if (t != torch::kComplexDouble)
			for (auto &x : r.a.v)
				x = x.real();
	};
	real(A_, ta), real(B_, tb);
	idx da{(int64_t)la.size() - 1}, db{flip ? 1 : 0};
	c.describe(mc::cat("A", str(sa), present_str(pa), " ", c10::toString(ta), stra ? " strided" : "", ", B", str(sb), present_str(pb), " ", c10::toString(tb), strb ? " strided" : "", ", contracted dims ", mc::vstr(da), " ", mc::vstr(db)));
	auto mk = [&](const RefT<CD> &r, torch::ScalarType t, bool strided) {
		btensor o(shape_list(k, r.s), k.make(r.s.rule), torch::TensorOptions().dtype(t));
		for (auto &b : r.present)
		{
			auto x = block_of(r, b);
			x = t == torch::kComplexDouble ? x : torch::real(x).to(t);
			if (strided) // every other element of a bigger tensor, dimensions in the opposite order
			{
				std::vector<int64_t> p(x.dim());
				for (int64_t i = 0; i < x.dim(); ++i)
					p[i] = x.dim() - 1 - i;
				auto big = torch::stack({x.permute(p), x.permute(p)}, -1).contiguous();
				x = big.select(-1, 0).permute(p);
			}
			o.block(b) = x;
		}
		return o;
	};
	auto A = mk(A_, ta, stra), B = mk(B_, tb, strb);
	auto promoted = at::promote_types(ta, tb);
	btensor C;
	try
	{
		C = quantit::tensordot(A, B, da, db);
	}
	catch (std::exception &e)
	{
		// contraction of different element types may be refused, as torch does
		REQUIRE(ta != tb, "refused: ", e.what());
		return;
	}
	REQUIRE(C.options().dtype() == promoted, "element type of the result");
	same_dtype(c, C, "result");
	compare<CD>(c, k, C, contracted_shape(k, sa, sb, da, db), tensordot(A_.a, B_.a, da, db), "tensordot");
	same_content<CD>(c, A, A_.a, "left operand");
	same_content<CD>(c, B, B_.a, "right operand");
}

// chains: the contraction of contractions does not depend on the order
MC_SUITE(associativity)
{
	auto &m = c.pick(menus(), "kind");
	auto &k = *m.k;
	auto &la = c.pick(m.left, "legs of A");
	if (la.empty())
		c.skip();
	c.shard();
	std::vector<Leg> lb{inv(k, la.back()), m.free[0]}, lc{inv(k, m.free[0]), m.free[1]};
	auto ra = rules_of(k, la), rb = rules_of(k, lb), rc = rules_of(k, lc);
	Shape sa{la, c.pick(ra, "rule of A")}, sb{lb, c.pick(rb, "rule of B")}, sc{lc, c.pick(rc, "rule of C")};
	auto A_ = make_ref(k, sa, choose_present(c, blocks_allowed(k, sa), 2, "blocks of A"), 1), B_ = make_ref(k, sb, choose_present(c, blocks_allowed(k, sb), 2, "blocks of B"), 2), C_ = make_ref(k, sc, choose_present(c, blocks_allowed(k, sc), 1, "blocks of C"), 3);
	c.describe(mc::cat("A", str(sa), present_str(A_.present), ", B", str(sb), present_str(B_.present), ", C", str(sc), present_str(C_.present), " chained"));
	auto A = build(A_), B = build(B_), C = build(C_);
	idx last{(int64_t)la.size() - 1}, z{0}, one{1};
	auto l = quantit::tensordot(quantit::tensordot(A, B, last, z), C, last, z);
	auto r = quantit::tensordot(A, quantit::tensordot(B, C, one, z), last, z);
	auto so = contracted_shape(k, contracted_shape(k, sa, sb, last, z), sc, last, z);
	auto want = tensordot(tensordot(A_.a, B_.a, last, z), C_.a, last, z);
	compare(c, k, l, so, want, "(AB)C");
	compare(c, k, r, so, want, "A(BC)");
}

MC_SUITE(refused_contractions)
{
	auto &k = kZ();
	Leg X = lg({{1, {0}}, {2, {1}}}), iX = inv(k, X);
	struct Bad
	{
		const char *why;
		Leg l;
	};
	static const std::vector<Bad> bad{{"not inverse quantities", lg({{1, {0}}, {2, {1}}})}, {"one quantity differs", lg({{1, {0}}, {2, {-2}}})}, {"first quantity differs", lg({{1, {1}}, {2, {-1}}})}, {"fewer sections", lg({{1, {0}}})}, {"more sections", lg({{1, {0}}, {2, {-1}}, {1, {0}}})}, {"other section size", lg({{1, {0}}, {3, {-1}}})}, {"other sizes, same total", lg({{2, {0}}, {1, {-1}}})}, {"size one", lg({{1, {0}}, {1, {-1}}})}, {"good", lg({{1, {0}}, {2, {-1}}})}};
	auto &w = c.pick(bad, "mismatch");
	bool good = std::string(w.why) == "good";
	int pos = c.choose(2, "position of the mismatch");
	// number of contracted dimensions, dimension lists
	struct Lists
	{
		idx a, b;
		bool valid;
	};
	static const std::vector<Lists> lists{{{1, 2}, {0, 1}, true}, {{2, 1}, {1, 0}, true}, {{1}, {0}, true}, {{2}, {1}, true}, {{1, 2}, {0}, false}, {{1}, {0, 1}, false}, {{}, {0}, false}, {{1, 1}, {0, 1}, false}, {{1, 2}, {0, 0}, false}, {{1, 3}, {0, 1}, false}, {{1, 2}, {0, 3}, false}, {{1, -4}, {0, 1}, false}, {{1, -2}, {0, 1}, false}};
	auto &li = c.pick(lists, "dimension lists");
	bool in = std::find(li.b.begin(), li.b.end(), pos) != li.b.end();
	if ((good || !in) && li.valid)
		c.skip();
	c.shard();
	std::vector<Leg> la{lg({{1, {0}}, {1, {1}}}), X, X}, lb{iX, iX, lg({{1, {0}}, {1, {-1}}})};
	lb[pos] = w.l;
	auto ra = rules_of(k, la), rb = rules_of(k, lb);
	Shape sa{la, ra[0]}, sb{lb, rb[0]};
	auto pa = choose_present(c, blocks_allowed(k, sa), 2, "blocks of A"), pb = choose_present(c, blocks_allowed(k, sb), 2, "blocks of B");
	if (c.flip("no blocks at all"))
		pa.clear(), pb.clear();
	c.describe(mc::cat("A", str(sa), present_str(pa), ", B", str(sb), present_str(pb), ", refused contraction of dims ", mc::vstr(li.a), " ", mc::vstr(li.b), ", ", w.why));
	auto A_ = make_ref(k, sa, pa, 1), B_ = make_ref(k, sb, pb, 2);
	auto A = build(A_), B = build(B_);
	c.step();
	REQUIRE(throws([&] { A.tensordot(B, li.a, li.b); }), "accepted");
	unchanged(c, A, A_, "left operand");
	unchanged(c, B, B_, "right operand");
}
MC_SUITE(refused_kinds)
{
	std::vector<const Kind *> ks{&kZ(), &kC2(), &kC3(), &kZC2()};
	auto &ka = *c.pick(ks, "kind of A");
	auto &kb = *c.pick(ks, "kind of B");
	if (&ka == &kb)
		c.skip();
	int nc = c.choose(2, "contracted dimensions");
	c.shard();
	auto z = [](const Kind &k) { return Leg{{1, zero(k)}, {2, zero(k)}}; };
	Shape sa{{z(ka), z(ka)}, zero(ka)}, sb{{z(kb), z(kb)}, zero(kb)};
	auto pa = choose_present(c, blocks_allowed(ka, sa), 1, "blocks of A"), pb = choose_present(c, blocks_allowed(kb, sb), 1, "blocks of B");
	c.describe(mc::cat("A ", ka.name, str(sa), present_str(pa), ", B ", kb.name, str(sb), present_str(pb), ", refused contraction of ", nc, " dims"));
	auto A_ = make_ref(ka, sa, pa, 1), B_ = make_ref(kb, sb, pb, 2);
	auto A = build(A_), B = build(B_);
	c.step();
	idx da, db;
	if (nc)
		da = {1}, db = {0};
	REQUIRE(throws([&] { A.tensordot(B, da, db); }), "accepted");
	REQUIRE(throws([&] { A.bmm(B); }), "bmm accepted");
	unchanged(c, A, A_, "left operand");
	unchanged(c, B, B_, "right operand");
}

namespace
{
Arr dense_bmm(const Arr &a, const Arr &b)
{
	idx s = a.shape;
	int r = s.size();
	s[r - 1] = b.shape[r - 1];
	Arr o(s);
	size_t n = 0;
	each(s, [&](const idx &i) {
		idx ia = i, ib = i;
		D x = 0;
		for (int64_t j = 0; j < a.shape[r - 1]; ++j)
			ia[r - 1] = j, ib[r - 2] = j, x += a(ia) * b(ib);
		o.v[n++] = x;
	});
	return o;
}
} // namespace
MC_SUITE(batched)
{
	auto &k = *c.pick(std::vector<const Kind *>{&kZ(), &kC3()}, "kind");
	bool z = &k == &kZ();
	std::vector<Leg> row{lg({{1, {0}}, {2, {1}}}), lg({{1, {2}}}), lg({{2, {1}}, {1, {1}}, {1, {0}}})};
	std::vector<std::vector<Leg>> batch{{}, {lg({{2, {0}}, {1, {1}}})}, {lg({{2, {1}}})}, {lg({{1, {0}}, {1, {0}}})}, {lg({{1, {0}}, {2, {1}}}), lg({{2, {1}}})}, {lg({{1, {1}}, {1, {0}}}), lg({{2, {0}}, {1, {1}}})}};
	if (!z)
		batch.resize(3);
	auto &bt = c.pick(batch, "batch dimensions");
	auto &M = c.pick(row, "row leg");
	auto &K = c.pick(row, "contracted leg");
	auto &N = c.pick(row, "column leg");
	c.shard();
	// batch dimensions have the same sections, but may have different quantities
	auto la = bt, lb = bt;
	if (!bt.empty() && c.flip("other quantities in the batch"))
		for (auto &l : lb)
			l = shifted(k, inv(k, l), {1});
	la.push_back(M), la.push_back(K), lb.push_back(inv(k, K)), lb.push_back(N);
	auto ra = rules_of(k, la), rb = rules_of(k, lb);
	ra.resize(std::min<size_t>(ra.size(), 2)), rb.resize(std::min<size_t>(rb.size(), 2));
	Shape sa{la, c.pick(ra, "rule of A")}, sb{lb, c.pick(rb, "rule of B")};
	auto pa = choose_present(c, blocks_allowed(k, sa), c.thorough ? 5 : 3, "blocks of A"), pb = choose_present(c, blocks_allowed(k, sb), c.thorough ? 5 : 3, "blocks of B");
	c.describe(mc::cat("A", str(sa), present_str(pa), ", B", str(sb), present_str(pb), ", bmm"));
	auto A_ = make_ref(k, sa, pa, 1), B_ = make_ref(k, sb, pb, 2);
	auto A = build(A_), B = build(B_);
	Shape so = sa;
	for (size_t d = 0; d < bt.size(); ++d)
		for (size_t i = 0; i < bt[d].size(); ++i)
			so.legs[d][i].q = add(k, la[d][i].q, lb[d][i].q);
	so.legs.back() = N;
	so.rule = add(k, norm(k, sa.rule), norm(k, sb.rule));
	auto C = A.bmm(B);
	compare(c, k, C, so, dense_bmm(A_.a, B_.a), "bmm");
	same_dtype(c, C, "bmm");
	unchanged(c, A, A_, "left operand");
	unchanged(c, B, B_, "right operand");
}
MC_SUITE(refused_batched)
{
	auto &k = kZ();
	Leg b = lg({{1, {0}}, {2, {1}}}), M = lg({{1, {0}}, {1, {1}}}), K = lg({{2, {0}}, {1, {1}}}), N = lg({{1, {-1}}, {1, {0}}});
	struct Case
	{
		const char *why;
		std::vector<Leg> a, b;
	};
	auto iK = inv(k, K);
	std::vector<Case> cases{
	    {"rank 0", {}, {}},
	    {"rank 1", {K}, {iK}},
	    {"other rank", {b, M, K}, {iK, N}},
	    {"other rank", {M, K}, {b, iK, N}},
	    {"not inverse", {b, M, K}, {b, K, N}},
	    {"not inverse, rank 2", {M, K}, {K, N}},
	    {"contracted size", {b, M, K}, {b, lg({{2, {0}}, {2, {-1}}}), N}},
	    {"contracted size, rank 2", {M, K}, {lg({{1, {0}}, {1, {-1}}}), N}},
	    {"contracted section number", {b, M, K}, {b, lg({{2, {0}}}), N}},
	    {"contracted section number, rank 2", {M, K}, {lg({{2, {0}}, {1, {-1}}, {1, {0}}}), N}},
	    {"batch size", {b, M, K}, {lg({{1, {0}}, {1, {1}}}), iK, N}},
	    {"first batch size", {b, b, M, K}, {lg({{2, {0}}, {2, {1}}}), b, iK, N}},
	    {"second batch size", {b, b, M, K}, {b, lg({{2, {0}}, {2, {1}}}), iK, N}},
	    {"batch section number", {b, M, K}, {lg({{1, {0}}}), iK, N}},
	    {"batch section number", {lg({{1, {0}}}), M, K}, {b, iK, N}},
	    {"second batch section number", {b, lg({{3, {0}}}), M, K}, {b, b, iK, N}},
	};
	auto &w = c.pick(cases, "mismatch");
	c.shard();
	Shape sa{w.a, rules_of(k, w.a)[0]}, sb{w.b, rules_of(k, w.b)[0]};
	auto pa = choose_present(c, blocks_allowed(k, sa), 2, "blocks of A"), pb = choose_present(c, blocks_allowed(k, sb), 2, "blocks of B");
	if (c.flip("no blocks at all"))
		pa.clear(), pb.clear();
	c.describe(mc::cat("A", str(sa), present_str(pa), ", B", str(sb), present_str(pb), ", refused bmm: ", w.why));
	auto A_ = make_ref(k, sa, pa, 1), B_ = make_ref(k, sb, pb, 2);
	auto A = build(A_), B = build(B_);
	c.step();
	REQUIRE(throws([&] { A.bmm(B); }), "accepted");
	unchanged(c, A, A_, "left operand");
	unchanged(c, B, B_, "right operand");
}
// sections sharing their quantity: every block is allowed, several of them meet in each block of the result; every set of
// blocks of each operand
namespace
{
void all_blocks_body(mc::Ctx &c, bool big)
{
	auto &k = kZ();
	Leg two = lg({{1, {1}}, {2, {1}}}), three = lg({{2, {0}}, {1, {0}}, {1, {0}}}), other = lg({{2, {-1}}, {1, {-1}}});
	struct Case
	{
		std::vector<Leg> a, k, b; // free legs of A, contracted legs, free legs of B
	};
	static const std::vector<Case> small{{{two}, {three}, {other}}, {{three}, {two}, {}}, {{}, {two, other}, {two}}, {{two}, {other, two}, {}}, {{}, {two, other, two}, {}}};
	static const std::vector<Case> large{{{three}, {three}, {two}}, {{two}, {two, other}, {other}}, {{two, other}, {two}, {three}}};
	auto &w = c.pick(big ? large : small, "legs");
	int nk = w.k.size();
	auto order = arrangements(nk, nk);
	auto &o = c.pick(order, "order of the contracted dimensions");
	bool fa = c.flip("contracted dimensions of A first"), fb = c.flip("contracted dimensions of B first");
	c.shard();
	std::vector<Leg> la, lb;
	idx da(nk), db(nk);
	auto side = [&](std::vector<Leg> &l, const std::vector<Leg> &free, bool first, auto &&contracted) {
		if (!first)
			l = free;
		contracted();
		if (first)
			l.insert(l.end(), free.begin(), free.end());
	};
	side(la, w.a, fa, [&] {
		for (int i = 0; i < nk; ++i)
			da[i] = la.size(), la.push_back(w.k[i]);
	});
	side(lb, w.b, fb, [&] {
		for (int i = 0; i < nk; ++i)
			db[o[i]] = lb.size(), lb.push_back(inv(k, w.k[o[i]]));
	});
	Shape sa{la, rules_of(k, la)[0]}, sb{lb, rules_of(k, lb)[0]};
	auto pa = choose_present(c, blocks_allowed(k, sa), big ? 9 : 8, "blocks of A"), pb = choose_present(c, blocks_allowed(k, sb), 8, "blocks of B");
	c.describe(mc::cat("A", str(sa), present_str(pa), ", B", str(sb), present_str(pb), ", contracted dims ", mc::vstr(da), " ", mc::vstr(db)));
	auto A_ = make_ref(k, sa, pa, 1), B_ = make_ref(k, sb, pb, 2);
	auto A = build(A_), B = build(B_);
	compare(c, k, quantit::tensordot(A, B, da, db), contracted_shape(k, sa, sb, da, db), tensordot(A_.a, B_.a, da, db), "tensordot");
}
void all_blocks_batched_body(mc::Ctx &c, bool big)
{
	auto &k = kZ();
	Leg two = lg({{1, {1}}, {2, {1}}}), three = lg({{2, {0}}, {1, {0}}, {1, {0}}}), other = lg({{2, {-1}}, {1, {-1}}});
	struct Case
	{
		std::vector<Leg> batch;
		Leg m, k, n;
	};
	static const std::vector<Case> small{{{}, two, three, other}, {{}, three, two, other}, {{}, other, two, three}, {{other}, two, other, two}};
	static const std::vector<Case> large{{{}, three, three, two}, {{}, two, three, three}, {{two}, other, two, other}, {{two, other}, lg({{2, {0}}}), other, two}, {{two, other}, other, two, lg({{2, {0}}})}};
	auto &w = c.pick(big ? large : small, "legs");
	c.shard();
	auto la = w.batch, lb = w.batch;
	la.push_back(w.m), la.push_back(w.k), lb.push_back(inv(k, w.k)), lb.push_back(w.n);
	Shape sa{la, rules_of(k, la)[0]}, sb{lb, rules_of(k, lb)[0]};
	auto pa = choose_present(c, blocks_allowed(k, sa), big ? 9 : 8, "blocks of A"), pb = choose_present(c, blocks_allowed(k, sb), big ? 9 : 8, "blocks of B");
	c.describe(mc::cat("A", str(sa), present_str(pa), ", B", str(sb), present_str(pb), ", bmm"));
	auto A_ = make_ref(k, sa, pa, 1), B_ = make_ref(k, sb, pb, 2);
	Shape so{w.batch, add(k, norm(k, sa.rule), norm(k, sb.rule))};
	for (auto &l : so.legs)
		for (auto &x : l)
			x.q = add(k, x.q, x.q);
	so.legs.push_back(w.m), so.legs.push_back(w.n);
	compare(c, k, build(A_).bmm(build(B_)), so, dense_bmm(A_.a, B_.a), "bmm");
}
} // namespace
MC_SUITE(all_blocks) { all_blocks_body(c, false); }
MC_SUITE(all_blocks_batched) { all_blocks_batched_body(c, false); }
MC_THOROUGH_SUITE(all_blocks_large) { all_blocks_body(c, true); }
MC_THOROUGH_SUITE(all_blocks_batched_large) { all_blocks_batched_body(c, true); }

int main(int argc, char **argv) { return mc::main_(argc, argv); }
