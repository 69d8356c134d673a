// operations of the block tensors with their counterpart on the model, for the programs of C04 and C09
#pragma once
#include "bt.h"
namespace bm
{
// the tensor after an operation, and what it must be
struct Step
{
	btensor t;
	Ref r;
	std::string name;
	bool view = false;    // documented (or as in torch) to share the storage of the operand
	bool inplace = false; // modified the tensor it was called on
};
inline std::vector<idx> stored_blocks(const btensor &t)
{
	std::vector<idx> p;
	for (auto &b : t.blocks())
		p.push_back(std::get<0>(b));
	return p;
}
inline Ref map_stored(const Ref &r, const std::function<double(double)> &f)
{
	Ref o = r;
	for (auto &b : r.present)
	{
		idx st, sz;
		extent(r.s, b, st, sz);
		each(sz, [&](const idx &i) {
			idx e = st;
			for (size_t d = 0; d < e.size(); ++d)
				e[d] += i[d];
			o.a(e) = f(r.a(e));
		});
	}
	return o;
}
inline Ref conjugate(Ref r)
{
	for (auto &l : r.s.legs)
		l = inv(*r.k, l);
	r.s.rule = qm::inv(*r.k, r.s.rule);
	return r;
}
inline Ref contract(const Ref &a, const Ref &b, const idx &da, const idx &db)
{
	Ref o{a.k, {}, {}, tensordot(a.a, b.a, da, db)};
	for (size_t d = 0; d < a.s.legs.size(); ++d)
		if (std::find(da.begin(), da.end(), d) == da.end())
			o.s.legs.push_back(a.s.legs[d]);
	for (size_t d = 0; d < b.s.legs.size(); ++d)
		if (std::find(db.begin(), db.end(), d) == db.end())
			o.s.legs.push_back(b.s.legs[d]);
	o.s.rule = qm::add(*a.k, qm::norm(*a.k, a.s.rule), qm::norm(*a.k, b.s.rule));
	return o;
}
// a second operand of the same structure, with the blocks at even (odd) places only
inline Ref companion(const Ref &r, int which, uint64_t seed)
{
	auto all = blocks_allowed(*r.k, r.s);
	std::vector<idx> p;
	for (size_t i = 0; i < all.size(); ++i)
		if (which == 2 || int(i % 2) == which)
			p.push_back(all[i]);
	return make_ref(*r.k, r.s, p, seed);
}
inline Shape squeezed_shape(const Kind &k, const Shape &s, int64_t only = -1)
{
	Shape o{{}, qm::norm(k, s.rule)};
	for (size_t d = 0; d < s.legs.size(); ++d)
	{
		bool gone = size_of(s.legs[d]) == 1 && s.legs[d].size() == 1 && (only < 0 || only == (int64_t)d);
		if (gone)
			o.rule = qm::add(k, o.rule, qm::inv(k, s.legs[d][0].q));
		else
			o.legs.push_back(s.legs[d]);
	}
	return o;
}
// one operation chosen among all those that apply to t (a copy of it: the caller's tensor keeps its structure)
inline Step choose_op(mc::Ctx &c, const btensor &t, const Ref &r)
{
	auto &k = *r.k;
	int64_t n = r.s.legs.size();
	Step o{t, r, "", false, false};
	enum
	{
		PERMUTE,
		PERMUTE_,
		RESHAPE,
		RESHAPE_BACK,
		SQUEEZE,
		SLICE,
		SLICE_KEEP,
		CONJ,
		INVERSE_,
		SHIFT,
		SCALE,
		SCALE_,
		DIVIDE,
		ABS,
		SQUARE,
		ADD,
		ADD_,
		ADD_TEMP_,
		SUB,
		MUL,
		MUL_,
		SELF_ADD_,
		SELF_MUL,
		DOT_FREE,
		DOT_CONJ,
		DENSE,
		PUT_VIEW,
		RSUB,
		N_OPS
	};
	int op = c.choose(N_OPS, "operation");
	auto stored_of = [&](const btensor &x) { return stored_blocks(x); };
	auto product = [&](const Ref &b) { // elementwise, same structure up to the quantities
		o.r.a = broadcast(r.a, b.a, [](double x, double y) { return x * y; });
		for (int64_t d = 0; d < n; ++d)
			for (size_t i = 0; i < r.s.legs[d].size(); ++i)
				o.r.s.legs[d][i].q = qm::add(k, qm::norm(k, r.s.legs[d][i].q), qm::norm(k, b.s.legs[d][i].q));
		o.r.s.rule = qm::add(k, qm::norm(k, r.s.rule), qm::norm(k, b.s.rule));
	};
	switch (op)
	{
	case PERMUTE:
	case PERMUTE_:
	{
		if (n < 2)
			c.skip();
		auto ps = arrangements(n, n);
		auto p = ps[c.choose(std::min<int>(ps.size(), 6) - 1, "permutation") + 1];
		o.r = permuted(r, p);
		o.name = mc::cat(op == PERMUTE ? "permute" : "permute_", mc::vstr(p));
		if (op == PERMUTE)
			o.t = t.permute(p), o.view = true;
		else
			o.t.permute_(p), o.inplace = true;
		break;
	}
	case RESHAPE:
	case RESHAPE_BACK:
	{
		if (n < 2)
			c.skip();
		int64_t m = c.choose(std::min<int64_t>(1 << (n - 1), 4) - (op == RESHAPE_BACK ? 1 : 0), "grouping");
		idx cuts{0}, arg;
		for (int64_t d = 1; d < n; ++d)
			if (m >> (d - 1) & 1)
				cuts.push_back(d), arg.push_back(d);
		cuts.push_back(n);
		o.name = mc::cat(op == RESHAPE ? "reshape" : "reshape and back ", mc::vstr(arg));
		o.view = true;
		if (op == RESHAPE)
		{
			o.r = reshaped(r, grouped(k, r.s, cuts));
			o.t = t.reshape(arg);
		}
		else
			o.t = t.reshape(arg).reshape_as(t);
		break;
	}
	case SQUEEZE:
	{
		auto s = squeezed_shape(k, r.s);
		if (s.legs.size() == r.s.legs.size())
			c.skip();
		o.r = reshaped(r, s);
		o.t = t.squeeze();
		o.name = "squeeze";
		o.view = true;
		break;
	}
	case SLICE:
	case SLICE_KEEP:
	{
		if (n == 0)
			c.skip();
		int64_t d = c.choose(n, "sliced dimension"), e = c.choose(std::min<int64_t>(size_of(r.s.legs[d]), 3), "element");
		if (size_of(r.s.legs[d]) > 3 && e == 2)
			e = size_of(r.s.legs[d]) - 1;
		idx el(n, -1);
		el[d] = e;
		o.name = mc::cat(op == SLICE ? "slice " : "slice keeping the rank ", mc::vstr(el));
		o.view = true;
		o.r = sliced(r, el);
		o.t = o.t.basic_create_view(el, op == SLICE_KEEP);
		if (op == SLICE_KEEP)
		{
			Shape s = r.s;
			int64_t x = e;
			size_t i = 0;
			while (x >= r.s.legs[d][i].size)
				x -= r.s.legs[d][i++].size;
			s.legs[d] = {{1, r.s.legs[d][i].q}};
			o.r.s = s;
			o.r.a.shape = sizes_of(s);
		}
		break;
	}
	case CONJ:
		o.r = conjugate(r);
		o.t = t.conj();
		o.name = "conj";
		o.view = true;
		break;
	case INVERSE_:
		o.r = conjugate(r);
		o.t.inverse_cvals_();
		o.name = "inverse_cvals_";
		o.inplace = true;
		break;
	case SHIFT:
	{
		if (n == 0)
			c.skip();
		int64_t d = c.choose(n, "shifted dimension");
		Val one(k.mods.size(), 1);
		for (auto &x : o.r.s.legs[d])
			x.q = qm::add(k, qm::norm(k, x.q), one);
		o.r.s.rule = qm::add(k, qm::norm(k, r.s.rule), one);
		o.t = t.cval_shift(k.make(one), d);
		o.name = mc::cat("cval_shift ", d);
		o.view = true;
		break;
	}
	case SCALE:
		o.r = map_stored(r, [](double x) { return -2 * x; });
		o.t = t * -2;
		o.name = "times -2";
		break;
	case SCALE_:
		o.r = map_stored(r, [](double x) { return 0.5 * x; });
		o.t.mul_(0.5);
		o.name = "mul_ 0.5";
		o.inplace = true;
		break;
	case DIVIDE:
		o.r = map_stored(r, [](double x) { return x / 4; });
		o.t = t / 4;
		o.name = "divided by 4";
		break;
	case ABS:
		o.r = map_stored(r, [](double x) { return std::abs(x); });
		o.t = t.abs();
		o.name = "abs";
		break;
	case SQUARE:
		o.r = map_stored(r, [](double x) { return x * x; });
		o.t = t.pow(2);
		o.name = "square";
		break;
	case ADD:
	case ADD_:
	case ADD_TEMP_:
	case SUB:
	case RSUB:
	case MUL:
	case MUL_:
	{
		int w = c.choose(3, "blocks of the other operand");
		auto b_ = companion(r, w, 40 + w);
		auto b = build(b_);
		static const char *nm[] = {"even blocks", "odd blocks", "all blocks"};
		if (op == MUL || op == MUL_)
		{
			product(b_);
			o.name = mc::cat(op == MUL ? "times " : "mul_ ", nm[w]);
			if (op == MUL)
				o.t = t * b;
			else
				o.t.mul_(b), o.inplace = true;
		}
		else
		{
			double s = op == SUB || op == RSUB ? -1 : 1;
			o.r.a = broadcast(r.a, b_.a, [s, op](double x, double y) { return op == RSUB ? y - x : x + s * y; });
			static const char *pre[] = {"plus ", "add_ ", "add_ temporary ", "minus "};
			o.name = mc::cat(op == RSUB ? "subtracted from " : pre[op - ADD], nm[w]);
			if (op == ADD)
				o.t = t + b;
			else if (op == SUB)
				o.t = t - b;
			else if (op == RSUB)
				o.t = b - t;
			else if (op == ADD_)
				o.t += b, o.inplace = true;
			else
				o.t.add_(build(b_)), o.inplace = true;
		}
		unchanged(c, b, b_, o.name + ": the other operand");
		break;
	}
	case SELF_ADD_:
		o.r = map_stored(r, [](double x) { return 2 * x; });
		o.t.add_(o.t);
		o.name = "add_ itself";
		o.inplace = true;
		break;
	case SELF_MUL:
		product(r);
		o.t = t * t;
		o.name = "times itself";
		break;
	case DOT_FREE:
	{
		if (n > 2)
			c.skip();
		Ref v = make_ref(k, {{Leg{{1, qm::zero(k)}, {1, Val(k.mods.size(), 1)}}}, Val(k.mods.size(), 1)}, {{1}}, 60);
		auto V = build(v);
		bool left = c.flip("on the left");
		o.r = left ? contract(v, r, {}, {}) : contract(r, v, {}, {});
		o.t = left ? V.tensordot(t, {}, {}) : t.tensordot(V, {}, {});
		o.name = mc::cat("product with a vector", left ? " on the left" : "");
		break;
	}
	case DOT_CONJ:
	{
		if (n == 0)
			c.skip();
		int64_t m = c.choose(n, "contracted dimensions") + 1;
		if (2 * (n - m) > 4)
			c.skip();
		auto ds = arrangements(n, m);
		auto &d = ds[c.choose(std::min<int>(ds.size(), 3), "which")];
		auto cj = t.conj();
		o.r = contract(r, conjugate(r), d, d);
		o.t = t.tensordot(cj, d, d);
		o.name = mc::cat("contracted with its conjugate over ", mc::vstr(d));
		break;
	}
	case DENSE:
		o.t = from_basic_tensor_like(t, t.to_dense());
		o.name = "dense and back";
		break;
	case PUT_VIEW:
	{ // a slice replaced by the double of itself
		if (n == 0)
			c.skip();
		int64_t d = c.choose(n, "sliced dimension");
		idx el(n, -1);
		el[d] = c.choose(std::min<int64_t>(size_of(r.s.legs[d]), 2), "element");
		auto v = o.t.basic_create_view(el);
		o.t.basic_index_put_(el, v * 2);
		each(r.a.shape, [&](const idx &i) {
			if (i[d] == el[d])
				o.r.a(i) = 2 * r.a(i);
		});
		o.name = mc::cat("doubled the slice ", mc::vstr(el));
		o.inplace = true;
		break;
	}
	}
	o.r.present = stored_of(o.t);
	return o;
}
} // namespace bm
