// chains of tensors: menus of small matrix product states and operators, and their dense content
#pragma once
#include "MPT.h"
#include "la.h"
namespace bm
{
using quantit::bMPO;
using quantit::bMPS;
using quantit::bMPT;
using quantit::MPO;
using quantit::MPS;
using quantit::MPT;
// what the plain and the quantity conserving classes are called
struct Plain
{
	using mps = MPS;
	using mpo = MPO;
	using mpt = MPT;
	using tens = torch::Tensor;
	static constexpr bool block = false;
};
struct Block
{
	using mps = bMPS;
	using mpo = bMPO;
	using mpt = bMPT;
	using tens = btensor;
	static constexpr bool block = true;
};
template <class T>
ArrT<T> arr(const torch::Tensor &t) { return from_torch<T>(t); }
template <class T>
ArrT<T> arr(const btensor &t) { return assemble<T>(t); }
template <class T>
using ChainT = std::vector<RefT<T>>; // the kind is null for plain tensors
template <class B, class T>
typename B::tens make_tens(const RefT<T> &r)
{
	if constexpr (B::block)
		return build(r);
	else
		return to_torch(r.a);
}
template <class B, class T, class M>
M make_chain(const ChainT<T> &ch, size_t oc = 0)
{
	std::vector<typename B::tens> v;
	for (auto &r : ch)
		v.push_back(make_tens<B>(r));
	if constexpr (std::is_same_v<M, MPS> || std::is_same_v<M, bMPS>)
		return M(v, oc);
	else
		return M(v);
}
template <class T>
std::vector<ArrT<T>> arrays(const ChainT<T> &c)
{
	std::vector<ArrT<T>> o;
	for (auto &r : c)
		o.push_back(r.a);
	return o;
}
template <class T, class M>
std::vector<ArrT<T>> arrays_of(const M &m)
{
	std::vector<ArrT<T>> o;
	for (auto &t : m)
		o.push_back(arr<T>(t));
	return o;
}
// (left, p0, p1, .. , right): the state, with its edges open
template <class T>
ArrT<T> dense_state(const std::vector<ArrT<T>> &m)
{
	auto o = m[0];
	for (size_t i = 1; i < m.size(); ++i)
		o = tensordot(o, m[i], {(int64_t)o.shape.size() - 1}, {0});
	return o;
}
// (left, out0, .. , outL, right, in0, .. , inL): the operator, with its edges open
template <class T>
ArrT<T> dense_operator(const std::vector<ArrT<T>> &m)
{
	// sites (l, out, r, in) to (l, out, in, r)
	auto o = permute(m[0], {0, 1, 3, 2});
	int64_t L = m.size();
	for (int64_t i = 1; i < L; ++i)
		o = tensordot(o, permute(m[i], {0, 1, 3, 2}), {(int64_t)o.shape.size() - 1}, {0});
	idx p{0};
	for (int64_t i = 0; i < L; ++i)
		p.push_back(1 + 2 * i);
	p.push_back(1 + 2 * L);
	for (int64_t i = 0; i < L; ++i)
		p.push_back(2 + 2 * i);
	return permute(o, p);
}
enum
{
	GENERIC,
	ONES,
	ZERO,
	N_CONTENTS
};
template <class T>
void refill(RefT<T> &r, int how)
{
	if (how != GENERIC)
		for (auto &x : r.a.v)
			x = x == T(0) ? T(0) : how == ONES ? T(1) : T(0);
}
template <class T>
RefT<T> plain_ref(const idx &shape, uint64_t seed)
{
	RefT<T> r{nullptr, {}, {}, ArrT<T>(shape)};
	for (size_t i = 0; i < r.a.v.size(); ++i)
	{
		if constexpr (std::is_same_v<T, double>)
			r.a.v[i] = gen(seed, i);
		else
			r.a.v[i] = T(gen(seed, i), gen(seed + 1000, i));
	}
	return r;
}
// ---------------------------------------------------------------- structures of quantity conserving chains
struct ChainSpec
{
	const Kind *k;
	std::vector<Leg> phys; // cycled along the chain
	Val sector;
	int where;   // the sector is carried by: the right edge, the rule of the first site, the rule of the last site
	int pattern; // of the bonds
	bool open;   // the left edge has two sections
	const char *name;
};
inline std::vector<Val> charges(const Leg &l)
{
	std::vector<Val> o;
	for (auto &x : l)
		if (std::find(o.begin(), o.end(), x.q) == o.end())
			o.push_back(x.q);
	return o;
}
inline std::vector<Shape> chain_shapes(const ChainSpec &c, int L, bool operators = false)
{
	auto &k = *c.k;
	auto zero = qm::zero(k);
	auto minus = [&](const Val &a) { return qm::inv(k, a); };
	auto phys = [&](int i) { return c.phys[i % c.phys.size()]; };
	std::vector<Val> rule(L, zero);
	if (c.where == 1)
		rule[0] = c.sector;
	if (c.where == 2)
		rule[L - 1] = c.sector;
	// the quantities a site adds: those of its leg, or the differences for an operator
	auto adds = [&](int i) {
		auto p = charges(phys(i));
		if (!operators)
			return p;
		std::vector<Val> o;
		for (auto &a : p)
			for (auto &b : p)
			{
				auto d = qm::add(k, a, minus(b));
				if (std::find(o.begin(), o.end(), d) == o.end())
					o.push_back(d);
			}
		return o;
	};
	Leg left{{1, zero}};
	if (c.open)
		left.push_back({1, charges(phys(0)).back()});
	Val end = c.where == 0 ? c.sector : zero;
	std::vector<std::vector<Val>> f{charges(left)}, b(L + 1);
	for (int i = 0; i < L; ++i)
	{
		std::vector<Val> n;
		for (auto &a : f[i])
			for (auto &p : adds(i))
			{
				auto q = qm::add(k, qm::add(k, a, p), minus(rule[i]));
				if (std::find(n.begin(), n.end(), q) == n.end())
					n.push_back(q);
			}
		f.push_back(n);
	}
	b[L] = {end};
	for (int i = L - 1; i >= 0; --i)
		for (auto &a : b[i + 1])
			for (auto &p : adds(i))
			{
				auto q = qm::add(k, qm::add(k, a, minus(p)), rule[i]);
				if (std::find(b[i].begin(), b[i].end(), q) == b[i].end())
					b[i].push_back(q);
			}
	std::vector<Leg> bonds{left};
	for (int i = 1; i < L; ++i)
	{
		Leg l;
		for (auto &q : f[i])
			if (std::find(b[i].begin(), b[i].end(), q) != b[i].end())
				l.push_back({c.pattern == 0 ? 1 : 1 + (int64_t)(l.size() + i) % 2, q});
		if (operators && l.size() > 3)
			l.resize(3);
		if (l.empty())
			l.push_back({1, f[i].front()});
		if (c.pattern == 2) // a section that no block can reach
			l.insert(l.begin(), {2, qm::add(k, f[i].back(), f[i].back() == zero ? charges(phys(0)).front() : f[i].back())});
		if (c.pattern == 3) // the same quantity twice, out of order
		{
			auto x = l.front();
			x.size = 1;
			l.push_back(x);
			std::rotate(l.begin(), l.begin() + l.size() / 2, l.end());
		}
		if (c.pattern == 4) // a section without elements, as truncations may leave
			l.insert(l.begin(), {0, l.back().q});
		bonds.push_back(l);
	}
	bonds.push_back({{1, end}});
	std::vector<Shape> o;
	for (int i = 0; i < L; ++i)
	{
		if (operators)
			o.push_back({{bonds[i], phys(i), inv(k, bonds[i + 1]), inv(k, phys(i))}, rule[i]});
		else
			o.push_back({{bonds[i], phys(i), inv(k, bonds[i + 1])}, rule[i]});
	}
	return o;
}
inline std::vector<ChainSpec> chain_specs(bool thorough)
{
	std::vector<ChainSpec> o;
	Leg a{{1, {0}}, {1, {1}}}, m{{2, {1}}, {1, {-1}}}, c3{{1, {1}}, {1, {2}}}, zc{{1, {0, 1}}, {1, {1, 0}}}, one{{1, {1}}}, tri{{1, {-1}}, {1, {0}}, {1, {1}}};
	for (int pattern : {0, 1, 2, 3, 4})
	{
		o.push_back({&kZ(), {a}, {1}, 0, pattern, false, "Z {0,1}"});
		o.push_back({&kZ(), {a, m}, {1}, 1, pattern, false, "Z mixed sites"});
	}
	o.push_back({&kZ(), {a}, {2}, 2, 1, false, "Z {0,1}"});
	o.push_back({&kZ(), {a}, {1}, 0, 1, true, "Z {0,1} open edge"});
	o.push_back({&kZ(), {m}, {0}, 0, 1, false, "Z {1,-1}"});
	o.push_back({&kZ(), {one, a}, {2}, 1, 1, false, "Z one dimensional site"});
	o.push_back({&kZ(), {a}, {9}, 0, 1, false, "Z unreachable sector"});
	o.push_back({&kC3(), {c3}, {1}, 0, 1, false, "C3"});
	o.push_back({&kZC2(), {zc}, {1, 1}, 1, 1, false, "ZxC2"});
	if (thorough)
	{
		for (int where : {0, 1, 2})
			for (int q : {-1, 0, 1, 2})
				for (int pattern : {0, 1, 2, 3, 4})
					for (bool open : {false, true})
						o.push_back({&kZ(), {tri, a}, {q}, where, pattern, open, "Z {-1,0,1},{0,1}"});
		for (int where : {0, 1, 2})
			for (int q : {0, 1, 2})
				o.push_back({&kC3(), {c3, c3, {{1, {0}}, {2, {2}}}}, {q}, where, 1, false, "C3"});
	}
	return o;
}
inline std::string str(const ChainSpec &c)
{
	return mc::cat(c.name, " sector ", qm::str(c.sector), " in ", c.where == 0 ? "edge" : c.where == 1 ? "first rule" : "last rule", " bonds ", c.pattern, c.open ? " open" : "");
}
// the patterns of stored blocks of a site: all of them, none, all but one, only one
inline std::vector<idx> choose_few(mc::Ctx &c, const std::vector<idx> &all)
{
	int n = all.size(), m = c.choose(n ? 2 + (n > 1 ? 2 * n : 0) : 1, "stored");
	if (m == 0)
		return all;
	if (m == 1)
		return {};
	m -= 2;
	if (m >= n)
		return {all[m - n]};
	auto o = all;
	o.erase(o.begin() + m);
	return o;
}
// bond sizes of plain chains: {left edge, .., right edge}
inline std::vector<idx> plain_bonds(int L, bool thorough)
{
	std::vector<idx> o;
	auto add = [&](idx x) {
		x.resize(L + 1, x.back());
		o.push_back(x);
	};
	add({1, 1});
	for (idx x : std::vector<idx>{{1, 2, 3, 2, 1}, {2, 3, 1, 2, 3}, {1, 3, 4, 3, 1}})
	{
		auto y = x;
		y.resize(L + 1);
		y[L] = x[4];
		o.push_back(y);
	}
	if (thorough)
	{
		idx x(L + 1, 1);
		while (true)
		{
			o.push_back(x);
			int i = L;
			while (i >= 0 && x[i] == 3)
				x[i--] = 1;
			if (i < 0)
				break;
			++x[i];
		}
	}
	return o;
}
inline idx plain_phys(int L, int which)
{
	idx o;
	for (int i = 0; i < L; ++i)
		o.push_back(which == 0 ? 2 : which == 1 ? 1 + i % 3 : 3 - i % 2);
	return o;
}
} // namespace bm
