// reference model of the conserved quantities: plain integer vectors, independent of the library
#pragma once
#include "Conserved/Composite/cquantity.h"
#include "Conserved/Composite/quantity_vector.h"
#include "Conserved/quantity.h"
#include "mc.h"
#include <array>
namespace qm
{
using namespace quantit;
using namespace quantit::conserved;
// mods[i]==0: an integer charge; otherwise a cyclic charge of that length
struct Kind
{
	std::string name;
	std::vector<int> mods;
	std::function<any_quantity(const std::vector<int> &)> make; // builds the library's value
};
using Val = std::vector<int>;
inline int norm1(int v, int m) { return m == 0 ? v : ((v % m) + m) % m; }
inline Val norm(const Kind &k, Val v)
{
	for (size_t i = 0; i < v.size(); ++i)
		v[i] = norm1(v[i], k.mods[i]);
	return v;
}
inline Val add(const Kind &k, const Val &a, const Val &b)
{
	Val r(a.size());
	for (size_t i = 0; i < a.size(); ++i)
		r[i] = norm1(a[i] + b[i], k.mods[i]);
	return r;
}
inline Val inv(const Kind &k, const Val &a)
{
	Val r(a.size());
	for (size_t i = 0; i < a.size(); ++i)
		r[i] = norm1(-a[i], k.mods[i]);
	return r;
}
inline Val zero(const Kind &k) { return Val(k.mods.size(), 0); }
inline int64_t dist2(const Val &a, const Val &b)
{
	int64_t d = 0;
	for (size_t i = 0; i < a.size(); ++i)
		d += int64_t(a[i] - b[i]) * (a[i] - b[i]);
	return d;
}
template <class... G>
struct Mod;
template <class G>
struct ModOf
{
	static constexpr int v = 0;
};
template <uint16_t N>
struct ModOf<C<N>>
{
	static constexpr int v = N;
};
template <class... G, size_t... I>
any_quantity build(const Val &v, std::index_sequence<I...>)
{
	return any_quantity(quantity<G...>(G(int16_t(v[I]))...));
}
template <class... G, size_t... I>
any_quantity build_direct(const Val &v, std::index_sequence<I...>)
{
	return any_quantity(G(int16_t(v[I]))...);
}
template <class... G>
Kind kind(const std::string &n)
{
	return Kind{n, {ModOf<G>::v...}, [](const Val &v) { return build<G...>(v, std::index_sequence_for<G...>{}); }};
}
// all the elements of a kind with integer charges restricted to [-r,r]
inline std::vector<Val> elements(const Kind &k, int r)
{
	std::vector<Val> out{{}};
	for (int m : k.mods)
	{
		std::vector<Val> nxt;
		for (auto &o : out)
			for (int v = m ? 0 : -r; v <= (m ? m - 1 : r); ++v)
			{
				auto x = o;
				x.push_back(v);
				nxt.push_back(x);
			}
		out = nxt;
	}
	return out;
}
inline std::string str(const Val &v) { return mc::vstr(v); }
} // namespace qm
