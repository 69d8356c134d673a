// C23: a chain of tensors is a sequence: every history of edits, copies and conversions against a list of numbers
#include "mps.h"
using namespace bm;
namespace
{
template <class M>
struct Info;
template <>
struct Info<MPT>
{
	static constexpr const char *name = "MPT";
	static constexpr int rank = 1;
	static constexpr bool centre = false;
	using general = MPT;
};
template <>
struct Info<bMPT> : Info<MPT>
{
	static constexpr const char *name = "bMPT";
	using general = bMPT;
};
template <>
struct Info<MPS>
{
	static constexpr const char *name = "MPS";
	static constexpr int rank = 3;
	static constexpr bool centre = true;
	using general = MPT;
};
template <>
struct Info<bMPS> : Info<MPS>
{
	static constexpr const char *name = "bMPS";
	using general = bMPT;
};
template <>
struct Info<MPO>
{
	static constexpr const char *name = "MPO";
	static constexpr int rank = 4;
	static constexpr bool centre = false;
	using general = MPT;
};
template <>
struct Info<bMPO> : Info<MPO>
{
	static constexpr const char *name = "bMPO";
	using general = bMPT;
};
// a tensor that carries a number; fits in the chain
template <class T>
T tens(int id, int rank)
{
	std::vector<int64_t> sizes{1, 2, 1, 2};
	sizes.resize(rank);
	auto t = torch::full(sizes, double(id), torch::kDouble);
	if constexpr (std::is_same_v<T, torch::Tensor>)
		return t;
	else
	{
		using quantit::conserved::Z;
		btensor::vec_list_t shape;
		for (auto s : sizes)
			shape.push_back({{size_t(s), any_quantity(Z(0))}});
		btensor b(shape, any_quantity(Z(0)), torch::TensorOptions().dtype(torch::kDouble));
		b.block(btensor::index_list(rank, 0)) = t;
		return b;
	}
}
constexpr int unset = -1, strange = -2;
int number(const torch::Tensor &t)
{
	if (!t.defined())
		return unset;
	auto v = t.to(torch::kDouble).contiguous().flatten();
	for (int64_t i = 0; i < v.numel(); ++i)
		if (v.data_ptr<double>()[i] != v.data_ptr<double>()[0])
			return strange;
	return v.numel() ? (int)v.data_ptr<double>()[0] : strange;
}
int number(const btensor &b)
{
	int n = 0, r = unset;
	for (auto &x : b)
		r = number(std::get<1>(x)), ++n;
	return n > 1 ? strange : r;
}
void fill(torch::Tensor &t, double v) { t.fill_(v); }
void fill(btensor &b, double v)
{
	for (auto &x : b)
		std::get<1>(x).fill_(v);
}
double element(const torch::Tensor &t) { return t.flatten()[0].item().toDouble(); }
double element(const btensor &b) { return std::get<1>(*b.begin()).flatten()[0].item().toDouble(); }
template <class M>
struct World
{
	using T = typename M::Tens;
	static constexpr int rank = Info<M>::rank;
	M x;
	std::vector<int> m;
	size_t oc = 0;
	mc::Ctx &c;
	int next = 100;
	std::string d;
	World(mc::Ctx &c_, int n, size_t o) : c(c_)
	{
		std::vector<T> v;
		for (int i = 0; i < n; ++i)
			v.push_back(tens<T>(i + 1, rank)), m.push_back(i + 1);
		if constexpr (Info<M>::centre)
			x = M(std::vector<T>(v), o), oc = o;
		else
			x = M(std::vector<T>(v));
	}
	T fresh()
	{
		last = ++next;
		return tens<T>(last, rank);
	}
	int last = 0;
	bool all_set() const { return std::find(m.begin(), m.end(), unset) == m.end(); }
	void check(const M &y, const std::vector<int> &want, const char *what)
	{
		REQUIRE(y.size() == want.size(), what, ": length ", y.size(), " instead of ", want.size());
		REQUIRE(y.empty() == want.empty(), what, ": empty()");
		REQUIRE(y.capacity() >= y.size() && y.max_size() >= y.size(), what, ": capacity");
		size_t n = want.size();
		for (size_t i = 0; i < n; ++i)
		{
			int got = number(y[i]);
			REQUIRE(got == want[i], what, ": element ", i, " is ", got, " instead of ", want[i]);
			REQUIRE(&y.at(i) == &y[i] && &y.data()[i] == &y[i] && &*(y.begin() + i) == &y[i] && &*(y.cbegin() + i) == &y[i] && &*(y.crend() - 1 - i) == &y[i] && &*(y.rend() - 1 - i) == &y[i], what, ": ways to reach element ", i);
		}
		REQUIRE(size_t(y.end() - y.begin()) == n && size_t(y.cend() - y.cbegin()) == n && size_t(y.crend() - y.crbegin()) == n && size_t(y.rend() - y.rbegin()) == n, what, ": ranges");
		if (n)
			REQUIRE(&y.front() == &y[0] && &y.back() == &y[n - 1], what, ": ends");
		bool out = false;
		try
		{
			(void)y.at(n);
		}
		catch (const std::out_of_range &)
		{
			out = true;
		}
		REQUIRE(out, what, ": at() beyond the end");
		M &z = const_cast<M &>(y);
		for (size_t i = 0; i < n; ++i)
			REQUIRE(&z.at(i) == &y[i] && &z[i] == &y[i] && &z.data()[i] == &y[i] && &*(z.begin() + i) == &y[i] && &*(z.rend() - 1 - i) == &y[i], what, ": ways to write element ", i);
		REQUIRE(size_t(z.end() - z.begin()) == n && size_t(z.rend() - z.rbegin()) == n, what, ": ranges");
		if (n)
			REQUIRE(&z.front() == &y[0] && &z.back() == &y[n - 1], what, ": ends");
		if constexpr (Info<M>::centre)
			REQUIRE(size_t(y.orthogonality_center) == oc, what, ": centre ", size_t(y.orthogonality_center), " instead of ", oc);
	}
	void say(const std::string &s)
	{
		d += " " + s;
		c.describe(d);
	}
	template <class It>
	void at(const It &it, size_t p, const char *w)
	{
		REQUIRE(size_t(it - x.begin()) == p, w, ": returned position ", it - x.begin(), " instead of ", p);
	}
	// a chain cut shorter than its centre: whether the other chains of its length can have that centre is not specified
	void stale()
	{
		if (oc >= std::max<size_t>(1, m.size()))
			c.skip();
	}
	void edit()
	{
		const int max = 4;
		int n = m.size(), room = max - n;
		auto pos = [&] { return c.choose(n + 1, "position"); };
		auto need = [&](int k) {
			if (k > room)
				c.skip();
		};
		auto ins = [&](int p, const std::vector<int> &v) { m.insert(m.begin() + p, v.begin(), v.end()); };
		switch (c.choose(Info<M>::centre ? 28 : 27, "operation"))
		{
		case 0:
		{
			need(1);
			say("push_back(copy)");
			auto t = fresh();
			x.push_back(t);
			REQUIRE(number(t) == last, "the argument changed");
			m.push_back(last);
			break;
		}
		case 1:
			need(1);
			say("push_back(temporary)");
			x.push_back(fresh());
			m.push_back(last);
			break;
		case 2:
		{
			need(1);
			say("emplace_back");
			auto t = fresh();
			auto &&r = x.emplace_back(t);
			REQUIRE(number(r) == last && &r == &x.back(), "emplace_back gives back the new element");
			m.push_back(last);
			break;
		}
		case 3:
		{
			need(1);
			int p = pos();
			say(mc::cat("insert(", p, ",copy)"));
			auto t = fresh();
			at(x.insert(x.cbegin() + p, t), p, "insert");
			REQUIRE(number(t) == last, "the argument changed");
			ins(p, {last});
			break;
		}
		case 4:
		{
			need(1);
			int p = pos();
			say(mc::cat("insert(", p, ",temporary)"));
			at(x.insert(x.cbegin() + p, fresh()), p, "insert");
			ins(p, {last});
			break;
		}
		case 5:
		{
			int p = pos(), k = c.choose(3, "count");
			need(k);
			say(mc::cat("insert(", p, ",", k, " copies)"));
			at(x.insert(x.cbegin() + p, size_t(k), fresh()), p, "insert");
			ins(p, std::vector<int>(k, last));
			break;
		}
		case 6:
		{
			int p = pos(), k = c.choose(3, "count");
			need(k);
			say(mc::cat("insert(", p, ",range of ", k, ")"));
			std::vector<T> v;
			std::vector<int> w;
			for (int i = 0; i < k; ++i)
				v.push_back(fresh()), w.push_back(last);
			at(x.insert(x.cbegin() + p, v.begin(), v.end()), p, "insert");
			ins(p, w);
			break;
		}
		case 7:
		{
			need(2);
			int p = pos();
			say(mc::cat("insert(", p, ",list)"));
			auto a = fresh();
			int ia = last;
			auto b = fresh();
			at(x.insert(x.cbegin() + p, {a, b}), p, "insert");
			ins(p, {ia, last});
			break;
		}
		case 8:
		{
			need(1);
			int p = pos();
			say(mc::cat("emplace(", p, ")"));
			at(x.emplace(x.cbegin() + p, fresh()), p, "emplace");
			ins(p, {last});
			break;
		}
		case 9:
		{
			int p = c.choose(n, "position");
			say(mc::cat("erase(", p, ")"));
			at(x.erase(x.cbegin() + p), p, "erase");
			m.erase(m.begin() + p);
			break;
		}
		case 10:
		{
			int p = pos(), q = p + c.choose(n + 1 - p, "length");
			say(mc::cat("erase(", p, "..", q, ")"));
			at(x.erase(x.cbegin() + p, x.cbegin() + q), p, "erase");
			m.erase(m.begin() + p, m.begin() + q);
			break;
		}
		case 11:
			if (n == 0)
				c.skip();
			say("pop_back");
			x.pop_back();
			m.pop_back();
			break;
		case 12:
		{
			int k = c.choose(max + 1, "length");
			say(mc::cat("resize(", k, ")"));
			x.resize(k);
			m.resize(k, unset);
			break;
		}
		case 13:
		{
			int k = c.choose(max + 1, "length");
			say(mc::cat("resize(", k, ",value)"));
			auto t = fresh();
			x.resize(k, t);
			m.resize(k, last);
			break;
		}
		case 14:
			say("clear");
			x.clear();
			m.clear();
			break;
		case 15:
		{
			int p = c.choose(n, "position"), w = c.choose(5, "way");
			say(mc::cat("write ", p, " way ", w));
			T t = fresh();
			T &slot = w == 0 ? x[p] : w == 1 ? x.at(p) : w == 2 ? x.data()[p] : w == 3 ? *(x.begin() + p) : *(x.rbegin() + (n - 1 - p));
			slot = t;
			m[p] = last;
			break;
		}
		case 16:
		{
			int k = c.choose(3, "capacity") * 4;
			say(mc::cat("reserve(", k, ")"));
			x.reserve(k);
			REQUIRE((int)x.capacity() >= k, "reserved capacity");
			break;
		}
		case 17:
			say("shrink_to_fit");
			x.shrink_to_fit();
			break;
		case 18: // an element of the chain itself
		{
			need(1);
			int p = c.choose(n, "position"), q = c.choose(3, "where");
			say(mc::cat(q == 0 ? "push_back" : q == 1 ? "insert at 0" : "insert at the end", " of its own element ", p));
			int v = m[p];
			if (q == 0)
				x.push_back(x[p]), m.push_back(v);
			else if (q == 1)
				x.insert(x.cbegin(), x[p]), m.insert(m.begin(), v);
			else
				x.insert(x.cend(), x[p]), m.push_back(v);
			break;
		}
		case 19: // a copy is independent of the original
		{
			say("edit a copy");
			M y(x);
			check(y, m, "copy");
			auto w = m;
			y.push_back(fresh());
			w.push_back(last);
			y[0] = fresh();
			w[0] = last;
			check(y, w, "edited copy");
			break;
		}
		case 20: // assignment replaces whatever was there
		{
			say("assign");
			M y(size_t(2), tens<T>(50, rank));
			y = x;
			check(y, m, "assigned");
			M z;
			z = std::move(y);
			check(z, m, "move assigned");
			M u(std::move(z));
			check(u, m, "move constructed");
			x = std::move(u);
			break;
		}
		case 21:
		{
			say("swap");
			M y(size_t(2), tens<T>(50, rank));
			auto keep = oc;
			using std::swap;
			swap(x, y);
			check(y, m, "swapped");
			oc = 0;
			check(x, {50, 50}, "swapped");
			x.swap(y);
			check(y, {50, 50}, "swapped back");
			oc = keep;
			break;
		}
		case 22: // conversions of the elements
		{
			if (!all_set())
				c.skip();
			int w = c.choose(5, "overload");
			bool copy = c.flip("copy"), change = c.flip("other type");
			say(mc::cat("to() overload ", w, copy ? " copying" : "", change ? " another type" : ""));
			stale();
			auto ty = change ? torch::kFloat : torch::kDouble;
			bool own = copy || m.empty();
			if (!m.empty())
			{
				own = true;
				for (auto &t : x)
					own &= copy || torch::typeMetaToScalarType(t.options().dtype()) != ty;
			}
			T model = tens<T>(9, rank).to(ty);
			const M &cx = x;
			M y = w == 0 ? cx.to(torch::TensorOptions().dtype(ty), false, copy)
			      : w == 1 ? cx.to(torch::Device(torch::kCPU), ty, false, copy)
			      : w == 2 ? cx.to(ty, false, copy)
			      : w == 3 ? cx.to(torch::scalarTypeToTypeMeta(ty), false, copy)
			               : cx.to(model, false, copy);
			check(y, m, "converted");
			for (auto &t : y)
				REQUIRE(torch::typeMetaToScalarType(t.options().dtype()) == ty, "type of the elements");
			if (own)
				for (auto &t : y)
					fill(t, 77);
			check(x, m, "original");
			break;
		}
		case 23:
		{
			if (!all_set())
				c.skip();
			stale();
			int w = c.choose(3, "overload");
			say(mc::cat("to_() overload ", w));
			M *r = w == 0 ? &x.to_(torch::kFloat) : w == 1 ? &x.to_(torch::TensorOptions().dtype(torch::kFloat)) : &x.to_(torch::Device(torch::kCPU), torch::kFloat);
			REQUIRE(r == &x, "to_ gives the chain back");
			for (auto &t : x)
				REQUIRE(torch::typeMetaToScalarType(t.options().dtype()) == torch::kFloat, "type of the elements");
			break;
		}
		case 24: // to the general chain and back
		{
			if (!all_set())
				c.skip();
			say("general chain and back");
			using G = typename Info<M>::general;
			if constexpr (!std::is_same_v<G, M>)
			{
				G g(x);
				REQUIRE(g.size() == m.size(), "length of the general chain");
				for (size_t i = 0; i < m.size(); ++i)
					REQUIRE(number(g[i]) == m[i], "element ", i, " of the general chain");
				G h = static_cast<G>(x);
				REQUIRE(h.size() == m.size(), "length of the general chain");
				for (size_t i = 0; i < m.size(); ++i)
					REQUIRE(number(h[i]) == m[i], "element ", i, " of the general chain");
				if constexpr (Info<M>::centre)
				{
					if (oc < std::max<size_t>(1, m.size()))
					{
						M y(g, oc), z(std::move(h), oc);
						check(y, m, "back from the general chain");
						check(z, m, "back from a temporary general chain");
					}
				}
				else
				{
					M y(g), z(std::move(h));
					check(y, m, "back from the general chain");
					check(z, m, "back from a temporary general chain");
				}
			}
			else
			{
				M y(x.cbegin(), x.cend());
				check(y, m, "from a range");
			}
			break;
		}
		case 25: // part of the chain
		{
			if (!all_set())
				c.skip();
			int p = pos(), q = p + c.choose(n + 1 - p, "length");
			say(mc::cat("part ", p, "..", q));
			M y(x.cbegin() + p, x.cbegin() + q);
			auto keep = oc;
			oc = 0;
			check(y, std::vector<int>(m.begin() + p, m.begin() + q), "part");
			oc = keep;
			break;
		}
		case 26: // every way to give the content
		{
			say("construct");
			auto keep = oc;
			oc = 0;
			auto a = fresh();
			int ia = last;
			auto b = fresh();
			check(M({a, b}), {ia, last}, "list");
			check(M(std::vector<T>{a, b, a}), {ia, last, ia}, "vector");
			check(M(size_t(3), b), {last, last, last}, "copies");
			check(M(size_t(2)), {unset, unset}, "unset");
			check(M(), {}, "nothing");
			check(M(std::vector<T>{}), {}, "empty vector");
			check(M::empty_copy(M({a, b})), {unset, unset}, "unset copy");
			if constexpr (Info<M>::centre)
			{
				oc = 1;
				check(M({a, b}, 1), {ia, last}, "list with a centre");
				check(M(std::vector<T>{a, b, a}, 1), {ia, last, ia}, "vector with a centre");
				check(M(size_t(3), b, 1), {last, last, last}, "copies with a centre");
				check(M::empty_copy(M({a, b}, 1)), {unset, unset}, "unset copy");
			}
			oc = keep;
			break;
		}
		case 27: // the centre of a chain that was edited
			if constexpr (Info<M>::centre)
			{
				if (!all_set())
					c.skip();
				for (auto &t : x)
					if (t.options().dtype() != x[0].options().dtype())
						c.skip();
				int p = c.choose(n + 1, "target");
				say(mc::cat("move the centre of a copy to ", p));
				M y(x);
				bool threw = false;
				try
				{
					y.move_oc(p);
				}
				catch (const std::invalid_argument &)
				{
					threw = true;
				}
				REQUIRE(threw == (p >= n || oc >= size_t(n)), threw ? "refused" : "accepted");
				if (threw)
				{
					check(y, m, "refused chain");
					break;
				}
				REQUIRE(size_t(y.orthogonality_center) == size_t(p) && y.size() == x.size(), "centre ", size_t(y.orthogonality_center));
				double want = 1, got = 1;
				for (int i = 0; i < n; ++i)
				{
					want *= m[i];
					got *= element(y[i]);
				}
				REQUIRE(std::abs(got - want) <= 1e-5 * std::abs(want), "content ", got, " instead of ", want);
				check(x, m, "original");
			}
			break;
		}
		c.step();
		check(x, m, "chain");
		uint64_t h = oc;
		for (int v : m)
			h = mc::mix(h, v > 100 ? 100 : v);
		c.state(h);
	}
};
template <class M>
void history(mc::Ctx &c, int depth)
{
	int n = c.choose(4, "length");
	size_t oc = Info<M>::centre ? c.choose(std::max(1, n), "centre") : 0;
	World<M> w(c, n, oc);
	w.d = mc::cat(Info<M>::name, " of ", n, Info<M>::centre ? mc::cat(" centre ", oc) : "", ":");
	for (int i = 0; i < depth; ++i)
		w.edit();
}
} // namespace
MC_SUITE(edits_mpt) { history<MPT>(c, 2); }
MC_SUITE(edits_mps) { history<MPS>(c, 2); }
MC_SUITE(edits_mpo) { history<MPO>(c, 2); }
MC_SUITE(edits_bmpt) { history<bMPT>(c, 2); }
MC_SUITE(edits_bmps) { history<bMPS>(c, 2); }
MC_SUITE(edits_bmpo) { history<bMPO>(c, 2); }
MC_THOROUGH_SUITE(edits_mpt_3) { history<MPT>(c, 3); }
MC_THOROUGH_SUITE(edits_mps_3) { history<MPS>(c, 3); }
MC_THOROUGH_SUITE(edits_mpo_3) { history<MPO>(c, 3); }
MC_THOROUGH_SUITE(edits_bmpt_3) { history<bMPT>(c, 3); }
MC_THOROUGH_SUITE(edits_bmps_3) { history<bMPS>(c, 3); }
MC_SUITE(edits_bmpo_3) { history<bMPO>(c, 3); }
int main(int argc, char **argv) { return mc::main_(argc, argv); }
