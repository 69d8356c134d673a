// C03: the block storage (flat_map) is a sorted map with unique keys, whatever the history;
// range insertion and merge call the collision/no collision handler exactly once on the right elements
#include "blockTensor/flat_map.h"
#include "mc.h"
#include <map>
using namespace quantit;
using Ref = std::map<int, long>;
struct IntKey
{
	using K = int;
	static K key(int k) { return 10 * k; }
	static const char *name() { return "int"; }
};
struct ListKey // the key used for the blocks of a tensor
{
	using K = std::vector<int64_t>;
	static K key(int k) { return {k / 2, k % 2, 0}; }
	static const char *name() { return "list"; }
};
template <class T>
using FM = flat_map<typename T::K, long>;
static std::string show(const Ref &m)
{
	std::string s = "{";
	for (auto &[k, v] : m)
		s += mc::cat(k, ":", v, " ");
	return s + "}";
}
template <class T>
static void compare(mc::Ctx &c, FM<T> &f, const Ref &m, const std::string &w, int keys)
{
	c.step();
	const FM<T> &cf = f;
	auto bad = [&](const std::string &s) { c.fail(mc::cat(w, ": ", s, ", expected ", show(m))); };
	if (f.size() != m.size() || f.empty() != m.empty() || cf.end() - cf.begin() != (std::ptrdiff_t)m.size())
		bad(mc::cat("size ", f.size()));
	auto i = m.begin();
	for (auto it = f.begin(); it != f.end(); ++it, ++i)
		if (i == m.end() || it->first != T::key(i->first) || it->second != i->second)
			bad("iteration");
	if (i != m.end())
		bad("short iteration");
	for (auto it = cf.rbegin(); it != cf.rend(); ++it)
	{
		if (i == m.begin())
			bad("long reverse iteration");
		--i;
		if (it->first != T::key(i->first) || it->second != i->second)
			bad("reverse iteration");
	}
	for (int k = -1; k <= keys; ++k)
	{
		auto key = T::key(k);
		bool in = m.count(k);
		auto it = f.find(key);
		auto ci = cf.find(key);
		if (in ? (it == f.end() || ci == cf.end() || it->second != m.at(k) || ci->first != key) : (it != f.end() || ci != cf.end()))
			bad(mc::cat("find(", k, ")"));
		if (f.contains(key) != in || cf.count(key) != (in ? 1 : 0))
			bad(mc::cat("contains/count(", k, ")"));
		auto [a, b] = f.equal_range(key);
		auto [ca, cb] = cf.equal_range(key);
		if (b - a != (in ? 1 : 0) || cb - ca != (in ? 1 : 0))
			bad(mc::cat("equal_range(", k, ")"));
		auto lo = std::distance(m.begin(), m.lower_bound(k)), up = std::distance(m.begin(), m.upper_bound(k));
		if (f.lower_bound(key) - f.begin() != lo || cf.lower_bound(key) - cf.begin() != lo)
			bad(mc::cat("lower_bound(", k, ")"));
		if (f.upper_bound(key) - f.begin() != up || cf.upper_bound(key) - cf.begin() != up)
			bad(mc::cat("upper_bound(", k, ")"));
		for (int t = 0; t < 2; ++t)
		{
			bool threw = false;
			long got = 0;
			try
			{
				got = t ? cf.at(key) : f.at(key);
			}
			catch (std::out_of_range &)
			{
				threw = true;
			}
			if (threw == in || (in && got != m.at(k)))
				bad(mc::cat("at(", k, ")"));
		}
	}
	typename FM<T>::content_t pairs;
	for (auto it = m.rbegin(); it != m.rend(); ++it)
		pairs.push_back({T::key(it->first), it->second});
	FM<T> same(pairs);
	if (!(cf == same) || !(same == cf))
		bad("comparison with an equal map");
	if (!pairs.empty())
	{
		same.begin()->second += 1;
		if (cf == same)
			bad("comparison with a map with another value");
		same.erase(same.begin());
		if (cf == same || same == cf)
			bad("comparison with a smaller map");
	}
}
template <class T>
static FM<T> make(const Ref &m, size_t extra_capacity = 0)
{
	FM<T> f;
	f.reserve(m.size() + extra_capacity);
	for (auto &[k, v] : m)
		f.insert({T::key(k), v});
	return f;
}
static Ref subset(mc::Ctx &c, int keys, long mul, const char *what)
{
	Ref m;
	int s = c.choose(1 << keys, what);
	for (int k = 0; k < keys; ++k)
		if (s >> k & 1)
			m[k] = mul * (k + 1);
	return m;
}
// every pair (self, source) of subsets of the keys, every way of merging one in the other
template <class T>
static void merges(mc::Ctx &c, int keys)
{
	Ref m = subset(c, keys, 10, "self"), s = subset(c, keys, 100000, "source");
	c.shard();
	int how = c.choose(11, "how"), cap = c.choose(3, "capacity");
	std::string d = mc::cat(T::name(), " self=", show(m), " source=", show(s), " way ", how, " spare capacity ", cap);
	c.describe(d);
	auto f = make<T>(m, cap == 1 ? keys : 0), g = make<T>(s, cap == 2 ? keys : 0);
	bool self_merge = how == 10;
	if (self_merge)
		s = m;
	Ref want = m;
	bool coll_handler = how != 0 && how != 5 && how != 7, nocoll_handler = how == 2 || how == 4 || how == 9 || how == 10;
	int ncoll = 0, nnew = 0, ecoll = 0, enew = 0;
	for (auto &[k, v] : s)
		if (m.count(k))
		{
			++ecoll;
			if (coll_handler)
				want[k] = 3 * m[k] + v;
		}
		else
		{
			++enew;
			want[k] = nocoll_handler ? -v : v;
		}
	auto coll = [&](auto &a, const auto &b) {
		++ncoll;
		a = 3 * a + b;
	};
	auto nocoll = [&](auto &a) {
		++nnew;
		a = -a;
	};
	const auto &cg = g;
	bool consumed = false;
	switch (how)
	{
	case 0: f.insert(cg.begin(), cg.end()); break;
	case 1: f.insert(cg.begin(), cg.end(), coll); break;
	case 2: f.insert(g.begin(), g.end(), coll, nocoll); break;
	case 3: f.merge(cg, coll); break;
	case 4: f.merge(cg, coll, nocoll); break;
	case 5: f.merge(cg); break;
	case 6: f.insert(g.cbegin(), g.cend(), coll); break;
	case 7: f.insert(g.begin(), g.end()); break;
	case 8:
		f.merge(std::move(g), coll);
		consumed = true;
		break;
	case 9:
		f.merge(std::move(g), coll, nocoll);
		consumed = true;
		break;
	case 10: f.merge(f, coll, nocoll); break;
	}
	compare<T>(c, f, want, d, keys);
	if (coll_handler && ncoll != ecoll)
		c.fail(mc::cat("collision handler called ", ncoll, " times, expected ", ecoll));
	if (nocoll_handler && nnew != enew)
		c.fail(mc::cat("no collision handler called ", nnew, " times, expected ", enew));
	if (!consumed && !self_merge)
		compare<T>(c, g, s, d + " (the source)", keys);
	c.state(show(want));
}
MC_SUITE(merge_int) { merges<IntKey>(c, c.thorough ? 6 : 5); }
MC_SUITE(merge_list) { merges<ListKey>(c, c.thorough ? 6 : 4); }
// construction and range insertion from unsorted sequences with repetitions
template <class T>
static void unsorted(mc::Ctx &c, int keys, int len)
{
	Ref m = subset(c, keys, 10, "self");
	std::vector<std::pair<typename T::K, long>> seq;
	std::vector<int> ks;
	int n = c.choose(len + 1, "length");
	for (int i = 0; i < n; ++i)
	{
		ks.push_back(c.choose(keys, "key"));
		seq.push_back({T::key(ks.back()), 1000});
		if (i == 0)
			c.shard();
	}
	c.shard();
	int how = c.choose(4, "how");
	std::string d = mc::cat(T::name(), " self=", show(m), " sequence=", mc::vstr(ks), " way ", how);
	c.describe(d);
	Ref want;
	int ncoll = 0;
	if (how < 2)
	{
		if (!m.empty())
			c.skip();
		for (auto k : ks)
			want[k] = 1000;
		FM<T> f = how == 0 ? FM<T>(seq.begin(), seq.end()) : FM<T>(seq.begin(), seq.end(), std::allocator<std::pair<typename T::K, long>>());
		compare<T>(c, f, want, d, keys);
	}
	else if (how == 2)
	{
		want = m;
		for (auto k : ks)
			want[k] += 1000;
		auto f = make<T>(m);
		f.insert(seq.begin(), seq.end(), [&](auto &a, auto &b) {
			++ncoll;
			a.second += b.second;
		});
		if (ncoll != int(m.size() + ks.size() - want.size()))
			c.fail(mc::cat("collision handler called ", ncoll, " times"));
		compare<T>(c, f, want, d, keys);
	}
	else
	{
		// element by element: the first value of a key stays
		want = m;
		auto f = make<T>(m);
		for (size_t i = 0; i < seq.size(); ++i)
		{
			bool isnew = !want.count(ks[i]);
			want.insert({ks[i], 1000});
			auto r = f.insert(seq[i]);
			if (r.second != isnew || r.first->first != seq[i].first)
				c.fail("result of insert");
		}
		compare<T>(c, f, want, d, keys);
	}
	c.state(show(want));
}
MC_SUITE(unsorted_int) { unsorted<IntKey>(c, 4, c.thorough ? 6 : 4); }
MC_SUITE(unsorted_list) { unsorted<ListKey>(c, 3, c.thorough ? 6 : 4); }
// histories of single element operations, every argument and every hint
template <class T>
static void histories(mc::Ctx &c, int keys, int depth, bool check_all)
{
	Ref m = subset(c, keys, 10, "self");
	auto f = make<T>(m, c.choose(2, "spare capacity"));
	std::string d = mc::cat(T::name(), " self=", show(m));
	for (int s = 0; s < depth; ++s)
	{
		int op = c.choose(18, "op");
		size_t n = m.size();
		long v = 1000 * (s + 1);
		auto anykey = [&] { return c.choose(keys, "key"); };
		auto say = [&](const std::string &x) {
			d += "; " + x;
			c.describe(d);
		};
		auto result = [&](auto it, int k) {
			if (it == f.end() || it->first != T::key(k) || it->second != m.at(k))
				c.fail(d + ": wrong position returned");
		};
		auto result2 = [&](auto pr, int k, bool isnew) {
			if (pr.second != isnew)
				c.fail(d + ": wrong success flag");
			result(pr.first, k);
		};
		switch (op)
		{
		case 0:
		case 1:
		case 2:
		{
			int k = anykey();
			say(mc::cat("insert#", op, " ", k));
			bool isnew = m.insert({k, v}).second;
			if (op == 0)
			{
				const typename FM<T>::value_type x(T::key(k), v);
				result2(f.insert(x), k, isnew);
			}
			else if (op == 1)
				result2(f.insert(typename FM<T>::value_type(T::key(k), v)), k, isnew);
			else
				result2(f.insert(std::pair<typename T::K, int>(T::key(k), (int)v)), k, isnew);
			break;
		}
		case 3:
		case 4:
		case 5:
		case 6:
		case 7:
		{
			int k = anykey(), h = c.choose(n + 1, "hint");
			say(mc::cat("hinted insert#", op, " ", k, " hint ", h));
			bool isnew = m.insert({k, v}).second;
			const typename FM<T>::value_type x(T::key(k), v);
			if (op == 3)
				result(f.insert(f.cbegin() + h, x), k);
			else if (op == 4)
				result(f.insert(f.cbegin() + h, typename FM<T>::value_type(x)), k);
			else if (op == 5)
				result(f.insert(typename FM<T>::const_iterator(f.begin() + h), x), k);
			else
			{
				auto r = op == 6 ? f.emplace(f.cbegin() + h, T::key(k), v) : f.emplace(f.begin() + h, T::key(k), v);
				if (r.second != isnew)
					c.fail(d + ": wrong success flag");
				if (isnew)
					result(r.first, k);
			}
			break;
		}
		case 8:
		{
			int k = anykey();
			say(mc::cat("[", k, "]=", v));
			f[T::key(k)] = v;
			m[k] = v;
			break;
		}
		case 9:
		{
			int k = anykey();
			say(mc::cat("read [", k, "]"));
			if (f[T::key(k)] != m[k])
				c.fail("operator[]");
			break;
		}
		case 10:
		case 11:
		{
			if (!n)
				c.skip();
			int i = c.choose(n, "position");
			say(mc::cat("erase at ", i));
			auto r = op == 10 ? f.erase(f.begin() + i) : f.erase(f.cbegin() + i);
			m.erase(std::next(m.begin(), i));
			if (r - f.begin() != i)
				c.fail(d + ": wrong position returned");
			break;
		}
		case 12:
		{
			int i = c.choose(n + 1, "first"), j = i + c.choose(n + 1 - i, "last");
			say(mc::cat("erase [", i, ",", j, ")"));
			auto r = f.erase(f.cbegin() + i, f.cbegin() + j);
			m.erase(std::next(m.begin(), i), std::next(m.begin(), j));
			if (r - f.begin() != i)
				c.fail(d + ": wrong position returned");
			break;
		}
		case 13:
		{
			int k = anykey();
			say(mc::cat("erase key ", k));
			auto e = m.erase(k);
			if (f.erase(T::key(k)) != e)
				c.fail(d + ": wrong number of erased elements");
			break;
		}
		case 14:
		{
			say("copy, the copy is modified");
			FM<T> cp(f), cq;
			cq = f;
			Ref mc_ = m;
			mc_[0] = 77;
			cp[T::key(0)] = 77;
			compare<T>(c, cp, mc_, d + " (copy)", keys);
			compare<T>(c, cq, m, d + " (assigned copy)", keys);
			break;
		}
		case 15:
		{
			say("swap with {1,3}, swap back");
			Ref o{{1, -1}, {3, -3}};
			auto g = make<T>(o);
			f.swap(g);
			compare<T>(c, f, o, d + " (swapped)", keys);
			compare<T>(c, g, m, d + " (swapped)", keys);
			f = std::move(g);
			break;
		}
		case 16:
			say("clear");
			f.clear();
			m.clear();
			break;
		case 17:
		{
			say("through move, shrink, reserve, sort");
			FM<T> g(std::move(f));
			g.shrink_to_fit();
			g.sort();
			f = std::move(g);
			f.reserve(9);
			if (f.capacity() < 9)
				c.fail("reserve");
			break;
		}
		}
		if (s == 0)
			c.shard();
		c.step();
		if (s == depth - 1)
			compare<T>(c, f, m, d, keys);
		c.state(show(m));
	}
}
MC_SUITE(history_int_1) { histories<IntKey>(c, 5, 1, true); }
MC_SUITE(history_list_1) { histories<ListKey>(c, 4, 1, true); }
MC_SUITE(history_int_2) { histories<IntKey>(c, 3, 2, true); }
MC_THOROUGH_SUITE(history_int_3) { histories<IntKey>(c, 3, 3, true); }
MC_THOROUGH_SUITE(history_list_2) { histories<ListKey>(c, 4, 2, true); }
int main(int argc, char **argv) { return mc::main_(argc, argv); }
