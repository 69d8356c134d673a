// C02: the type-erased container of conserved quantities behaves as a std::vector of values
#include "quant.h"
using namespace qm;
namespace
{
std::vector<Kind> kinds()
{
	return {kind<Z>("Z"), kind<C<3>>("C3"), kind<C<2>, Z>("C2xZ")};
}
// three representative, pairwise different values per kind (the container is data independent)
std::vector<Val> vals(const Kind &k)
{
	if (k.name == "Z")
		return {{0}, {1}, {-2}};
	if (k.name == "C3")
		return {{0}, {1}, {2}};
	return {{0, 0}, {1, 1}, {0, -1}};
}
struct Model
{
	bool null = true; // never given a kind
	std::vector<Val> v;
};
void compare(mc::Ctx &c, const Kind &k, any_quantity_vector &q, const Model &m, const std::string &w)
{
	c.step();
	const any_quantity_vector &cq = q;
	auto bad = [&](const std::string &s) { c.fail(mc::cat(w, ": ", s, ", expected size ", m.v.size())); };
	if (q.size() != m.v.size())
		bad(mc::cat("size ", q.size()));
	if (q.empty() != m.v.empty())
		bad("empty()");
	if (cq.end() - cq.begin() != (std::ptrdiff_t)m.v.size())
		bad("end()-begin()");
	if (q.capacity() < q.size())
		bad("capacity below size");
	size_t n = 0;
	for (auto it = q.begin(); it != q.end(); ++it, ++n)
		if (n >= m.v.size() || !(*it == k.make(m.v[n]).get()))
			bad(mc::cat("forward iteration, element ", n));
	if (n != m.v.size())
		bad("forward iteration length");
	n = m.v.size();
	for (auto it = q.rbegin(); it != q.rend(); ++it)
		if (n == 0 || !(*it == k.make(m.v[--n]).get()))
			bad("reverse iteration");
	if (n != 0)
		bad("reverse iteration length");
	n = 0;
	for (auto &x : cq)
	{
		if (n >= m.v.size() || !(x == k.make(m.v[n]).get()))
			bad(mc::cat("const iteration, element ", n));
		++n;
	}
	n = m.v.size();
	for (auto it = cq.rbegin(); it != cq.rend(); ++it)
		if (n == 0 || !(*it == k.make(m.v[--n]).get()))
			bad("const reverse iteration");
	for (size_t i = 0; i < m.v.size(); ++i)
	{
		any_quantity e = k.make(m.v[i]);
		if (!(q[i] == e.get()) || !(cq[i] == e.get()) || !(q.at(i) == e.get()) || !(cq.at(i) == e.get()) || !(*(q.begin() + i) == e.get()) || !(*(cq.end() - (m.v.size() - i)) == e.get()))
			bad(mc::cat("element ", i));
		if (q.begin() + i - q.begin() != (std::ptrdiff_t)i)
			bad("iterator difference");
	}
	if (!m.v.empty())
	{
		if (!(q.front() == k.make(m.v.front()).get()) || !(cq.front() == k.make(m.v.front()).get()) || !(q.back() == k.make(m.v.back()).get()) || !(cq.back() == k.make(m.v.back()).get()))
			bad("front/back");
	}
	for (int t = 0; t < 2; ++t)
	{
		bool threw = false;
		try
		{
			if (t)
				(void)cq.at(m.v.size());
			else
				(void)q.at(m.v.size());
		}
		catch (std::exception &)
		{
			threw = true;
		}
		if (!threw)
			bad("at(size()) did not throw");
	}
	// equality with an independently built vector, inequality with every one element change
	any_quantity_vector r;
	for (auto &x : m.v)
		r.push_back(k.make(x));
	if (!(cq == r) || cq != r || !(r == cq))
		bad("comparison with an equal vector");
	if (!m.v.empty())
	{
		any_quantity other = k.make(add(k, m.v.back(), vals(k)[1]));
		r.back() = other;
		if (cq == r || !(cq != r))
			bad("comparison with a different last element");
		r.pop_back();
		if (cq == r || !(cq != r) || r == cq)
			bad("comparison with a prefix");
	}
}
std::string mstr(const Model &m)
{
	if (m.null)
		return "null";
	std::string s = "{";
	for (auto &v : m.v)
		s += str(v);
	return s + "}";
}
any_quantity_vector fresh(mc::Ctx &c, const Kind &k, const Model &m, int how)
{
	if (m.null)
		return any_quantity_vector();
	any_quantity z = k.make(zero(k));
	if (how == 0)
	{
		any_quantity_vector q(m.v.size(), z);
		for (size_t i = 0; i < m.v.size(); ++i)
			q[i] = k.make(m.v[i]);
		return q;
	}
	any_quantity_vector q(0, z);
	for (auto &x : m.v)
		q.push_back(k.make(x));
	return q;
}
// one operation with all its arguments chosen; returns its description
std::string operate(mc::Ctx &c, const Kind &k, any_quantity_vector &q, Model &m, any_quantity_vector &w, Model &mw, std::string desc, int maxsize, bool reduced)
{
	auto vs = vals(k);
	auto say = [&](const std::string &s) {
		desc += "; " + s;
		c.describe(desc);
	};
	int op = c.choose(24, "op");
	size_t n = m.v.size();
	// a value, or an element of the container itself
	auto value = [&](any_quantity &hold) -> std::pair<int, Val> {
		int first = reduced ? 1 : 0, i = c.choose(3 - first + n, "v");
		if (i < 3 - first)
		{
			hold = k.make(vs[first + i]);
			return {-1, vs[first + i]};
		}
		i -= 3 - first;
		return {i, Val(m.v[i])};
	};
	auto arg = [&](const any_quantity &hold, const std::pair<int, Val> &v) -> any_quantity_cref {
		if (v.first < 0)
			return hold;
		return q[v.first];
	};
	auto vstr = [&](const std::pair<int, Val> &v) { return v.first < 0 ? str(v.second) : mc::cat("self[", v.first, "]"); };
	auto need = [&](bool b) {
		if (!b)
			c.skip();
	};
	auto room = [&](size_t more) { need(n + more <= (size_t)maxsize); };
	// an operation which a vector without kind refuses
	auto refused_when_null = [&](auto f) {
		if (!m.null)
		{
			f();
			return true;
		}
		bool threw = false;
		try
		{
			f();
		}
		catch (std::runtime_error &)
		{
			threw = true;
		}
		if (!threw)
			c.fail("an uninitialised vector accepted an operation that needs a kind");
		return false;
	};
	switch (op)
	{
	case 0:
	{
		room(1);
		auto &v = vs[reduced ? 1 + c.choose(2, "v") : c.choose(3, "v")];
		say("push_back" + str(v));
		q.push_back(k.make(v));
		m.v.push_back(v);
		m.null = false;
		break;
	}
	case 1:
	{
		room(1);
		need(n > 0);
		int i = c.choose(n, "i");
		say(mc::cat("push_back(self[", i, "])"));
		q.push_back(q[i]);
		m.v.push_back(Val(m.v[i]));
		break;
	}
	case 2:
		need(n > 0);
		say("pop_back");
		q.pop_back();
		m.v.pop_back();
		break;
	case 3:
	{
		room(1);
		int p = c.choose(n + 1, "pos");
		any_quantity hold = k.make(zero(k));
		auto v = value(hold);
		say(mc::cat("insert(", p, ",", vstr(v), ")"));
		refused_when_null([&] {
			auto it = q.insert(p ? q.cbegin() + p : q.cbegin(), arg(hold, v));
			if (it - q.begin() != p)
				c.fail("insert returns a wrong position");
			m.v.insert(m.v.begin() + p, v.second);
		});
		break;
	}
	case 4:
	{
		int p = c.choose(n + 1, "pos"), cnt = c.choose(3, "count");
		room(cnt);
		need(!m.null);
		any_quantity hold = k.make(zero(k));
		auto v = value(hold);
		say(mc::cat("insert(", p, ",", cnt, ",", vstr(v), ")"));
		auto it = q.insert(q.cbegin() + p, cnt, arg(hold, v));
		if (it - q.begin() != p)
			c.fail("insert(count) returns a wrong position");
		m.v.insert(m.v.begin() + p, cnt, v.second);
		break;
	}
	case 5:
	{
		need(!m.null && !mw.null);
		int p = c.choose(n + 1, "pos"), i = c.choose(mw.v.size() + 1, "first"), j = i + c.choose(mw.v.size() + 1 - i, "last");
		room(j - i);
		say(mc::cat("insert(", p, ",other[", i, ":", j, "])"));
		auto it = q.insert(q.cbegin() + p, w.cbegin() + i, w.cbegin() + j);
		if (it - q.begin() != p)
			c.fail("insert(range) returns a wrong position");
		m.v.insert(m.v.begin() + p, mw.v.begin() + i, mw.v.begin() + j);
		break;
	}
	case 6:
	{
		need(!m.null && !mw.null);
		int p = c.choose(n + 1, "pos"), i = c.choose(mw.v.size() + 1, "rfirst"), j = i + c.choose(mw.v.size() + 1 - i, "rlast");
		room(j - i);
		say(mc::cat("insert(", p, ",reversed other[", i, ":", j, "])"));
		auto it = q.insert(q.cbegin() + p, w.crbegin() + i, w.crbegin() + j);
		if (it - q.begin() != p)
			c.fail("insert(reversed range) returns a wrong position");
		m.v.insert(m.v.begin() + p, mw.v.rbegin() + i, mw.v.rbegin() + j);
		break;
	}
	case 7:
	{
		need(n > 0);
		int p = c.choose(n, "pos");
		say(mc::cat("erase(", p, ")"));
		auto it = q.erase(q.cbegin() + p);
		if (it - q.begin() != p)
			c.fail("erase returns a wrong position");
		m.v.erase(m.v.begin() + p);
		break;
	}
	case 8:
	{
		need(!m.null);
		int i = c.choose(n + 1, "first"), j = i + c.choose(n + 1 - i, "last");
		say(mc::cat("erase(", i, ",", j, ")"));
		auto it = q.erase(q.cbegin() + i, q.cbegin() + j);
		if (it - q.begin() != i)
			c.fail("erase(range) returns a wrong position");
		m.v.erase(m.v.begin() + i, m.v.begin() + j);
		break;
	}
	case 9:
	{
		int s = c.choose(maxsize + 1, "size");
		say(mc::cat("resize(", s, ")"));
		refused_when_null([&] {
			q.resize(s);
			m.v.resize(s, zero(k));
		});
		break;
	}
	case 10:
	{
		int s = c.choose(maxsize + 1, "size");
		any_quantity hold = k.make(zero(k));
		auto v = value(hold);
		say(mc::cat("resize(", s, ",", vstr(v), ")"));
		q.resize(s, arg(hold, v));
		m.v.resize(s, v.second);
		m.null = false;
		break;
	}
	case 11:
		say("clear");
		q.clear();
		m.v.clear();
		break;
	case 12:
		say("reserve(7),shrink_to_fit");
		need(!m.null);
		q.reserve(7);
		if (q.capacity() < 7)
			c.fail("reserve");
		q.shrink_to_fit();
		break;
	case 13:
		say("swap(other)");
		if (c.flip("free function"))
			swap(q, w);
		else
			q.swap(w);
		std::swap(m, mw);
		break;
	case 14:
		say("self=other");
		q = w;
		m = mw;
		break;
	case 15:
	{
		say("self=move(other)");
		q = std::move(w);
		m = mw;
		w = any_quantity_vector();
		mw = Model();
		break;
	}
	case 16:
	{
		need(n > 0);
		int i = c.choose(n, "i");
		auto &v = vs[reduced ? 1 + c.choose(2, "v") : c.choose(3, "v")];
		say(mc::cat("self[", i, "]=", str(v)));
		switch (c.choose(3, "spelling"))
		{
		case 0: q[i] = k.make(v); break;
		case 1: q.at(i) = k.make(v).get(); break;
		case 2: *(q.begin() + i) = k.make(v).get(); break;
		}
		m.v[i] = v;
		break;
	}
	case 17:
	{
		need(n > 0);
		int i = c.choose(n, "i"), j = c.choose(n, "j");
		say(mc::cat("self[", i, "]*=self[", j, "]"));
		q[i] *= q[j];
		m.v[i] = add(k, m.v[i], Val(m.v[j]));
		break;
	}
	case 18:
	{
		say("independent copy, then modified");
		any_quantity_vector cp(q);
		Model mcp = m;
		compare(c, k, cp, mcp, desc + " (the copy)");
		cp.push_back(k.make(vs[1]));
		mcp.null = false;
		mcp.v.push_back(vs[1]);
		cp[0] = k.make(vs[2]);
		mcp.v[0] = vs[2];
		compare(c, k, cp, mcp, desc + " (the modified copy)");
		break;
	}
	case 19:
	{
		say("move construct");
		any_quantity_vector cp(std::move(q));
		compare(c, k, cp, m, desc + " (moved to)");
		q = std::move(cp);
		break;
	}
	case 20:
	{
		// wrong kind: refused and unchanged
		need(!m.null);
		Kind other = k.name == "C3" ? kind<C<2>>("C2") : kind<C<3>>("C3");
		any_quantity x = other.make({1});
		int how = c.choose(5, "spelling");
		say(mc::cat("value of another kind, spelling ", how));
		bool threw = false;
		try
		{
			switch (how)
			{
			case 0: q.push_back(x); break;
			case 1: q.insert(q.cbegin(), x); break;
			case 2: q.resize(n + 1, x); break;
			case 3: q.insert(q.cbegin(), 1, x); break;
			case 4:
			{
				any_quantity_vector xs(1, x);
				q.insert(q.cbegin(), xs.cbegin(), xs.cend());
				break;
			}
			}
		}
		catch (std::bad_cast &)
		{
			threw = true;
		}
		if (!threw)
			c.fail("a value of another kind was accepted");
		break;
	}
	case 21:
	{
		// grouped permutation: the vector is cut in consecutive groups, the groups are reordered
		need(!m.null);
		std::vector<int64_t> rep;
		size_t left = n;
		int groups = c.choose(4, "groups");
		for (int g = 0; g + 1 < groups; ++g)
		{
			rep.push_back(c.choose(left + 1, "group size"));
			left -= rep.back();
		}
		if (groups)
			rep.push_back(left);
		else
			need(n == 0);
		std::vector<int64_t> perm, pool;
		for (int g = 0; g < groups; ++g)
			pool.push_back(g);
		while (!pool.empty())
		{
			int i = c.choose(pool.size(), "perm");
			perm.push_back(pool[i]);
			pool.erase(pool.begin() + i);
		}
		say(mc::cat("permute groups ", mc::vstr(rep), " as ", mc::vstr(perm)));
		auto r = q.permute(perm.data(), perm.data() + perm.size(), rep);
		Model mr;
		mr.null = false;
		for (auto g : perm)
		{
			size_t s = 0;
			for (int h = 0; h < g; ++h)
				s += rep[h];
			for (int h = 0; h < rep[g]; ++h)
				mr.v.push_back(m.v[s + h]);
		}
		compare(c, k, r, mr, desc + " (result)");
		break;
	}
	case 22:
	{
		need(!m.null);
		say("through initializer list / concrete vector");
		if (n == 0 || n > 3)
			c.skip();
		any_quantity a = k.make(m.v[0]), b = k.make(m.v[n - 1]);
		any_quantity_vector r = n == 1 ? any_quantity_vector({a}) : any_quantity_vector({a, b});
		Model mr;
		mr.null = false;
		mr.v = {m.v[0]};
		if (n > 1)
			mr.v.push_back(m.v[n - 1]);
		compare(c, k, r, mr, desc);
		break;
	}
	case 23:
	{
		say("self=self copy, compare both orders");
		any_quantity_vector cp(q);
		if (m.null)
			break;
		if (!(cp == q) || cp != q)
			c.fail("a copy differs from its source");
		q = any_quantity_vector(q);
		break;
	}
	}
	return desc;
}
} // namespace
static void histories_(mc::Ctx &c, const std::vector<Kind> &ks, int depth, bool reduced)
{
	auto &k = c.pick(ks, "kind");
	auto vs = vals(k);
	Model m, w;
	std::vector<std::vector<Val>> init{{}, {vs[1]}, {vs[0], vs[1], vs[2]}, {vs[1], vs[2]}};
	int i = c.choose(reduced ? 4 : 5, "initial");
	if (i)
	{
		m.null = false;
		m.v = init[i - 1];
	}
	int j = c.choose(3, "other");
	if (j)
	{
		w.null = false;
		w.v = j == 1 ? std::vector<Val>{vs[2], vs[0], vs[1]} : std::vector<Val>{};
	}
	int how = reduced ? 1 : c.choose(2, "built how");
	auto q = fresh(c, k, m, how), o = fresh(c, k, w, how);
	std::string d = mc::cat(k.name, " self=", mstr(m), " other=", mstr(w), how ? " built by push_back" : " built by assignment");
	c.describe(d);
	if (depth == 1)
		compare(c, k, q, m, "initial");
	for (int s = 0; s < depth; ++s)
	{
		d = operate(c, k, q, m, o, w, d, reduced ? 5 : 6, reduced);
		if (s == 0)
			c.shard();
		// the proper prefixes are complete histories of the shallower suites
		if (s == depth - 1)
		{
			compare(c, k, q, m, d + " (self)");
			compare(c, k, o, w, d + " (other)");
		}
		c.step();
		c.state(mc::cat(k.name, mstr(m), mstr(w)));
	}
}
MC_SUITE(histories_1) { histories_(c, kinds(), 1, false); }
MC_SUITE(histories_2) { histories_(c, {kind<C<2>, Z>("C2xZ")}, 2, true); }
MC_THOROUGH_SUITE(histories_2_full) { histories_(c, kinds(), 2, false); }
MC_THOROUGH_SUITE(histories_3) { histories_(c, {kind<C<2>, Z>("C2xZ")}, 3, true); }
// the concrete containers and the conversions to the type erased one
MC_SUITE(concrete)
{
	using G = quantity<C<2>, Z>;
	auto k = kind<C<2>, Z>("C2xZ");
	auto vs = vals(k);
	Model m;
	m.null = false;
	quantity_vector<G> cv;
	int n = c.choose(5, "size");
	for (int i = 0; i < n; ++i)
	{
		auto &v = c.pick(vs, "v");
		cv.push_back(G(C<2>(int16_t(v[0])), Z(int16_t(v[1]))));
		m.v.push_back(v);
	}
	c.shard();
	int how = c.choose(5, "conversion");
	c.describe(mc::cat("concrete vector ", mstr(m), " conversion ", how));
	any_quantity_vector q;
	switch (how)
	{
	case 0: q = any_quantity_vector(cv); break;
	case 1: q = any_quantity_vector(quantity_vector<G>(cv)); break;
	case 2: q = any_quantity_vector(static_cast<const vquantity_vector &>(cv)); break;
	case 3: q = any_quantity_vector(static_cast<const vquantity_vector &>(cv).clone()); break;
	case 4:
	{
		any_quantity_vector r(cv);
		swap(q, r);
		break;
	}
	}
	compare(c, k, q, m, "converted");
	if (n)
	{
		q[0] = k.make({1, 5});
		m.v[0] = {1, 5};
		if (cv[0] == G(C<2>(1), Z(5)) || !(q[0] == k.make({1, 5}).get()))
			c.fail("the conversion shares its elements with the source");
	}
	q.push_back(k.make({0, 7}));
	m.v.push_back({0, 7});
	compare(c, k, q, m, "converted then modified");
	if ((int)cv.size() != n)
		c.fail("the source changed");
	c.state(mc::cat(mstr(m), how));
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
