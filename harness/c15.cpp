// C15: the gauge of tensor trains, and what their constructors accept
#include "mps.h"
#include <memory>
using namespace bm;
namespace
{
// rows of a site seen from its left (rows: right bond) or from its right: orthonormal where something is stored
template <class T>
void isometric(mc::Ctx &c, const ArrT<T> &site, bool left, bool may_vanish, const std::string &w)
{
	int64_t l = site.shape[0], p = site.shape[1], r = site.shape[2], n = left ? r : l;
	ArrT<T> x = left ? site : permute(site, {1, 2, 0});
	Mat<T> m(x, left ? l * p : p * r);
	auto g = mul(dag(m), m);
	if (may_vanish)
	{
		bool z = true;
		for (auto &v : m.v)
			z = z && v == T(0);
		if (z)
			return;
	}
	for (int64_t i = 0; i < n; ++i)
		for (int64_t j = 0; j < n; ++j)
			REQUIRE(std::abs(g(i, j) - T(i == j)) < 1e-9, w, " is not ", left ? "left" : "right", " isometric");
}
template <class T>
void structure_check(mc::Ctx &c, const MPS &m)
{
	REQUIRE(m.check_ranks(), "check_ranks fails");
	for (size_t i = 0; i < m.size(); ++i)
		REQUIRE(m[i].scalar_type() == dtype_of<T>(), "element type of site ", i);
}
template <class T>
void structure_check(mc::Ctx &c, const bMPS &m)
{
	REQUIRE(m.check_ranks(), "check_ranks fails");
	for (size_t i = 0; i < m.size(); ++i)
	{
		valid(c, m[i], mc::cat("site ", i));
		same_dtype(c, m[i], mc::cat("site ", i));
		REQUIRE(m[i].options().dtype() == torch::scalarTypeToTypeMeta(dtype_of<T>()), "element type of site ", i);
	}
}
inline std::string rule_of(const MPS &) { return ""; }
inline std::string rule_of(const bMPS &m)
{
	any_quantity q(m[0].selection_rule->neutral());
	for (auto &t : m)
		q *= any_quantity_cref(t.selection_rule);
	return fmt::format("{}", q);
}
template <class B, class T>
void moves(mc::Ctx &c, const ChainT<T> &chain, int depth, const std::string &what)
{
	using M = typename B::mps;
	int L = chain.size();
	size_t oc = c.choose(L, "first centre");
	std::vector<int> targets;
	for (int i = -1; i <= L; ++i)
		targets.push_back(i);
	std::vector<int> seq;
	std::string d = what + mc::cat(" centre ", oc, " moves");
	for (int i = 0; i < depth; ++i)
	{ // the last choice stops the history
		int t = c.choose(targets.size() + (i > 0 ? 1 : 0), "target");
		if (t == (int)targets.size())
			break;
		seq.push_back(targets[t]);
		d += mc::cat(" ", targets[t]);
	}
	c.describe(d);
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kDouble));
	M psi = make_chain<B, T, M>(chain, oc);
	M copy = psi;
	auto want = dense_state(arrays(chain));
	double scale = 1;
	bool zero = true;
	for (auto &x : want.v)
		scale = std::max(scale, std::abs(x)), zero = zero && x == T(0);
	auto rule = rule_of(psi);
	auto edges = [](const M &m) { return std::vector<int64_t>{m.front().sizes()[0], m.back().sizes()[2]}; };
	std::vector<int> left(L), right(L); // what the history has made isometric
	size_t at = oc;
	std::vector<ArrT<T>> now = arrays(chain);
	for (int t : seq)
	{
		c.step();
		bool bad = throws([&] { psi.move_oc(t); });
		REQUIRE(bad == (t < 0 || t >= L), "moving to ", t, bad ? " was refused" : " was accepted");
		auto before = now;
		now = arrays_of<T>(psi);
		if (bad)
		{
			for (int i = 0; i < L; ++i)
				REQUIRE(close(now[i], before[i], 0), "a refused move changed site ", i);
		}
		else
		{
			for (; at < (size_t)t; ++at)
				left[at] = 1, right[at] = 0;
			for (; at > (size_t)t; --at)
				right[at] = 1, left[at] = 0;
			left[at] = right[at] = 0;
		}
		REQUIRE(size_t(psi.orthogonality_center) == at, "centre recorded at ", size_t(psi.orthogonality_center), ", expected ", at);
		structure_check<T>(c, psi);
		REQUIRE((int)psi.size() == L && edges(psi) == edges(copy), "shape of the chain");
		REQUIRE(close(dense_state(now), want, 1e-10 * scale), "the state changed");
		REQUIRE(rule_of(psi) == rule, "total selection rule ", rule_of(psi), ", expected ", rule);
		for (int i = 0; i < L; ++i)
		{
			if (i > 0)
				REQUIRE(now[i].shape[0] <= before[i].shape[0], "bond ", i, " grew");
			if (left[i])
				isometric(c, now[i], true, zero && B::block, mc::cat("site ", i));
			if (right[i])
				isometric(c, now[i], false, zero && B::block, mc::cat("site ", i));
		}
		if (left != std::vector<int>(L) || right != std::vector<int>(L))
		{
			bool canon = true;
			for (int i = 0; i < L; ++i)
				canon = canon && (i == (int)at || (i < (int)at ? left[i] : right[i]));
			if (canon)
			{ // the norm is in the centre
				double n = 0, m = 0;
				for (auto &x : want.v)
					n += std::norm(x);
				for (auto &x : now[at].v)
					m += std::norm(x);
				REQUIRE(std::abs(n - m) < 1e-9 * std::max(1., n), "norm of the centre");
			}
		}
		uint64_t h = mc::mix(at, L);
		for (int i = 0; i < L; ++i)
			h = mc::mix(h, left[i] + 2 * right[i] + 4 * now[i].shape[0]);
		c.state(mc::mix(h, mc::hash_str(what)));
	}
	auto first = arrays_of<T>(copy);
	for (int i = 0; i < L; ++i)
		REQUIRE(close(first[i], chain[i].a, 0), "a copy of the chain changed with it");
	REQUIRE(size_t(copy.orthogonality_center) == oc, "the centre of a copy changed");
}
template <class T>
void plain_moves(mc::Ctx &c)
{
	int L = c.choose(4, "length") + 1;
	auto bonds = plain_bonds(L, c.thorough && L < 4);
	auto &b = c.pick(bonds, "bonds");
	auto p = plain_phys(L, c.choose(3, "physical sizes"));
	int how = c.choose(N_CONTENTS, "content");
	ChainT<T> chain;
	for (int i = 0; i < L; ++i)
	{
		chain.push_back(plain_ref<T>({b[i], p[i], b[i + 1]}, 10 + i));
		refill(chain.back(), how);
	}
	moves<Plain>(c, chain, L < 4 || c.thorough ? 3 : 2, mc::cat("plain ", std::is_same_v<T, double> ? "double" : "complex", " bonds ", mc::vstr(b), " sites ", mc::vstr(p), " content ", how));
}
template <class T>
void block_moves(mc::Ctx &c)
{
	auto specs = chain_specs(c.thorough);
	int which = c.choose(specs.size(), "structure");
	auto &spec = specs[which];
	bool deep = c.thorough && which < 17; // the structures of the quick run get the longer histories
	int L = c.choose(4, "length") + 1;
	auto shapes = chain_shapes(spec, L);
	int odd = c.choose(L, "site with missing blocks");
	ChainT<T> chain;
	std::string w;
	for (int i = 0; i < L; ++i)
	{
		auto all = blocks_allowed(*spec.k, shapes[i]);
		auto present = i == odd && (L < 4 || deep) ? choose_few(c, all) : all;
		if (i == odd)
			w = present.size() == all.size() ? "" : mc::cat(" site ", i, " stores only", present_str(present));
		if (i == odd && odd && present.size() == all.size())
			c.skip(); // the same as site 0 with everything
		chain.push_back(make_ref<T>(*spec.k, shapes[i], present, 20 + i));
	}
	int how = c.choose(N_CONTENTS, "content");
	for (auto &r : chain)
		refill(r, how);
	moves<Block>(c, chain, deep && L < 4 ? 3 : 2, mc::cat("conserving ", std::is_same_v<T, double> ? "double " : "complex ", str(spec), " length ", L, w, " content ", how));
}
} // namespace
MC_SUITE(moves_plain_double) { plain_moves<double>(c); }
MC_SUITE(moves_plain_complex) { plain_moves<Cx>(c); }
MC_SUITE(moves_block_double) { block_moves<double>(c); }
MC_SUITE(moves_block_complex) { block_moves<Cx>(c); }
// ---------------------------------------------------------------- what is accepted as a chain
namespace
{
template <class B>
struct Made
{
	bool threw = false;
	std::unique_ptr<typename B::mps> s;
	std::unique_ptr<typename B::mpo> o;
};
template <class M, class P, class V>
std::unique_ptr<M> make_as(int how, const V &v, size_t oc, bool with_oc)
{
	if constexpr (std::is_same_v<M, MPS> || std::is_same_v<M, bMPS>)
	{
		if (how == 0)
			return with_oc ? std::make_unique<M>(v, oc) : std::make_unique<M>(v);
		if (how == 1)
		{
			P p(v.cbegin(), v.cend());
			return with_oc ? std::make_unique<M>(p, oc) : std::make_unique<M>(p);
		}
		if (how == 2)
		{
			P p(v.cbegin(), v.cend());
			return with_oc ? std::make_unique<M>(std::move(p), oc) : std::make_unique<M>(std::move(p));
		}
		if (how == 3)
			return std::make_unique<M>(v.cbegin(), v.cend());
		if (v.size() == 0)
			return std::make_unique<M>(std::initializer_list<typename M::Tens>{}, oc);
		if (v.size() == 1)
			return std::make_unique<M>(std::initializer_list<typename M::Tens>{v[0]}, oc);
		if (v.size() == 2)
			return std::make_unique<M>(std::initializer_list<typename M::Tens>{v[0], v[1]}, oc);
		return std::make_unique<M>(std::initializer_list<typename M::Tens>{v[0], v[1], v[2]}, oc);
	}
	else
	{
		if (how == 0)
			return std::make_unique<M>(v);
		if (how == 1)
		{
			P p(v.cbegin(), v.cend());
			return std::make_unique<M>(p);
		}
		if (how == 2)
		{
			P p(v.cbegin(), v.cend());
			return std::make_unique<M>(std::move(p));
		}
		if (how == 3)
			return std::make_unique<M>(v.cbegin(), v.cend());
		if (v.size() == 0)
			return std::make_unique<M>(std::initializer_list<typename M::Tens>{});
		if (v.size() == 1)
			return std::make_unique<M>(std::initializer_list<typename M::Tens>{v[0]});
		if (v.size() == 2)
			return std::make_unique<M>(std::initializer_list<typename M::Tens>{v[0], v[1]});
		return std::make_unique<M>(std::initializer_list<typename M::Tens>{v[0], v[1], v[2]});
	}
}
const char *const hows[] = {"vector", "MPT", "moved MPT", "iterators", "initializer list"};
template <class M, class P>
void accept(mc::Ctx &c, const std::vector<typename M::Tens> &v, bool fits, const std::string &w)
{
	constexpr bool state = std::is_same_v<M, MPS> || std::is_same_v<M, bMPS>;
	int how = c.choose(5, "constructor");
	size_t L = v.size(), oc = 0;
	bool with_oc = false;
	if (state && how != 3)
	{
		int o = c.choose(L + 4, "centre");
		with_oc = o > 0;
		oc = o == 0 ? 0 : o == (int)L + 3 ? size_t(-1) : o - 1;
		fits = fits && (oc == 0 || oc < L);
	}
	c.describe(w + mc::cat(" from ", hows[how], with_oc ? mc::cat(" centre ", oc) : ""));
	c.step();
	std::unique_ptr<M> m;
	bool threw = throws([&] { m = make_as<M, P>(how, v, oc, with_oc); });
	REQUIRE(threw == !fits, threw ? "refused" : "accepted");
	c.state(mc::mix(mc::hash_str(w), how * 100 + oc));
	if (threw)
		return;
	REQUIRE(m->size() == L && m->check_ranks(), "the chain made");
	if constexpr (state)
		REQUIRE(size_t(m->orthogonality_center) == oc, "centre");
	P back(*m);
	M again(back);
	REQUIRE(back.size() == L && again.size() == L, "conversion");
	for (size_t i = 0; i < L; ++i)
	{
		REQUIRE(close(arr<double>((*m)[i]), arr<double>(v[i]), 0), "site ", i);
		REQUIRE(close(arr<double>(back[i]), arr<double>(v[i]), 0) && close(arr<double>(again[i]), arr<double>(v[i]), 0), "converted site ", i);
	}
}
// every chain of up to three tensors of rank r-1 to r+1 with bonds 1 and 2
template <class M>
void plain_accept(mc::Ctx &c, int r)
{
	int L = c.choose(4, "length");
	std::vector<torch::Tensor> v;
	bool fits = true;
	std::string w = "plain chain";
	for (int i = 0; i < L; ++i)
	{
		int k = c.choose(i < 2 ? 6 : 5, "tensor"); // bond pairs, then the wrong ranks
		idx s = k == 0 ? idx{1, 2, 2} : k == 1 ? idx{2, 2, 1} : k == 2 ? idx{1, 2, 1} : k == 3 ? idx{1, 2, 2, 2, 1} : k == 4 ? idx{1, 2} : idx{};
		bool right_rank = k < 3;
		if (right_rank && r == 4)
			s.push_back(2);
		if (k == 3 && r == 3)
			s.pop_back(); // one dimension too many
		if (k == 4 && r == 4)
			s.push_back(1); // one too few
		fits = fits && right_rank && (i == 0 || (v.back().dim() == r && v.back().size(2) == s[0]));
		v.push_back(to_torch(plain_ref<double>(s, i).a));
		w += mc::vstr(s);
	}
	accept<M, MPT>(c, v, fits, w);
}
template <class M>
void block_accept(mc::Ctx &c, int r)
{
	int L = c.choose(4, "length");
	std::vector<btensor> v;
	bool fits = true;
	std::string w = "conserving chain";
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg phys{S(1, 0), S(1, 1)};
	// left legs, and right legs that fit them or not
	std::vector<Leg> bond{{S(1, 0)}, {S(1, 0), S(2, 1)}, {S(1, 0), S(1, 1)}, {S(1, 0), S(2, 2)}, {S(2, 1), S(1, 0)}};
	int prev = -1;
	bool prev_ok = true;
	for (int i = 0; i < L; ++i)
	{
		int rank = c.choose(i < 2 ? 3 : 1, "rank");
		int b = c.choose(bond.size(), "left leg"), e = i + 1 < L ? c.choose(2, "right leg") : 0;
		Shape s{{bond[b], phys, inv(kZ(), bond[e])}, {i == 1}};
		if (r == 4)
			s.legs.push_back(inv(kZ(), phys));
		if (rank == 1)
			s.legs.pop_back();
		if (rank == 2)
			s.legs.push_back({S(1, 0)});
		fits = fits && rank == 0 && (i == 0 || (prev_ok && prev == b));
		prev = e;
		prev_ok = rank == 0;
		v.push_back(build(make_ref<double>(kZ(), s, blocks_allowed(kZ(), s), i)));
		w += str(s);
	}
	accept<M, bMPT>(c, v, fits, w);
}
template <class M>
void filled_accept(mc::Ctx &c, int r)
{
	constexpr bool state = std::is_same_v<M, MPS> || std::is_same_v<M, bMPS>, block = std::is_same_v<M, bMPS> || std::is_same_v<M, bMPO>;
	int L = c.choose(4, "length"), k = c.choose(6, "tensor"), o = state ? c.choose(L + 3, "centre") : 0;
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg phys{S(1, 0), S(1, 1)}, one{S(1, 0)}, two{S(1, 0), S(2, 1)}, other{S(1, 0), S(2, 2)}, small{S(1, 0), S(1, 1)};
	Shape s{{k == 0 ? one : two, phys, inv(kZ(), k == 0 ? one : k == 1 ? two : k == 2 ? small : k == 3 ? other : two)}, {0}};
	if (r == 4)
		s.legs.push_back(inv(kZ(), phys));
	if (k == 4)
		s.legs.pop_back();
	if (k == 5)
		s.legs.push_back(one);
	auto ref = make_ref<double>(kZ(), s, blocks_allowed(kZ(), s), 3);
	size_t oc = o == L + 2 ? size_t(-1) : o;
	bool fits = (k < 2 || (k == 3 && !block)) && (oc == 0 || oc < (size_t)L);
	c.describe(mc::cat(block ? "conserving" : "plain", " chain of ", L, " copies of ", str(s), " centre ", oc));
	c.step();
	std::unique_ptr<M> m;
	typename M::Tens t;
	if constexpr (block)
		t = build(ref);
	else
		t = to_torch(ref.a);
	bool threw = throws([&] {
		if constexpr (state)
			m = std::make_unique<M>(L, t, oc);
		else
			m = std::make_unique<M>(L, t);
	});
	REQUIRE(threw == !fits, threw ? "refused" : "accepted");
	c.state(mc::mix(L * 10 + k, oc));
	if (threw)
		return;
	REQUIRE((int)m->size() == L && m->check_ranks(), "the chain made");
	for (auto &x : *m)
		REQUIRE(close(arr<double>(x), ref.a, 0), "content");
	if constexpr (state)
		REQUIRE(size_t(m->orthogonality_center) == oc, "centre");
}
} // namespace
MC_SUITE(accepted_mps) { plain_accept<MPS>(c, 3); }
MC_SUITE(accepted_mpo) { plain_accept<MPO>(c, 4); }
MC_SUITE(accepted_bmps) { block_accept<bMPS>(c, 3); }
MC_SUITE(accepted_bmpo) { block_accept<bMPO>(c, 4); }
MC_SUITE(filled_mps) { filled_accept<MPS>(c, 3); }
MC_SUITE(filled_mpo) { filled_accept<MPO>(c, 4); }
MC_SUITE(filled_bmps) { filled_accept<bMPS>(c, 3); }
MC_SUITE(filled_bmpo) { filled_accept<bMPO>(c, 4); }
// a chain of unset tensors of a given length
MC_SUITE(sized)
{
	int L = c.choose(5, "length");
	int o = c.choose(L + 3, "centre"), kind = c.choose(2, "class");
	size_t oc = o == L + 2 ? size_t(-1) : o;
	c.describe(mc::cat(kind ? "bMPS" : "MPS", " of ", L, " unset sites, centre ", oc));
	c.step();
	auto check = [&](auto make, bool clamps) {
		using M = decltype(make());
		std::unique_ptr<M> m;
		bool threw = throws([&] { m = std::make_unique<M>(make()); });
		bool fits = oc == 0 || oc < (size_t)L;
		REQUIRE(clamps ? !threw || !fits : threw == !fits, threw ? "refused" : "accepted");
		if (!threw)
		{
			REQUIRE((int)m->size() == L, "size");
			REQUIRE(size_t(m->orthogonality_center) < std::max<size_t>(1, L) && (!fits || size_t(m->orthogonality_center) == oc), "centre at ", size_t(m->orthogonality_center));
		}
	};
	if (kind)
		check([&] { return bMPS(size_t(L), oc); }, true);
	else
		check([&] { return MPS(size_t(L), oc); }, false);
	c.state(mc::mix(L, o));
}
// ---------------------------------------------------------------- the vector interface keeps the centre and the content together
template <class B>
static void handling(mc::Ctx &c)
{
	using M = typename B::mps;
	int L = 3;
	ChainT<double> chain, other;
	for (int i = 0; i < L; ++i)
	{
		if (B::block)
		{
			auto sh = chain_shapes(chain_specs(false)[2], L);
			chain.push_back(make_ref<double>(kZ(), sh[i], blocks_allowed(kZ(), sh[i]), i));
			if (i < 2)
			{
				auto s2 = chain_shapes(chain_specs(false)[0], 2);
				other.push_back(make_ref<double>(kZ(), s2[i], blocks_allowed(kZ(), s2[i]), 10 + i));
			}
		}
		else
		{
			chain.push_back(plain_ref<double>({i ? 2 : 1, 2, i < 2 ? 2 : 1}, i));
			if (i < 2)
				other.push_back(plain_ref<double>({i ? 3 : 1, 2, i ? 1 : 3}, 10 + i));
		}
	}
	// two variables, the model: which chain and which centre they hold
	struct Model
	{
		int which;
		size_t oc;
	};
	M x = make_chain<B, double, M>(chain, 2), y = make_chain<B, double, M>(other, 1);
	Model mx{0, 2}, my{1, 1};
	std::string d = mc::cat(B::block ? "bMPS" : "MPS", " handling:");
	const char *ops[] = {"x=y", "x=copy(y)", "x=move(copy y)", "swap(x,y)", "x.swap(y)", "x=x", "x.move_oc(0)", "x=x.to(double)", "x.to_(float).to_(double)", "x.to_(options)"};
	int depth = c.thorough ? 4 : 3;
	auto same = [&](const M &m, const Model &k, const char *w) {
		auto &ch = k.which ? other : chain;
		REQUIRE(m.size() == ch.size(), w, ": length");
		REQUIRE(size_t(m.orthogonality_center) == k.oc, w, ": centre ", size_t(m.orthogonality_center), ", expected ", k.oc);
		REQUIRE(close(dense_state(arrays_of<double>(m)), dense_state(arrays(ch)), 1e-3), w, ": content");
	};
	for (int i = 0; i < depth; ++i)
	{
		int op = c.choose(10, "operation");
		d += mc::cat(" ", ops[op]);
		c.describe(d);
		c.step();
		switch (op)
		{
		case 0:
			x = y, mx = my;
			break;
		case 1:
		{
			M z(y);
			x = z, mx = my;
			break;
		}
		case 2:
		{
			M z(y);
			M w(std::move(z));
			x = std::move(w), mx = my;
			break;
		}
		case 3:
		{
			using std::swap;
			swap(x, y), swap(mx, my);
			break;
		}
		case 4:
			x.swap(y), std::swap(mx, my);
			break;
		case 5:
		{
			auto &r = x;
			x = r;
			break;
		}
		case 6:
			x.move_oc(0), mx.oc = 0;
			break;
		case 7:
			x = x.to(torch::kDouble);
			break;
		case 8:
			x.to_(torch::kFloat).to_(torch::kDouble);
			break;
		case 9:
			x.to_(torch::TensorOptions().dtype(torch::kDouble));
			break;
		}
		same(x, mx, "x");
		same(y, my, "y");
		c.state(mc::mix(mc::mix(mx.which, mx.oc), mc::mix(my.which, my.oc)));
	}
}
MC_SUITE(handling_mps) { handling<Plain>(c); }
MC_SUITE(handling_bmps) { handling<Block>(c); }
// ---------------------------------------------------------------- coalescing an operator keeps it
template <class T>
static void coalesce_of(mc::Ctx &c)
{
	auto specs = chain_specs(c.thorough);
	auto &spec = c.pick(specs, "structure");
	int L = c.choose(3, "length") + 1;
	auto shapes = chain_shapes(spec, L, true);
	int odd = c.choose(L, "site with missing blocks"), how = c.choose(N_CONTENTS, "content");
	double cutoff = c.flip("cutoff") ? 1e-12 : 0;
	ChainT<T> chain;
	std::string w;
	for (int i = 0; i < L; ++i)
	{
		auto all = blocks_allowed(*spec.k, shapes[i]);
		auto present = i == odd ? choose_few(c, all) : all;
		if (i == odd)
			w = present.size() == all.size() ? "" : mc::cat(" site ", i, " stores only", present_str(present));
		if (i == odd && odd && present.size() == all.size())
			c.skip();
		chain.push_back(make_ref<T>(*spec.k, shapes[i], present, 40 + i));
		refill(chain.back(), how);
	}
	c.describe(mc::cat("coalesce ", std::is_same_v<T, double> ? "double " : "complex ", str(spec), " length ", L, w, " content ", how, " cutoff ", cutoff));
	c.step();
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kDouble));
	auto H = make_chain<Block, T, bMPO>(chain);
	bMPO copy = H;
	auto want = dense_operator(arrays(chain));
	double scale = 1;
	for (auto &x : want.v)
		scale = std::max(scale, std::abs(x));
	auto &r = H.coalesce(cutoff);
	REQUIRE(&r == &H, "does not return itself");
	REQUIRE(H.check_ranks(), "check_ranks fails");
	for (auto &t : H)
		valid(c, t, "site");
	auto now = arrays_of<T>(H);
	REQUIRE(close(dense_operator(now), want, 1e-9 * scale), "the operator changed");
	for (int i = 1; i < L; ++i)
		REQUIRE(now[i].shape[0] <= chain[i].a.shape[0], "bond ", i, " grew");
	auto first = arrays_of<T>(copy);
	for (int i = 0; i < L; ++i)
		REQUIRE(close(first[i], chain[i].a, 0), "a copy of the chain changed with it");
	uint64_t h = 0;
	for (auto &a : now)
		h = mc::mix(h, a.shape[0]);
	c.state(mc::mix(h, mc::hash_str(str(spec))));
}
MC_SUITE(coalesce_double) { coalesce_of<double>(c); }
MC_SUITE(coalesce_complex) { coalesce_of<Cx>(c); }
MC_SUITE(coalesce_empty)
{
	c.flip();
	c.describe("coalesce of an empty operator");
	c.step();
	bMPO H;
	H.coalesce();
	REQUIRE(H.empty(), "size");
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
