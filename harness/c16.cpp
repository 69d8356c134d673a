// C16: contraction of tensor trains
#include "dmrg.h"
#include "mps.h"
using namespace bm;
using namespace quantit;
namespace
{
// sum over everything: left(a,o,b) <b|O|a> right(a,o,b), from the dense state vectors and the dense operator
template <class T>
T reference(const ArrT<T> &a, const ArrT<T> &o, const ArrT<T> &b, const ArrT<T> &left, const ArrT<T> &right)
{
	int64_t L = a.shape.size() - 2;
	idx p, in, out, out3;
	for (int64_t i = 0; i < L; ++i)
		p.push_back(1 + i), in.push_back(L + 2 + i), out3.push_back(3 + i);
	auto x = bm::tensordot(a, o, p, in);                                               // la ra lo out.. ro
	auto y = bm::tensordot(x, b.map([](T z) { return cj(z); }), out3, p);             // la ra lo ro lb rb
	auto z = bm::tensordot(y, left, {0, 2, 4}, {0, 1, 2});                             // ra ro rb
	return bm::tensordot(z, right, {0, 1, 2}, {0, 1, 2}).v[0];
}
// the operator that does nothing, with edges of size one
template <class T>
ArrT<T> identity(const ArrT<T> &a)
{
	int64_t L = a.shape.size() - 2;
	idx s{1};
	for (int64_t i = 0; i < L; ++i)
		s.push_back(a.shape[1 + i]);
	s.push_back(1);
	for (int64_t i = 0; i < L; ++i)
		s.push_back(a.shape[1 + i]);
	ArrT<T> o(s);
	int64_t n = prod(s), d = 1;
	for (int64_t i = 0; i < L; ++i)
		d *= a.shape[1 + i];
	for (int64_t i = 0; i < d; ++i)
		o.v[i * d + i] = 1;
	(void)n;
	return o;
}
template <class T>
T value(mc::Ctx &c, const torch::Tensor &t)
{
	REQUIRE(t.dim() == 0, "the result has rank ", t.dim());
	return from_torch<T>(t).v[0];
}
template <class T>
T value(mc::Ctx &c, const btensor &t)
{
	REQUIRE(t.dim() == 0, "the result has rank ", t.dim());
	valid(c, t, "result");
	return assemble<T>(t).v[0];
}
template <class T, class M>
void intact(mc::Ctx &c, const M &m, const ChainT<T> &ch, const char *w)
{
	for (size_t i = 0; i < ch.size(); ++i)
		REQUIRE(close(arr<T>(m[i]), ch[i].a, 0), w, " changed at site ", i);
}
// edges: none given, or given; with_op: through an operator
template <class B, class T>
void contraction(mc::Ctx &c, const ChainT<T> &A_, const ChainT<T> &O_, const ChainT<T> &B_, const RefT<T> &left, const RefT<T> &right, bool given, bool with_op)
{
	auto A = make_chain<B, T, typename B::mps>(A_), Bs = make_chain<B, T, typename B::mps>(B_);
	c.step();
	T got, want;
	auto sa = dense_state(arrays(A_)), sb = dense_state(arrays(B_));
	double scale = 1;
	if (with_op)
	{
		auto O = make_chain<B, T, typename B::mpo>(O_);
		if (given)
		{
			auto l = make_tens<B>(left), r = make_tens<B>(right);
			got = value<T>(c, contract(A, Bs, O, l, r));
			REQUIRE(close(arr<T>(l), left.a, 0) && close(arr<T>(r), right.a, 0), "edge changed");
		}
		else
			got = value<T>(c, contract(A, Bs, O));
		auto o = dense_operator(arrays(O_));
		want = reference(sa, o, sb, left.a, right.a);
		for (auto &x : o.v)
			scale = std::max(scale, std::abs(x));
		intact(c, O, O_, "operator");
	}
	else
	{
		auto edge2 = [](const RefT<T> &r) { // without the dimension of the operator
			auto x = r;
			x.a.shape.erase(x.a.shape.begin() + 1);
			if (B::block)
			{
				x.s.legs.erase(x.s.legs.begin() + 1);
				for (auto &p : x.present)
					p.erase(p.begin() + 1);
			}
			return x;
		};
		if (given)
		{
			auto l = make_tens<B>(edge2(left)), r = make_tens<B>(edge2(right));
			got = value<T>(c, contract(A, Bs, l, r));
		}
		else
			got = value<T>(c, contract(A, Bs));
		want = reference(sa, identity(sa), sb, left.a, right.a);
	}
	intact(c, A, A_, "first state");
	intact(c, Bs, B_, "second state");
	for (auto &x : sa.v)
		scale = std::max(scale, std::abs(x));
	double s2 = 1;
	for (auto &x : sb.v)
		s2 = std::max(s2, std::abs(x));
	REQUIRE(std::abs(got - want) <= 1e-11 * scale * s2 * sa.v.size(), "got ", got, ", expected ", want);
	c.state(mc::hash_str(mc::cat(want, " ", sa.v.size())));
}
template <class T>
void eye_edge(RefT<T> &e)
{ // (a, 1, b): identity between a and b
	for (int64_t i = 0; i < e.a.shape[0]; ++i)
		for (int64_t o = 0; o < e.a.shape[1]; ++o)
			for (int64_t j = 0; j < e.a.shape[2]; ++j)
				e.a({i, o, j}) = i == j;
}
template <class T>
void plain_contraction(mc::Ctx &c)
{
	int L = c.choose(3, "length") + 1;
	auto bonds = plain_bonds(L, false);
	auto &ba = c.pick(bonds, "bonds of a"), &bb = c.pick(bonds, "bonds of b");
	auto p = plain_phys(L, c.choose(3, "physical sizes"));
	bool with_op = c.flip("operator"), given = c.flip("edges given");
	auto &bo = with_op ? c.pick(bonds, "bonds of the operator") : bonds[0];
	int how = c.choose(N_CONTENTS, "content");
	bool deff = c.flip("default element type float");
	ChainT<T> A, B, O;
	for (int i = 0; i < L; ++i)
	{
		A.push_back(plain_ref<T>({ba[i], p[i], ba[i + 1]}, 10 + i));
		B.push_back(plain_ref<T>({bb[i], p[i], bb[i + 1]}, 20 + i));
		O.push_back(plain_ref<T>({bo[i], p[i], bo[i + 1], p[i]}, 30 + i));
		refill(A.back(), how);
	}
	auto l = plain_ref<T>({ba[0], bo[0], bb[0]}, 3), r = plain_ref<T>({ba[L], bo[L], bb[L]}, 4);
	if (!given)
		eye_edge(l), eye_edge(r);
	c.describe(mc::cat("plain ", std::is_same_v<T, double> ? "double" : "complex", " a ", mc::vstr(ba), " b ", mc::vstr(bb), " sites ", mc::vstr(p), with_op ? mc::cat(" operator ", mc::vstr(bo)) : "", given ? " edges given" : "", " content ", how, deff ? " default float" : ""));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(deff ? torch::kFloat : torch::kDouble));
	contraction<Plain>(c, A, O, B, l, r, given, with_op);
}
template <class T>
void block_contraction(mc::Ctx &c)
{
	auto specs = chain_specs(c.thorough);
	auto &spec = c.pick(specs, "structure");
	auto &k = *spec.k;
	int L = c.choose(3, "length") + 1;
	auto sb = spec, so = spec;
	int vb = c.choose(8, "the other state");
	if (vb & 1)
		sb.sector = qm::add(k, sb.sector, charges(spec.phys[0]).front() == qm::zero(k) ? charges(spec.phys[0]).back() : charges(spec.phys[0]).front());
	if (vb & 2)
		sb.pattern = (sb.pattern + 1) % 5;
	if (vb & 4)
		sb.where = (sb.where + 1) % 3;
	bool with_op = c.flip("operator"), given = c.flip("edges given");
	so.open = false;
	int vo = with_op ? c.choose(4, "sector of the operator") : 0;
	so.sector = vo == 0 ? qm::zero(k) : vo == 1 ? qm::add(k, sb.sector, qm::inv(k, spec.sector)) : charges(spec.phys[0]).back();
	so.where = vo == 2 ? 0 : vo == 3 ? 2 : 1;
	auto ha = chain_shapes(spec, L), hb = chain_shapes(sb, L), ho = chain_shapes(so, L, true);
	int odd = c.choose(with_op ? 3 : 2, "which has missing blocks");
	ChainT<T> A, B, O;
	std::string w;
	for (int i = 0; i < L; ++i)
	{
		auto bl = [&](const Shape &s, int me) {
			auto all = blocks_allowed(k, s);
			if (odd != me || i != L / 2)
				return all;
			auto r = choose_few(c, all);
			if (odd && r.size() == all.size())
				c.skip();
			if (r.size() < all.size())
				w = mc::cat(me == 0 ? " a" : me == 1 ? " b" : " operator", " site ", i, " stores only", present_str(r));
			return r;
		};
		A.push_back(make_ref<T>(k, ha[i], bl(ha[i], 0), 20 + i));
		B.push_back(make_ref<T>(k, hb[i], bl(hb[i], 1), 30 + i));
		O.push_back(make_ref<T>(k, ho[i], bl(ho[i], 2), 40 + i));
	}
	auto flip = [&](const Leg &l) { return inv(k, l); };
	Leg lo = with_op ? ho[0].legs[0] : Leg{{1, qm::zero(k)}}, ro = with_op ? ho[L - 1].legs[2] : Leg{{1, qm::zero(k)}};
	Shape ls{{flip(ha[0].legs[0]), flip(lo), hb[0].legs[0]}, qm::zero(k)}, rs{{flip(ha[L - 1].legs[2]), flip(ro), hb[L - 1].legs[2]}, qm::zero(k)};
	if (given && c.flip("right edge carries a quantity"))
	{ // the one that lets its first block be stored
		Val q = qm::zero(k);
		for (auto &x : rs.legs)
			q = qm::add(k, q, x[0].q);
		if (q == qm::zero(k))
			c.skip();
		rs.rule = q;
	}
	auto l = make_ref<T>(k, ls, blocks_allowed(k, ls), 3), r = make_ref<T>(k, rs, given ? choose_few(c, blocks_allowed(k, rs)) : blocks_allowed(k, rs), 4);
	if (!given)
	{ // identity between the edges of the two states, which have the same sections or a single element
		eye_edge(l);
		eye_edge(r);
	}
	c.describe(mc::cat("conserving ", std::is_same_v<T, double> ? "double " : "complex ", str(spec), " length ", L, " other ", str(sb), with_op ? mc::cat(" operator ", str(so)) : "", w, given ? " edges given" : ""));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kDouble));
	contraction<Block>(c, A, O, B, l, r, given, with_op);
}
// two neighbouring sites inside of a chain: the local operator, acting on the local state between the contracted
// rests of the chain, gives the number of the whole chain at every bond
template <class B, class T>
void two_sites(mc::Ctx &c, const ChainT<T> &A_, const ChainT<T> &O_, int bond, const RefT<T> &lenv, const RefT<T> &renv, const T &whole, double scale)
{
	auto A = make_chain<B, T, typename B::mps>(A_);
	auto O = make_chain<B, T, typename B::mpo>(O_);
	c.step();
	auto H2 = details::compute_2sitesHamil(O);
	REQUIRE(H2.size() + 1 == A_.size(), "number of two site operators");
	for (size_t i = 0; i + 1 < A_.size(); ++i)
	{
		auto want = permute(bm::tensordot(O_[i].a, O_[i + 1].a, {2}, {0}), {0, 1, 3, 4, 2, 5});
		REQUIRE(close(arr<T>(H2[i]), want, 1e-12), "two site operator ", i);
		if constexpr (B::block)
			valid(c, H2[i], "two site operator");
	}
	auto two = bm::tensordot(A_[bond].a, A_[bond + 1].a, {2}, {0});
	auto psi = quantit::tensordot(A[bond], A[bond + 1], {2}, {0});
	auto l = make_tens<B>(lenv), r = make_tens<B>(renv);
	auto Hpsi = details::hamil2site_times_state(psi, H2[bond], l, r);
	// (la lo lb) (la p q ra) (lo p' q' ro p q) (ra ro rb)
	auto x = bm::tensordot(lenv.a, two, {0}, {0});                                      // lo lb p q ra
	auto y = bm::tensordot(x, arr<T>(H2[bond]), {0, 2, 3}, {0, 4, 5});                  // lb ra p' q' ro
	auto want = bm::tensordot(y, renv.a, {1, 4}, {0, 1});                               // lb p' q' rb
	REQUIRE(close(arr<T>(Hpsi), want, 1e-10 * scale), "the operator applied to the local state");
	if constexpr (B::block)
		valid(c, Hpsi, "the operator applied to the local state");
	auto n = value<T>(c, quantit::tensordot(Hpsi, psi.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));
	REQUIRE(std::abs(n - whole) <= 1e-10 * scale, "at bond ", bond, ": ", n, ", the whole chain gives ", whole);
	c.state(mc::hash_str(mc::cat(whole, bond)));
	intact(c, A, A_, "state");
	intact(c, O, O_, "operator");
}
// environments of the model: contraction of the sites on either side of a bond
template <class T>
ArrT<T> env_left(const ChainT<T> &A, const ChainT<T> &O, int n)
{
	ArrT<T> e({1, 1, 1}, T(1));
	for (int i = 0; i < n; ++i)
	{
		auto x = bm::tensordot(e, A[i].a, {0}, {0});                                               // o b p a
		auto y = bm::tensordot(x, O[i].a, {0, 2}, {0, 3});                                         // b a p' o
		e = permute(bm::tensordot(y, A[i].a.map([](T z) { return cj(z); }), {0, 2}, {0, 1}), {0, 1, 2}); // a o b
	}
	return e;
}
template <class T>
ArrT<T> env_right(const ChainT<T> &A, const ChainT<T> &O, int n)
{
	ArrT<T> e({1, 1, 1}, T(1));
	for (int i = (int)A.size() - 1; i >= n; --i)
	{
		auto x = bm::tensordot(A[i].a, e, {2}, {0});                                       // a p o b
		auto y = bm::tensordot(x, O[i].a, {1, 2}, {3, 2});                                 // a b o p'
		e = bm::tensordot(y, A[i].a.map([](T z) { return cj(z); }), {1, 3}, {2, 1});       // a o b
	}
	return e;
}
template <class T>
void plain_two_sites(mc::Ctx &c)
{
	int L = c.choose(3, "length") + 2, bond = c.choose(L - 1, "bond");
	auto bonds = plain_bonds(L, false);
	std::vector<idx> closed;
	for (auto b : bonds)
	{
		b[0] = b[L] = 1;
		closed.push_back(b);
	}
	auto &ba = c.pick(closed, "bonds"), &bo = c.pick(closed, "bonds of the operator");
	auto p = plain_phys(L, c.choose(3, "physical sizes"));
	ChainT<T> A, O;
	for (int i = 0; i < L; ++i)
	{
		A.push_back(plain_ref<T>({ba[i], p[i], ba[i + 1]}, 10 + i));
		O.push_back(plain_ref<T>({bo[i], p[i], bo[i + 1], p[i]}, 30 + i));
	}
	c.describe(mc::cat("two sites at bond ", bond, ", plain ", std::is_same_v<T, double> ? "double" : "complex", " state ", mc::vstr(ba), " operator ", mc::vstr(bo), " sites ", mc::vstr(p)));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kDouble));
	RefT<T> l{nullptr, {}, {}, env_left(A, O, bond)}, r{nullptr, {}, {}, env_right(A, O, bond + 2)};
	auto s = dense_state(arrays(A));
	auto o = dense_operator(arrays(O));
	ArrT<T> one({1, 1, 1}, T(1));
	double scale = 1;
	for (auto &x : s.v)
		scale += std::norm(x);
	double m = 1;
	for (auto &x : o.v)
		m = std::max(m, std::abs(x));
	two_sites<Plain>(c, A, O, bond, l, r, reference(s, o, s, one, one), scale * m * 10);
}
template <class T>
void block_two_sites(mc::Ctx &c)
{
	auto specs = chain_specs(c.thorough);
	auto &spec = c.pick(specs, "structure");
	if (spec.open)
		c.skip();
	auto &k = *spec.k;
	int L = c.choose(c.thorough ? 3 : 2, "length") + 2, bond = c.choose(L - 1, "bond");
	auto so = spec;
	so.sector = qm::zero(k);
	auto ha = chain_shapes(spec, L), ho = chain_shapes(so, L, true);
	ChainT<T> A, O;
	std::string w;
	bool on_op = c.flip("operator has missing blocks");
	for (int i = 0; i < L; ++i)
	{
		auto bl = [&](const Shape &s, bool me) {
			auto all = blocks_allowed(k, s);
			if (!me || i != bond)
				return all;
			auto r = choose_few(c, all);
			if (on_op && r.size() == all.size())
				c.skip();
			if (r.size() < all.size())
				w = mc::cat(on_op ? " operator" : " state", " site ", i, " stores only", present_str(r));
			return r;
		};
		A.push_back(make_ref<T>(k, ha[i], bl(ha[i], !on_op), 20 + i));
		O.push_back(make_ref<T>(k, ho[i], bl(ho[i], on_op), 40 + i));
	}
	c.describe(mc::cat("two sites at bond ", bond, ", conserving ", std::is_same_v<T, double> ? "double " : "complex ", str(spec), " length ", L, w));
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kDouble));
	// the environments as block tensors: all the blocks their rule allows
	auto as_ref = [&](const ArrT<T> &e, const Shape &s) {
		auto r = make_ref<T>(k, s, blocks_allowed(k, s), 0);
		for (size_t i = 0; i < e.v.size(); ++i)
		{
			REQUIRE(e.v[i] == T(0) || r.a.v[i] != T(0), "model: an environment element outside of the allowed blocks");
			r.a.v[i] = e.v[i];
		}
		return r;
	};
	auto flip = [&](const Leg &l) { return inv(k, l); };
	Leg al = ha[bond].legs[0], ol = ho[bond].legs[0], ar = ha[bond + 1].legs[2], orr = ho[bond + 1].legs[2];
	auto sum = [&](int from, int to) {
		Val q = qm::zero(k);
		for (int i = from; i < to; ++i)
			q = qm::add(k, q, ho[i].rule);
		return q;
	};
	auto l = as_ref(env_left(A, O, bond), {{flip(al), flip(ol), al}, sum(0, bond)});
	auto r = as_ref(env_right(A, O, bond + 2), {{flip(ar), flip(orr), ar}, sum(bond + 2, L)});
	auto s = dense_state(arrays(A));
	auto o = dense_operator(arrays(O));
	ArrT<T> one({1, 1, 1}, T(1));
	double scale = 1;
	for (auto &x : s.v)
		scale += std::norm(x);
	double m = 1;
	for (auto &x : o.v)
		m = std::max(m, std::abs(x));
	two_sites<Block>(c, A, O, bond, l, r, reference(s, o, s, one, one), scale * m * 10);
}
} // namespace
MC_SUITE(plain_double) { plain_contraction<double>(c); }
MC_SUITE(plain_complex) { plain_contraction<Cx>(c); }
MC_SUITE(block_double) { block_contraction<double>(c); }
MC_SUITE(block_complex) { block_contraction<Cx>(c); }
MC_SUITE(two_sites_plain_double) { plain_two_sites<double>(c); }
MC_SUITE(two_sites_plain_complex) { plain_two_sites<Cx>(c); }
MC_SUITE(two_sites_block_double) { block_two_sites<double>(c); }
MC_SUITE(two_sites_block_complex) { block_two_sites<Cx>(c); }
int main(int argc, char **argv) { return mc::main_(argc, argv); }
