// C17: ground state search: the energy and the state agree, the state is what it claims to be
#include "dmrgh.h"
#include "rng.h"
#undef mt19937
mc_rng::Driver mc_rng::driver = nullptr;
using namespace bm;
using namespace quantit;
namespace
{
template <class B, class T>
struct Start
{
	Ham<T> h;
	int L;
	ChainT<T> chain;
	typename B::mps s;
	std::string what;
};
std::vector<idx> all_configs(const idx &d)
{
	std::vector<idx> o;
	each(d, [&](const idx &i) { o.push_back(i); });
	return o;
}
template <class B, class T>
Start<B, T> choose_start(mc::Ctx &c, const Ham<T> &h, int L, bool all_products)
{
	Start<B, T> o{h, L, {}, {}, ""};
	idx d;
	for (int i = 0; i < L; ++i)
		d.push_back(h.d(i));
	auto configs = all_configs(d);
	if (!all_products)
		configs = {configs.front(), configs[configs.size() / 3], configs[configs.size() / 2]};
	std::vector<Val> secs{qm::zero(h.k ? *h.k : kZ())};
	if (h.k)
	{
		auto &e = exact(h, L);
		secs.clear();
		for (auto &x : e.by_sector)
			secs.push_back(x.first);
		if (!all_products && secs.size() > 3)
			secs = {secs[0], secs[1], secs[secs.size() / 2]};
	}
	int patterns = 5, n = configs.size() + secs.size() * patterns;
	int w = c.choose(n, "initial state");
	int where = !B::block ? 0 : c.thorough || std::is_same_v<T, double> ? c.choose(3, "sector carried by") : w % 3;
	int centre = c.choose(L, "centre");
	if (w < (int)configs.size())
	{
		o.chain = product_state(h, configs[w], where, T(w % 3 == 0 ? 1 : w % 3 == 1 ? -0.25 : 3));
		o.what = "product " + mc::vstr(configs[w]);
	}
	else
	{
		w -= configs.size();
		o.chain = generic_state(h, L, secs[w / patterns], where, w % patterns, 7 * w);
		o.what = mc::cat("generic ", qm::str(secs[w / patterns]), " bonds ", w % patterns);
	}
	if (!B::block)
		o.chain = without_kind(o.chain);
	o.s = make_chain<B, T, typename B::mps>(o.chain, 0);
	o.s.move_oc(L - 1);
	o.s.move_oc(0);
	o.s.move_oc(centre);
	o.what += mc::cat(" where ", where, " centre ", centre);
	return o;
}
template <class B>
std::vector<btensor> edges_of(const typename B::mps &s)
{
	std::vector<btensor> o;
	if constexpr (B::block)
	{
		o.push_back(s[0]);
		o.push_back(s[s.size() - 1]);
	}
	return o;
}
// same sizes and quantities on a leg
bool same_leg(const btensor &a, const btensor &b, size_t d)
{
	if (a.section_number(d) != b.section_number(d))
		return false;
	for (size_t i = 0; i < a.section_number(d); ++i)
		if (a.section_size(d, i) != b.section_size(d, i) || !(a.section_conserved_qtt(d, i) == b.section_conserved_qtt(d, i)))
			return false;
	return true;
}
any_quantity total(const bMPS &s)
{
	// the quantity that the physical legs hold: the rules, less both edges
	any_quantity q = s[0].selection_rule->neutral();
	for (auto &t : s)
		q += (any_quantity)(const any_quantity &)t.selection_rule;
	q += s[0].section_conserved_qtt(0, 0).inverse();
	q += s[s.size() - 1].section_conserved_qtt(2, 0).inverse();
	return q;
}
double sqr(double x) { return x * x; }
template <class T>
double cx(T x) { return std::abs(x); }
// everything that must hold of a run
template <class B, class T>
void check_run(mc::Ctx &c, Start<B, T> &st, dmrg_options o, bool as_float)
{
	auto &h = st.h;
	int L = st.L;
	auto &e = exact(h, L);
	double scale = 1 + e.norm, tol = as_float ? 2e-4 : 1e-9;
	auto H = make_chain<B, T, typename B::mpo>(operator_chain(h, L));
	if constexpr (!B::block)
		H = make_chain<B, T, typename B::mpo>(without_kind(operator_chain(h, L)));
	auto ftype = std::is_same_v<T, double> ? torch::kFloat : torch::kComplexFloat, dtype = dtype_of<T>();
	if (as_float)
		st.s.to_(ftype), H.to_(ftype);
	auto before_H = arrays_of<T>(H);
	auto v0 = dense_state(arrays_of<T>(st.s)).v;
	double n0 = norm2(v0), e0 = expectation(e.h, v0) / n0;
	size_t centre = st.s.orthogonality_center;
	bool limited = true;
	{ // a limit on the bonds that can have an effect
		int64_t left = 1, all = 1, full = 1;
		for (int i = 0; i < L; ++i)
			all *= h.d(i);
		for (int i = 0; i + 1 < L; ++i)
			left *= h.d(i), full = std::max(full, std::min(left, all / left));
		limited = o.maximum_bond < (size_t)full;
	}
	double cut = 8 * scale * o.cutoff;
	decltype(st.s) initial(st.s);
	auto keep = st.s; // shares the tensors of the initial state
	Recorder<B, T> log;
	c.step();
	auto E_ = dmrg(H, st.s, o, log);
	REQUIRE(E_.dim() == 0, "the energy has rank ", E_.dim());
	auto z = E_.item().toComplexDouble();
	Cx Ez(z.real(), z.imag());
	double E = Ez.real();
	REQUIRE(std::abs(Ez.imag()) <= tol * scale, "complex energy ", Ez);
	// the Hamiltonian
	for (int i = 0; i < L; ++i)
	{
		REQUIRE(close(arr<T>(H[i]), before_H[i], 0), "the Hamiltonian changed at site ", i);
		REQUIRE(c10::typeMetaToScalarType(H[i].options().dtype()) == (as_float ? ftype : dtype), "the Hamiltonian changed type at site ", i);
	}
	// the state
	REQUIRE((int)st.s.size() == L && st.s.check_ranks(), "the sites do not fit together");
	REQUIRE((size_t)st.s.orthogonality_center == centre, "the centre moved from ", centre, " to ", (size_t)st.s.orthogonality_center);
	auto fin = snap<B, T>(st.s);
	for (int i = 0; i < L; ++i)
	{
		REQUIRE(c10::typeMetaToScalarType(st.s[i].options().dtype()) == (as_float ? ftype : dtype), "the state changed type at site ", i);
		REQUIRE(fin.sites[i].shape[1] == h.d(i), "physical size of site ", i);
	}
	if constexpr (B::block)
	{
		for (int i = 0; i < L; ++i)
		{
			valid(c, st.s[i], mc::cat("site ", i));
			REQUIRE(same_leg(st.s[i], initial[i], 1), "physical leg of site ", i);
			REQUIRE(!i || same_leg(st.s[i - 1], st.s[i].inverse_cvals(), 2) || st.s[i - 1].section_number(2) == st.s[i].section_number(0), "bond ", i);
		}
		REQUIRE(st.s[0].section_number(0) == 1 && st.s[L - 1].section_number(2) == 1, "edges");
		REQUIRE(total(st.s) == total(initial), "the sector changed");
	}
	REQUIRE(fin.sites[0].shape[0] == 1 && fin.sites[L - 1].shape[2] == 1, "edges");
	auto v = dense_state(fin.sites).v;
	if (h.k && B::block)
	{
		std::set<Val> in;
		for (size_t i = 0; i < v.size(); ++i)
			if (std::abs(v0[i]) > 0)
				in.insert(e.sector[i]);
		for (size_t i = 0; i < v.size(); ++i)
			REQUIRE(std::abs(v[i]) == 0 || in.count(e.sector[i]), "a component left the sector");
	}
	if (o.maximum_iterations == 0)
	{
		REQUIRE(norm2(v) > 0 && std::abs(norm2(v) - n0) <= tol * n0, "the norm changed without an iteration");
		for (size_t i = 0; i < v.size(); ++i)
			REQUIRE(std::abs(v[i] - v0[i]) <= tol * std::sqrt(n0), "the state changed without an iteration");
		REQUIRE(std::abs(E - e0) <= tol * scale, "energy ", E, " without an iteration, that of the state is ", e0);
		return;
	}
	canonical(c, fin, "final state", tol);
	double mean = expectation(e.h, v) / norm2(v);
	if (!limited)
		REQUIRE(std::abs(mean - E) <= tol * scale + cut, "energy ", E, ", expectation value of the final state ", mean);
	REQUIRE(E >= e.all.front() - tol * scale && E <= e.all.back() + tol * scale, "energy ", E, " out of the spectrum");
	// every sweep
	double last = e0;
	REQUIRE(log.snaps.size() >= 2, "no iteration was seen");
	for (size_t i = 0; i < log.snaps.size(); ++i)
	{
		auto &s = log.snaps[i];
		auto w = mc::cat(i + 1 == log.snaps.size() ? "end, call " : "iteration ", i);
		canonical(c, s, w, tol);
		auto x = dense_state(s.sites).v;
		double Ei = 0;
		size_t k = 0;
		for (auto &call : log.calls)
			if (call.what != 'i' && k++ == i)
				Ei = call.E.real();
		double m = expectation(e.h, x);
		if (!limited)
		{
			REQUIRE(std::abs(m - Ei) <= tol * scale + cut, w, ": energy ", Ei, ", expectation value of the state ", m);
			REQUIRE(Ei <= last + tol * scale + 4 * L * cut, w, ": the energy went up from ", last, " to ", Ei);
		}
		last = Ei;
		if (!B::block || !h.degenerate)
			for (auto b : log.bonds[i])
				REQUIRE((size_t)b <= std::max<size_t>(o.maximum_bond, 1), w, ": bond of size ", b);
		c.state(mc::hash_str(mc::cat(h.name, L, (long long)std::llround(m * 1e6), mc::vstr(log.bonds[i]), s.oc)));
	}
}
std::vector<dmrg_options> limits(bool thorough, int L)
{
	std::vector<dmrg_options> o;
	// the number of sweeps, with nothing in the way
	for (size_t n : {0, 1, 3})
		o.push_back(options(1e-13, 0, UNLIMITED, 1, n));
	o.push_back(options(1e-13, 0, UNLIMITED, 4, 2));
	o.push_back(options(1e-13, 0, 2, 1, 2));
	o.push_back(options(1e-13, 1e-3, 1, 1, 4));
	o.push_back(options(0.05, 1e-3, UNLIMITED, 2, 4));
	if (thorough)
	{
		o.push_back(options(0, 0, UNLIMITED, 0, 2));
		o.push_back(options(1e-13, 0, 3, 3, 2));
		o.push_back(options(1e-13, 0, 2, 4, 1));
		o.push_back(options(0.3, 1e-2, 3, 1, 6));
		o.push_back(options(1e-6, 1e-5, UNLIMITED, 4, 40));
	}
	return o;
}
template <class B, class T>
void runs(mc::Ctx &c, bool as_float)
{
	auto hs = hams<T>(c.thorough);
	if (B::block)
		hs.erase(std::remove_if(hs.begin(), hs.end(), [](auto &h) { return !h.k; }), hs.end());
	int L = c.choose(c.thorough ? 4 : 3, "length") + 2;
	auto &h = c.pick(hs, "model");
	bool all = as_float ? false : c.thorough ? L < 4 : L == 2 || (L == 3 && !B::block);
	auto o = c.pick(limits(c.thorough, L), "options");
	if (as_float)
		o.cutoff = std::max(o.cutoff, 1e-6);
	if (L == 5 && o.maximum_iterations > 3)
		o.maximum_iterations = 3;
	c.shard();
	auto st = choose_start<B, T>(c, h, L, all);
	c.describe(mc::cat(h.name, " on ", L, " sites, from ", st.what, ", ", bm::str(o), " ", bm::str(st.chain)));
	auto n = norm2(vector_of(st.chain));
	if (n == 0)
		c.skip();
	check_run(c, st, o, as_float);
}
MC_SUITE(plain) { runs<Plain, double>(c, false); }
MC_SUITE(plain_complex) { runs<Plain, Cx>(c, false); }
MC_SUITE(block) { runs<Block, double>(c, false); }
MC_SUITE(block_complex)
{
	runs<Block, Cx>(c, false);
}
MC_SUITE(plain_float) { runs<Plain, double>(c, true); }
MC_THOROUGH_SUITE(block_float) { runs<Block, double>(c, true); }
// ---------------------------------------------------------------- from a random state
mc::Ctx *ctx = nullptr;
int draws = 0, free_draws = 0;
uint64_t lcg = 0;
double draw()
{
	if (++draws > free_draws)
		return double((lcg = lcg * 6364136223846793005ull + 1442695040888963407ull) >> 11) / double(1ull << 53);
	return (ctx->choose(3, "draw") + 0.5) / 3;
}
struct Control
{
	Control(mc::Ctx &c, int n)
	{
		ctx = &c, draws = 0, free_draws = n, lcg = 12345;
		mc_rng::driver = draw;
	}
	~Control() { mc_rng::driver = nullptr; }
};
template <class B, class T>
void from_random(mc::Ctx &c)
{
	auto hs = hams<T>(c.thorough);
	if (B::block)
		hs.erase(std::remove_if(hs.begin(), hs.end(), [](auto &h) { return !h.k; }), hs.end());
	auto &h = c.pick(hs, "model");
	int L = c.choose(c.thorough ? 4 : 3, "length") + 2;
	auto &e = exact(h, L);
	auto wide = dtype_of<T>(), narrow = std::is_same_v<T, double> ? torch::kFloat : torch::kComplexFloat;
	int type = c.choose(2, "element type"); // of the Hamiltonian
	bool deff = (c.thorough || !B::block) && c.flip("default type float");
	size_t min_bond = c.choose(c.thorough ? 5 : 3, "minimum bond") * (c.thorough ? 1 : 2); // 0 is accepted
	size_t max_bond = c.flip("limited") ? 2 : UNLIMITED;
	size_t sweeps = c.choose(2) ? 3 : 1;
	Val q = qm::zero(h.k ? *h.k : kZ());
	if (B::block)
	{
		std::vector<Val> secs;
		for (auto &x : e.by_sector)
			secs.push_back(x.first);
		q = c.pick(secs, "sector");
	}
	c.shard();
	auto o = options(type ? 1e-6 : 1e-13, 0, max_bond, min_bond, sweeps);
	c.describe(mc::cat(h.name, " on ", L, " sites, sector ", qm::str(q), type ? " narrow" : " wide", deff ? " default float" : "", ", ", bm::str(o)));
	auto chain = operator_chain(h, L);
	auto H = make_chain<B, T, typename B::mpo>(B::block ? chain : without_kind(chain));
	auto dtype = type ? narrow : wide;
	H.to_(dtype);
	auto old = torch::get_default_dtype();
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(deff ? torch::kFloat : torch::kDouble));
	struct Back
	{
		caffe2::TypeMeta t;
		~Back() { torch::set_default_dtype(t); }
	} back{old};
	torch::manual_seed(3);
	typename B::tens E_;
	typename B::mps s;
	c.step();
	{
		Control ctl(c, c.thorough ? 3 : 1);
		if constexpr (B::block)
			std::tie(E_, s) = dmrg(H, h.k->make(q), o);
		else
			std::tie(E_, s) = dmrg(H, o);
	}
	double tol = type ? 2e-4 : 1e-9, scale = 1 + e.norm;
	auto z = E_.item().toComplexDouble();
	double E = z.real();
	REQUIRE(std::abs(z.imag()) < tol * scale, "complex energy");
	REQUIRE((int)s.size() == L && s.check_ranks(), "the sites do not fit together");
	auto fin = snap<B, T>(s);
	for (int i = 0; i < L; ++i)
	{
		REQUIRE(c10::typeMetaToScalarType(s[i].options().dtype()) == dtype, "the type of site ", i, " is not that of the Hamiltonian");
		REQUIRE(fin.sites[i].shape[1] == h.d(i), "physical size of site ", i);
	}
	canonical(c, fin, "final state", tol);
	auto v = dense_state(fin.sites).v;
	if constexpr (B::block)
	{
		for (int i = 0; i < L; ++i)
			valid(c, s[i], mc::cat("site ", i));
		for (size_t i = 0; i < v.size(); ++i)
			REQUIRE(std::abs(v[i]) == 0 || e.sector[i] == q, "the state has a component in sector ", qm::str(e.sector[i]));
	}
	double m = expectation(e.h, v), lo = B::block ? e.by_sector.at(q).front() : e.all.front();
	REQUIRE(E >= lo - tol * scale && m >= lo - tol * scale, "energies ", E, " and ", m, " below the ground state ", lo);
	if (max_bond == UNLIMITED)
		REQUIRE(std::abs(E - m) < tol * scale + 8 * scale * o.cutoff, "energy ", E, ", expectation value ", m);
	c.state(mc::hash_str(mc::cat(h.name, L, (long long)std::llround(m * 1e3))));
}
MC_SUITE(random_plain) { from_random<Plain, double>(c); }
MC_SUITE(random_plain_complex) { from_random<Plain, Cx>(c); }
MC_SUITE(random_block) { from_random<Block, double>(c); }
MC_THOROUGH_SUITE(random_block_complex) { from_random<Block, Cx>(c); }
// ---------------------------------------------------------------- what cannot be searched
template <class B>
void refusal(mc::Ctx &c)
{
	auto h = hams<double>(false)[0];
	int LH = c.choose(4, "sites of the Hamiltonian"), LS = c.choose(4, "sites of the state"), zero = c.choose(5, "null sites"), given = c.flip("state given");
	int sweeps = c.choose(2);
	c.describe(mc::cat("Hamiltonian of ", LH, " sites, state of ", LS, ", ", zero ? mc::cat("null at ", zero - 1) : "", given ? " given" : " random", ", ", sweeps, " sweeps"));
	if ((!given && LS) || (zero && (!given || zero > LS)))
		c.skip();
	auto chain = LH ? operator_chain(h, LH) : ChainT<double>{};
	auto state = LS ? product_state(h, idx(LS, 0), 0) : ChainT<double>{};
	if (zero)
	{
		refill(state[zero - 1], ZERO);
		state[zero - 1].present.clear();
	}
	auto H = make_chain<B, double, typename B::mpo>(B::block ? chain : without_kind(chain));
	auto before = arrays_of<double>(H);
	typename B::mps s;
	if (LS)
		s = make_chain<B, double, typename B::mps>(B::block ? state : without_kind(state));
	dmrg_options o(1e-12, 0., UNLIMITED, 2, sweeps);
	bool fine = LH >= 2 && (!given || (LH == LS && !zero));
	c.step();
	bool refused = false;
	try
	{
		if (given)
			dmrg(H, s, o);
		else if constexpr (B::block)
			dmrg(H, h.k->make({LH}), o);
		else
			dmrg(H, o);
	}
	catch (std::invalid_argument &)
	{
		refused = true;
	}
	REQUIRE(refused != fine, fine ? "refused" : "accepted");
	auto after = arrays_of<double>(H);
	for (size_t i = 0; i < after.size(); ++i)
		REQUIRE(close(after[i], before[i], 0), "the Hamiltonian changed");
	if (refused && given)
	{
		REQUIRE((int)s.size() == LS, "the state changed size");
		for (int i = 0; i < LS; ++i)
			REQUIRE(close(arr<double>(s[i]), state[i].a, 0), "the state changed");
		REQUIRE(LS == 0 || (size_t)s.orthogonality_center == 0, "the centre moved");
	}
}
MC_SUITE(refused_plain) { refusal<Plain>(c); }
MC_SUITE(refused_block) { refusal<Block>(c); }
} // namespace
int main(int argc, char **argv) { return mc::main_(argc, argv); }
