// C18: ground state search: variational, and exact when nothing limits it
#include "dmrgh.h"
#include "models.h"
#include "rng.h"
#undef mt19937
mc_rng::Driver mc_rng::driver = nullptr;
using namespace bm;
using namespace quantit;
namespace
{
// ---------------------------------------------------------------- the two by two problem
template <class B>
typename B::tens scalar(Cx x, torch::ScalarType t)
{
	torch::Tensor o = c10::isComplexType(t) ? torch::full({}, c10::complex<double>(x.real(), x.imag()), torch::kComplexDouble).to(t) : torch::full({}, x.real(), torch::kDouble).to(t);
	if constexpr (B::block)
	{
		btensor b({}, kZ().make({0}), torch::TensorOptions().dtype(t));
		b.block({}) = o;
		return b;
	}
	else
		return o;
}
template <class X>
Cx value(const X &t)
{
	auto z = t.item().toComplexDouble();
	return {z.real(), z.imag()};
}
template <class B>
void two_by_two(mc::Ctx &c)
{
	const std::vector<double> diag{0, 1, -1, 2.5, -2.5, 1e-8, 1e8, -1e8, 1 + 1e-9, 40};
	std::vector<Cx> off{0, 0.5, -0.5, 3, 1e-6, 1e-12, 1e8, 1e-30};
	int type = c.choose(4, "type");
	static const torch::ScalarType types[] = {torch::kDouble, torch::kComplexDouble, torch::kFloat, torch::kComplexFloat};
	auto t = types[type];
	if (c10::isComplexType(t))
		off.push_back(Cx(0.3, 0.4)), off.push_back(Cx(0, -2)), off.push_back(Cx(-1e-5, 1e-5));
	double a0 = c.pick(diag, "a0"), a1 = c.pick(diag, "a1");
	Cx b = c.pick(off, "b");
	if (type >= 2)
		a0 = (float)a0, a1 = (float)a1, b = Cx((float)b.real(), (float)b.imag());
	if (type >= 2 && b == Cx(1e-30f))
		c.skip(); // the square isn't a number of that type
	c.describe(mc::cat("[[", a0, ", conj ", b, "], [", b, ", ", a1, "]] type ", c10::toString(t)));
	c.step();
	auto [E_, o_, n_] = details::eig2x2Mat(scalar<B>(a0, t), scalar<B>(a1, t), scalar<B>(b, t));
	REQUIRE(E_.dim() == 0 && o_.dim() == 0 && n_.dim() == 0, "ranks");
	auto E = value(E_), o = value(o_), n = value(n_);
	long double d = ((long double)a0 - a1) / 2, bb = std::abs(b);
	double want = double(((long double)a0 + a1) / 2 - std::sqrt(d * d + bb * bb)), scale = std::abs(a0) + std::abs(a1) + std::abs(b);
	double eps = type >= 2 ? 1e-5 : 1e-13;
	REQUIRE(std::abs(E - want) <= eps * scale, "eigenvalue ", E, ", expected ", want);
	REQUIRE(std::abs(std::norm(o) + std::norm(n) - 1) <= eps, "norm of the vector (", o, ", ", n, ")");
	REQUIRE(std::abs(a0 * o + std::conj(b) * n - want * o) <= 4 * eps * scale && std::abs(b * o + a1 * n - want * n) <= 4 * eps * scale, "(", o, ", ", n, ") is not an eigenvector");
	c.state(mc::hash_str(mc::cat(want, o, n)));
}
MC_SUITE(two_by_two_plain) { two_by_two<Plain>(c); }
MC_SUITE(two_by_two_block) { two_by_two<Block>(c); }
// ---------------------------------------------------------------- one step of Lanczos on two sites
template <class B, class T>
void lanczos(mc::Ctx &c)
{
	auto hs = hams<T>(true);
	if (B::block)
		hs.erase(std::remove_if(hs.begin(), hs.end(), [](auto &h) { return !h.k; }), hs.end());
	auto &h = c.pick(hs, "model");
	auto &e = exact(h, 2);
	std::vector<idx> configs;
	each({h.d(0), h.d(1)}, [&](const idx &i) { configs.push_back(i); });
	std::vector<Val> secs{qm::zero(h.k ? *h.k : kZ())};
	if (h.k)
	{
		secs.clear();
		for (auto &x : e.by_sector)
			secs.push_back(x.first);
	}
	int w = c.choose(configs.size() + secs.size(), "state"), where = c.choose(3, "sector carried by");
	auto st = w < (int)configs.size() ? product_state(h, configs[w], where) : generic_state(h, 2, secs[w - configs.size()], where, 1, w);
	auto hc = operator_chain(h, 2);
	if (!B::block)
		st = without_kind(st), hc = without_kind(hc);
	auto v = vector_of(st);
	double n = std::sqrt(norm2(v));
	c.describe(mc::cat(h.name, " state ", w, " ", bm::str(st)));
	if (n == 0)
		c.skip();
	for (auto &x : st[0].a.v)
		x /= n;
	for (auto &x : v)
		x /= n;
	auto s = make_chain<B, T, typename B::mps>(st);
	auto H = make_chain<B, T, typename B::mpo>(hc);
	c.step();
	auto H2 = details::compute_2sitesHamil(H);
	REQUIRE(H2.size() == 1, "number of two site operators");
	auto two = tensordot(s[0], s[1], {2}, {0});
	auto two_before = arr<T>(two);
	auto conj_two = [&]() {
		if constexpr (B::block)
			return two.inverse_cvals();
		else
			return two;
	}();
	auto L = details::trivial_edge(two, H2[0], conj_two, 0, 0, 0), R = details::trivial_edge(two, H2[0], conj_two, 3, 3, 3);
	for (auto &x : {L, R})
	{
		auto a = arr<T>(x);
		REQUIRE(a.shape == (idx{1, 1, 1}) && std::abs(a.v[0] - T(1)) == 0, "trivial edge");
	}
	auto Hpsi = arr<T>(details::hamil2site_times_state(two, H2[0], L, R));
	auto [p_, a0_, a1_, b_] = details::one_step_lanczos(two, H2[0], L, R);
	REQUIRE(close(arr<T>(two), two_before, 0), "the state changed");
	auto p = arr<T>(p_);
	std::vector<T> hv(v.size());
	for (size_t i = 0; i < v.size(); ++i)
		for (size_t j = 0; j < v.size(); ++j)
			hv[i] += e.h(i, j) * v[j];
	double scale = 1 + e.norm, tol = 1e-11 * scale;
	REQUIRE(Hpsi.v.size() == hv.size(), "size of H psi");
	for (size_t i = 0; i < hv.size(); ++i)
		REQUIRE(std::abs(Hpsi.v[i] - hv[i]) < tol, "H psi: element ", i, " is ", Hpsi.v[i], ", expected ", hv[i]);
	double a0 = expectation(e.h, v), b = 0;
	for (size_t i = 0; i < hv.size(); ++i)
		b += std::norm(hv[i] - a0 * v[i]);
	b = std::sqrt(b);
	auto ga0 = value(a0_), ga1 = value(a1_), gb = value(b_);
	REQUIRE(std::abs(ga0 - a0) < tol, "a0 is ", ga0, ", expected ", a0);
	REQUIRE(std::abs(gb - b) < tol, "b is ", gb, ", expected ", b);
	if (b > 1e-9)
	{
		T overlap(0);
		for (size_t i = 0; i < v.size(); ++i)
		{
			overlap += cj(v[i]) * p.v[i];
			T x = (hv[i] - a0 * v[i]) / b;
			REQUIRE(std::abs(p.v[i] - x) < 1e-9 * scale, "next vector: element ", i, " is ", p.v[i], ", expected ", x);
		}
		REQUIRE(std::abs(overlap) < 1e-11 * scale && std::abs(norm2(p.v) - 1) < 1e-11, "overlap ", overlap, ", norm ", norm2(p.v));
		REQUIRE(std::abs(ga1 - expectation(e.h, p.v)) < tol, "a1 is ", ga1, ", expected ", expectation(e.h, p.v));
	}
	c.state(mc::hash_str(mc::cat(h.name, a0, " ", b)));
}
MC_SUITE(lanczos_plain) { lanczos<Plain, double>(c); }
MC_SUITE(lanczos_plain_complex) { lanczos<Plain, Cx>(c); }
MC_SUITE(lanczos_block) { lanczos<Block, double>(c); }
MC_SUITE(lanczos_block_complex) { lanczos<Block, Cx>(c); }
// ---------------------------------------------------------------- runs
std::vector<idx> all_configs(const idx &d)
{
	std::vector<idx> o;
	each(d, [&](const idx &i) { o.push_back(i); });
	return o;
}
// A plain state is obtained from the conserving one: the basis of its bonds is then made of states with well defined
// charges, even those of weight zero.
template <class B, class T>
typename B::mps canonical_state(const ChainT<T> &st, int centre)
{
	auto canonical = [&](auto s) {
		s.move_oc(s.size() - 1);
		s.move_oc(0);
		s.move_oc(centre);
		return s;
	};
	if constexpr (!B::block)
		if (st[0].k)
		{
			ChainT<T> o;
			for (auto &a : arrays_of<T>(canonical_state<Block, T>(st, centre)))
				o.push_back(RefT<T>{nullptr, {}, {}, a});
			return make_chain<B, T, typename B::mps>(o, centre);
		}
	return canonical(make_chain<B, T, typename B::mps>(st, 0));
}
template <class B, class T>
typename B::mpo operator_of(const Ham<T> &h, int L)
{
	auto o = operator_chain(h, L);
	return make_chain<B, T, typename B::mpo>(B::block ? o : without_kind(o));
}
template <class T>
struct Begin
{
	Ham<T> h;
	int L, centre;
	ChainT<T> st;
	Val sector;
	std::string what;
};
template <class T>
Begin<T> begin(mc::Ctx &c, bool need_kind, int max_L)
{
	auto hs = hams<T>(c.thorough);
	if (need_kind)
		hs.erase(std::remove_if(hs.begin(), hs.end(), [](auto &h) { return !h.k; }), hs.end());
	Begin<T> o;
	o.L = c.choose(max_L - 1, "length") + 2;
	o.h = c.pick(hs, "model");
	c.shard();
	idx d;
	for (int i = 0; i < o.L; ++i)
		d.push_back(o.h.d(i));
	auto configs = all_configs(d);
	if (o.L > 3 && !c.thorough)
	{ // one in a few, of every sector
		std::vector<idx> some;
		for (size_t i = 0; i < configs.size(); i += 3)
			some.push_back(configs[i]);
		configs = some;
	}
	std::vector<Val> secs{qm::zero(o.h.k ? *o.h.k : kZ())};
	if (o.h.k)
	{
		secs.clear();
		for (auto &x : exact(o.h, o.L).by_sector)
			secs.push_back(x.first);
	}
	int w = c.choose(configs.size() + secs.size(), "initial state");
	o.centre = c.choose(o.L, "centre");
	if (w < (int)configs.size())
	{
		o.st = product_state(o.h, configs[w], w % 3);
		o.sector = qm::zero(o.h.k ? *o.h.k : kZ());
		for (int i = 0; i < o.L; ++i)
			o.sector = qm::add(o.h.k ? *o.h.k : kZ(), o.sector, state_charges(o.h.leg(i))[configs[w][i]]);
		o.what = "product " + mc::vstr(configs[w]);
	}
	else
	{
		o.sector = secs[w - configs.size()];
		o.st = generic_state(o.h, o.L, o.sector, w % 3, 1, w * 5);
		o.what = "generic " + qm::str(o.sector);
	}
	o.what = mc::cat(o.h.name, " on ", o.L, " sites from ", o.what, " centre ", o.centre);
	return o;
}
// weight of a state in the space of the lowest eigenvalue
template <class T>
double ground_weight(const Mat<T> &h, const std::vector<T> &v, const std::vector<int64_t> &keep)
{
	auto m = restricted(h, keep);
	Mat<T> vec(keep.size(), keep.size());
	auto val = hermitian_eigenvalues(m, &vec);
	double lo = *std::min_element(val.begin(), val.end()), w = 0;
	for (size_t j = 0; j < val.size(); ++j)
		if (val[j] < lo + 1e-9)
		{
			T x(0);
			for (size_t i = 0; i < keep.size(); ++i)
				x += cj(vec(i, j)) * v[keep[i]];
			w += std::norm(x);
		}
	return w / norm2(v);
}
template <class B, class T>
void variational(mc::Ctx &c)
{
	auto b = begin<T>(c, B::block, c.thorough ? 5 : 4);
	static const std::vector<dmrg_options> menu{options(1e-13, 0, UNLIMITED, 1, 2), options(1e-13, 0, 1, 1, 2), options(1e-13, 1e-4, 2, 1, 5), options(0.1, 1e-4, UNLIMITED, 1, 5), options(0.4, 1e-4, 3, 2, 3)};
	auto o = c.pick(menu, "options");
	c.describe(mc::cat(b.what, ", ", bm::str(o)));
	auto &e = exact(b.h, b.L);
	auto v = vector_of(b.st);
	if (norm2(v) == 0)
		c.skip();
	auto s = canonical_state<B, T>(b.st, b.centre);
	auto H = operator_of<B, T>(b.h, b.L);
	Recorder<B, T> log;
	c.step();
	double E = value(dmrg(H, s, o, log)).real();
	double scale = 1 + e.norm, tol = 1e-10 * scale, lo = B::block ? e.by_sector.at(b.sector).front() : e.all.front();
	REQUIRE(E >= lo - tol, "energy ", E, " below the ground state ", lo);
	bool free = o.maximum_bond == UNLIMITED && o.cutoff < 1e-6;
	double last = expectation(e.h, v) / norm2(v);
	for (auto &call : log.calls)
		if (call.what != 'i')
		{
			REQUIRE(call.E.real() >= lo - tol, "energy ", call.E.real(), " in sweep ", call.step, " below the ground state ", lo);
			if (free)
				REQUIRE(call.E.real() <= last + tol, "energy ", call.E.real(), " in sweep ", call.step, " above ", last);
			last = call.E.real();
		}
	for (auto &sn : log.snaps)
	{
		double m = expectation(e.h, dense_state(sn.sites).v);
		REQUIRE(m >= lo - tol, "expectation value ", m, " below the ground state ", lo);
		c.state(mc::hash_str(mc::cat(b.h.name, b.L, std::llround(m * 1e6))));
	}
}
MC_SUITE(variational_plain) { variational<Plain, double>(c); }
MC_SUITE(variational_block) { variational<Block, double>(c); }
MC_SUITE(variational_plain_complex) { variational<Plain, Cx>(c); }
MC_THOROUGH_SUITE(variational_block_complex) { variational<Block, Cx>(c); }
template <class B, class T>
void convergence(mc::Ctx &c)
{
	auto b = begin<T>(c, B::block, c.thorough ? 5 : 4);
	auto o = options(1e-13, 1e-12, UNLIMITED, 1, 400);
	c.describe(mc::cat(b.what, ", ", bm::str(o)));
	auto &e = exact(b.h, b.L);
	auto v = vector_of(b.st);
	if (norm2(v) == 0)
		c.skip();
	std::vector<int64_t> keep;
	for (size_t i = 0; i < v.size(); ++i)
		if (!b.h.k || e.sector[i] == b.sector)
			keep.push_back(i);
	double w = ground_weight(e.h, v, keep);
	if (w < 1e-7)
		c.skip();
	auto s = canonical_state<B, T>(b.st, b.centre);
	auto H = operator_of<B, T>(b.h, b.L);
	Recorder<B, T> log;
	c.step();
	double E = value(dmrg(H, s, o, log)).real();
	double scale = 1 + e.norm, tol = 1e-6 * scale, lo = b.h.k ? e.by_sector.at(b.sector).front() : e.all.front();
	// nothing keeps a plain state in its sector but the Hamiltonian: the rounding errors that leave it grow when there's a lower energy outside
	double least = B::block ? lo : e.all.front();
	REQUIRE(E < lo + tol && E > least - tol, "energy ", E, " after ", log.calls.size() - 2, " sweeps, the ground state has ", lo, ", weight ", w);
	c.state(mc::hash_str(mc::cat(b.h.name, b.L, log.calls.size(), std::llround(E * 1e6))));
}
MC_SUITE(convergence_plain) { convergence<Plain, double>(c); }
MC_SUITE(convergence_block) { convergence<Block, double>(c); }
MC_SUITE(convergence_plain_complex) { convergence<Plain, Cx>(c); }
// ---------------------------------------------------------------- the plain and the conserving searches
template <class T>
void agreement(mc::Ctx &c)
{
	auto b = begin<T>(c, true, c.thorough ? 5 : 4);
	auto o = options(1e-13, 0, UNLIMITED, 1, 3);
	c.describe(b.what);
	if (norm2(vector_of(b.st)) == 0)
		c.skip();
	auto s1 = canonical_state<Plain, T>(b.st, b.centre);
	auto s2 = canonical_state<Block, T>(b.st, b.centre);
	auto H1 = operator_of<Plain, T>(b.h, b.L);
	auto H2 = operator_of<Block, T>(b.h, b.L);
	Recorder<Plain, T> l1;
	Recorder<Block, T> l2;
	c.step();
	dmrg(H1, s1, o, l1);
	dmrg(H2, s2, o, l2);
	// When a state gets close to a local eigenstate, the next direction of the search is made of rounding errors. Those
	// searches are recognised by the effect of a change of the initial state that's of the size of the rounding errors.
	auto st3 = b.st;
	int n = 0;
	for (auto &site : st3)
		for (auto &x : site.a.v)
			x *= 1 + 3e-14 * ((n++ * 7) % 5 - 2);
	auto s3 = canonical_state<Plain, T>(st3, b.centre);
	Recorder<Plain, T> l3;
	dmrg(H1, s3, o, l3);
	auto &e = exact(b.h, b.L);
	double scale = 1 + e.norm;
	for (size_t i = 0; i < std::min(l1.calls.size(), l2.calls.size()); ++i)
	{
		if (i < l3.calls.size() && std::abs(l1.calls[i].E - l3.calls[i].E) > 1e-11 * scale)
			c.skip();
		if (i > 0)
		{ // the rounding errors outside of the sector grow too
			auto v = dense_state(l1.snaps[i - 1].sites).v;
			double out = 0;
			for (size_t j = 0; j < v.size(); ++j)
				if (e.sector[j] != b.sector)
					out += std::norm(v[j]);
			if (out > 1e-12)
				c.skip();
		}
		REQUIRE(std::abs(l1.calls[i].E - l2.calls[i].E) < 1e-8 * scale, "call ", i, ": energies ", l1.calls[i].E, " plain, ", l2.calls[i].E, " conserving");
	}
	c.state(mc::hash_str(mc::cat(b.h.name, b.L, std::llround(l1.calls.back().E.real() * 1e6))));
}
MC_SUITE(agreement_real) { agreement<double>(c); }
MC_SUITE(agreement_complex) { agreement<Cx>(c); }
} // namespace
int main(int argc, char **argv) { return mc::main_(argc, argv); }
