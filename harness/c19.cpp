// C19: what a ground state search reports, its options, and the derivatives it was asked for
#include "dmrgh.h"
#include "rng.h"
#undef mt19937
mc_rng::Driver mc_rng::driver = nullptr;
using namespace bm;
using namespace quantit;
namespace
{
// ---------------------------------------------------------------- the options
bool same(const dmrg_options &a, double cutoff, double conv, size_t max, size_t min, size_t its, bool sg, bool hg)
{
	return a.cutoff == cutoff && a.convergence_criterion == conv && a.maximum_bond == max && a.minimum_bond == min && a.maximum_iterations == its && a.state_gradient == sg && a.hamil_gradient == hg;
}
MC_SUITE(option_values)
{
	const std::vector<double> reals{0, 1e-6, 1e-5, 0.25, 3};
	const std::vector<size_t> sizes{0, 1, 4, 1000, UNLIMITED};
	int ctor = c.choose(6, "constructor"), copy = c.choose(5, "copied");
	double cut = 1e-6, conv = 1e-5;
	size_t max = UNLIMITED, min = 4, its = 1000;
	bool sg = false, hg = false;
	dmrg_options o;
	if (ctor == 1)
		cut = c.pick(reals, "cutoff"), conv = c.pick(reals, "criterion"), o = dmrg_options(cut, conv);
	if (ctor == 2)
		max = c.pick(sizes, "max"), min = c.pick(sizes, "min"), its = c.pick(sizes, "its"), o = dmrg_options(max, min, its);
	if (ctor >= 3)
	{
		cut = c.pick(reals, "cutoff"), conv = c.pick(reals, "criterion"), max = c.pick(sizes, "max"), min = c.pick(sizes, "min"), its = c.pick(sizes, "its");
		if (ctor == 3)
			o = dmrg_options(cut, conv, max, min, its);
		if (ctor >= 4)
			sg = c.flip("state gradient");
		if (ctor == 4)
			o = dmrg_options(cut, conv, max, min, its, sg);
		if (ctor == 5)
			hg = c.flip("hamiltonian gradient"), o = dmrg_options(cut, conv, max, min, its, sg, hg);
	}
	dmrg_options p(cut + 1, conv + 1, 7, 8, 9, !sg, !hg);
	if (copy == 1)
		p = o;
	else if (copy == 2)
		p = std::move(o);
	dmrg_options q = copy == 0 ? o : copy == 3 ? dmrg_options(o) : copy == 4 ? dmrg_options(std::move(o)) : p;
	c.describe(mc::cat("constructor ", ctor, " copy ", copy, " ", str(q)));
	c.step();
	REQUIRE(same(q, cut, conv, max, min, its, sg, hg), "values of the options");
	c.state(mc::hash_str(mc::cat(ctor, " ", str(q), sg, hg)));
}
// ---------------------------------------------------------------- runs
template <class B, class T>
struct Run
{
	Ham<T> h;
	int L, centre;
	ChainT<T> chain;
	std::string what;
	typename B::mps state() const
	{
		auto s = make_chain<B, T, typename B::mps>(B::block ? chain : without_kind(chain), 0);
		s.move_oc(L - 1);
		s.move_oc(0);
		s.move_oc(centre);
		return s;
	}
	typename B::mpo hamiltonian() const
	{
		auto o = operator_chain(h, L);
		return make_chain<B, T, typename B::mpo>(B::block ? o : without_kind(o));
	}
};
template <class B, class T>
Run<B, T> start(mc::Ctx &c, int min_L, int max_L, bool generic_only = false)
{
	auto hs = hams<T>(c.thorough);
	if (B::block)
		hs.erase(std::remove_if(hs.begin(), hs.end(), [](auto &h) { return !h.k; }), hs.end());
	if (generic_only) // the singular values are distinct
		hs.erase(std::remove_if(hs.begin(), hs.end(), [](auto &h) { return !B::block ? bool(h.k) : h.name == "null" || h.name == "constant" || h.name == "field up"; }), hs.end());
	Run<B, T> o;
	o.L = c.choose(max_L - min_L + 1, "length") + min_L;
	o.h = c.pick(hs, "model");
	c.shard();
	idx d;
	for (int i = 0; i < o.L; ++i)
		d.push_back(o.h.d(i));
	std::vector<idx> configs;
	int64_t n = 0;
	if (!generic_only)
		each(d, [&](const idx &i) {
			if (n++ % (o.L > 2 ? o.L * 2 - 1 : 1) == 0)
				configs.push_back(i);
		});
	std::vector<Val> secs{qm::zero(o.h.k ? *o.h.k : kZ())};
	if (o.h.k)
	{
		secs.clear();
		for (auto &x : exact(o.h, o.L).by_sector)
			secs.push_back(x.first);
	}
	int w = c.choose(configs.size() + secs.size(), "initial state");
	o.centre = c.choose(o.L, "centre");
	if (w < (int)configs.size())
		o.chain = product_state(o.h, configs[w], w % 3), o.what = "product " + mc::vstr(configs[w]);
	else
	{
		auto &s = secs[w - configs.size()];
		o.chain = generic_state(o.h, o.L, s, w % 3, generic_only ? 2 : 1, w * 5), o.what = "generic " + qm::str(s);
	}
	o.what = mc::cat(o.h.name, " on ", o.L, " sites from ", o.what, " centre ", o.centre);
	if (norm2(vector_of(o.chain)) == 0)
		c.skip();
	return o;
}
template <class X>
Cx value(const X &t)
{
	auto z = t.item().toComplexDouble();
	return {z.real(), z.imag()};
}
template <class M>
idx bonds_of(const M &s)
{
	idx o;
	for (auto &t : s)
		o.push_back(t.sizes()[0]), o.push_back(t.sizes()[2]);
	return o;
}
// only what a logger can't do without
struct Low : public dmrg_logger
{
	struct Entry
	{
		char what; // 'i', 's', 'e', 'b'
		size_t n;
		Cx E;
		idx bonds;
	};
	std::vector<Entry> all;
	void init(const dmrg_options &o) override { all.push_back({'i', o.maximum_iterations, {o.cutoff, o.convergence_criterion}, {(int64_t)o.maximum_bond, (int64_t)o.minimum_bond}}); }
	void log_step(size_t n) override { all.push_back({'s', n, {}, {}}); }
	void log_energy(const torch::Tensor &E) override { all.push_back({'e', 0, value(E), {}}); }
	void log_energy(const btensor &E) override { all.push_back({'e', 0, value(E), {}}); }
	void log_bond_dims(const MPS &s) override { all.push_back({'b', 0, {}, bonds_of(s)}); }
	void log_bond_dims(const bMPS &s) override { all.push_back({'b', 0, {}, bonds_of(s)}); }
};
const std::vector<dmrg_options> &menu()
{
	static const std::vector<dmrg_options> o{options(1e-13, 1e-5, UNLIMITED, 1, 0), options(1e-13, 1e-5, UNLIMITED, 1, 1), options(1e-13, 1e-5, UNLIMITED, 4, 2), options(1e-13, 1e-2, UNLIMITED, 1, 30), options(1e-13, 1e-7, UNLIMITED, 4, 60), options(0.2, 1e-3, 2, 1, 20), options(1e-13, 1e9, UNLIMITED, 1, 5)};
	return o;
}
// the number of sweeps that a sequence of energies explains
template <class B>
void sweeps(mc::Ctx &c, const std::vector<Cx> &E, const dmrg_options &o, double scale)
{
	REQUIRE(E.size() <= o.maximum_iterations, E.size(), " iterations");
	double eps = 1e-12 * scale;
	for (size_t i = 0; i < E.size(); ++i)
	{
		bool last = i + 1 == E.size();
		if (B::block && last && E[i] == Cx(0))
			continue; // nothing is larger than a fraction of that
		if (i == 0)
		{ // there's no previous energy to compare the first one with
			if (last)
				REQUIRE(o.maximum_iterations == 1 || o.convergence_criterion >= 1, "stopped after a single iteration, energy ", E[0]);
			continue;
		}
		double diff = std::abs(E[i] - E[i - 1]), rel = diff / std::abs(E[i]); // either will do, nan stops the iterations.
		if (!last)
			REQUIRE(!(diff < o.convergence_criterion - eps && !(rel > o.convergence_criterion * 0.999999)), "went on after iteration ", i, " with energies ", E[i - 1], ", ", E[i]);
		else if (E.size() < o.maximum_iterations)
			REQUIRE(diff <= o.convergence_criterion + eps || !(rel > o.convergence_criterion * 1.000001), "stopped after iteration ", i, " with energies ", E[i - 1], ", ", E[i]);
	}
}
template <class B, class T>
void calls(mc::Ctx &c)
{
	auto r = start<B, T>(c, 2, c.thorough ? 4 : 3);
	auto o = c.pick(menu(), "options");
	c.describe(mc::cat(r.what, ", ", str(o)));
	auto s = r.state();
	auto H = r.hamiltonian();
	double scale = 1 + exact(r.h, r.L).norm;
	Recorder<B, T> log;
	c.step();
	auto E = value(dmrg(H, s, o, log));
	auto &a = log.calls;
	REQUIRE(a.size() >= 2, a.size(), " calls of the logger");
	size_t n = a.size() - 2;
	std::vector<Cx> energies;
	for (size_t i = 0; i < a.size(); ++i)
	{
		REQUIRE(a[i].what == (i == 0 ? 'i' : i == n + 1 ? 'e' : 'o'), "call ", i, " of ", n + 2, " is ", a[i].what);
		if (a[i].what == 'o')
		{
			REQUIRE(a[i].step == i - 1, "iteration ", i - 1, " is reported as ", a[i].step);
			energies.push_back(a[i].E);
		}
	}
	REQUIRE(a.back().step == (n ? n - 1 : 0), "the end reports iteration ", a.back().step, " after ", n);
	REQUIRE(a.back().E == E, "returns ", E, ", reported ", a.back().E);
	if (n)
		REQUIRE(energies.back() == E, "the last iteration reported ", energies.back(), ", returned ", E);
	else
		REQUIRE(o.maximum_iterations == 0, "no iteration");
	sweeps<B>(c, energies, o, scale);
	auto end = arrays_of<T>(s);
	REQUIRE(end.size() == log.snaps.back().sites.size(), "sites");
	for (size_t i = 0; i < end.size(); ++i)
		REQUIRE(close(end[i], log.snaps.back().sites[i], 0), "site ", i, " isn't the reported one");
	REQUIRE(log.snaps.back().oc == (size_t)r.centre && (size_t)s.orthogonality_center == (size_t)r.centre, "centre ", s.orthogonality_center, ", reported ", log.snaps.back().oc);
	if (n)
	{ // the last iteration saw the same state, up to the position of the centre
		auto u = dense_state(log.snaps[n - 1].sites).v, v = dense_state(end).v;
		double d = 0;
		for (size_t i = 0; i < v.size(); ++i)
			d = std::max(d, std::abs(u[i] - v[i]));
		REQUIRE(d < 1e-10, "the state of the last iteration differs from the final one by ", d);
	}
	// the elementary reports say the same
	auto s2 = r.state();
	Low low;
	auto E2 = value(dmrg(H, s2, o, low));
	REQUIRE(E2 == E, "another logger, another energy: ", E2, ", ", E);
	REQUIRE(low.all.size() == 1 + 3 * (n + 1), low.all.size(), " reports for ", n, " iterations");
	auto &i0 = low.all[0];
	REQUIRE(i0.what == 'i' && i0.n == o.maximum_iterations && i0.E == Cx(o.cutoff, o.convergence_criterion) && i0.bonds == (idx{(int64_t)o.maximum_bond, (int64_t)o.minimum_bond}), "the options given to init");
	for (size_t i = 0; i <= n; ++i)
	{
		auto *x = &low.all[1 + 3 * i];
		REQUIRE(x[0].what == 's' && x[1].what == 'e' && x[2].what == 'b', "order of the reports");
		REQUIRE(x[0].n == a[i + 1].step && x[1].E == a[i + 1].E, "iteration ", i, " reports step ", x[0].n, " energy ", x[1].E);
		idx b;
		for (auto &site : log.snaps[i].sites)
			b.push_back(site.shape[0]), b.push_back(site.shape[2]);
		REQUIRE(x[2].bonds == b, "iteration ", i, " reports bonds ", mc::vstr(x[2].bonds), ", expected ", mc::vstr(b));
	}
	c.state(mc::hash_str(mc::cat(r.h.name, r.L, " ", n, " ", std::llround(E.real() * 1e6))));
}
MC_SUITE(calls_plain) { calls<Plain, double>(c); }
MC_SUITE(calls_plain_complex) { calls<Plain, Cx>(c); }
MC_SUITE(calls_block) { calls<Block, double>(c); }
MC_SUITE(calls_block_complex) { calls<Block, Cx>(c); }
// ---------------------------------------------------------------- the loggers of the library
template <class B, class T>
void loggers(mc::Ctx &c)
{
	auto r = start<B, T>(c, 2, c.thorough ? 4 : 3);
	auto o = c.pick(menu(), "options");
	int which = c.choose(4, "logger");
	c.describe(mc::cat(r.what, ", ", str(o), " logger ", which));
	auto s = r.state(), s2 = r.state();
	auto H = r.hamiltonian();
	Low low;
	auto E = value(dmrg(H, s, o, low));
	size_t n = (low.all.size() - 1) / 3 - 1;
	size_t pos = r.L / 2;
	auto middle = [&](const idx &b) { return (size_t)std::max(b[2 * pos], b[2 * pos + 1]); };
	c.step();
	Cx E2;
	if (which == 0)
		E2 = value(dmrg(H, s2, o));
	else if (which == 1)
	{
		dmrg_default_logger l;
		E2 = value(dmrg(H, s2, o, l));
	}
	else if (which == 2)
	{
		dmrg_log_simple l;
		E2 = value(dmrg(H, s2, o, l));
		REQUIRE(l.it_num == (n ? n - 1 : 0), "step ", l.it_num, " after ", n);
		REQUIRE(l.middle_bond_dim == middle(low.all.back().bonds), "middle bond ", l.middle_bond_dim, ", expected ", middle(low.all.back().bonds));
	}
	else
	{
		dmrg_log_sweeptime l;
		auto t0 = std::chrono::steady_clock::now();
		E2 = value(dmrg(H, s2, o, l));
		double total = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), sum = 0;
		REQUIRE(l.it_num == (n ? n - 1 : 0), "step ", l.it_num, " after ", n);
		REQUIRE(l.middle_bond_dim == middle(low.all.back().bonds), "middle bond ", l.middle_bond_dim);
		REQUIRE(l.time_list.size() == o.maximum_iterations && l.bond_list.size() == o.maximum_iterations, "sizes of the lists: ", l.time_list.size(), ", ", l.bond_list.size());
		for (size_t i = 0; i < l.time_list.size(); ++i)
		{
			sum += l.time_list[i];
			if (i < n)
			{
				REQUIRE(l.time_list[i] > 0, "time of iteration ", i, ": ", l.time_list[i]);
				REQUIRE(l.bond_list[i] == middle(low.all[3 + 3 * i].bonds), "bond of iteration ", i, ": ", l.bond_list[i]);
			}
			else
				REQUIRE(l.time_list[i] == 0 && l.bond_list[i] == 0, "iteration ", i, " was never done");
		}
		REQUIRE(sum <= total, "the iterations took ", sum, " s of ", total);
	}
	REQUIRE(E2 == E, "energy ", E2, ", expected ", E);
	auto a = arrays_of<T>(s), b = arrays_of<T>(s2);
	for (size_t i = 0; i < a.size(); ++i)
		REQUIRE(close(a[i], b[i], 0), "site ", i, " depends on the logger");
	REQUIRE((size_t)s.orthogonality_center == (size_t)s2.orthogonality_center, "centre");
	c.state(mc::hash_str(mc::cat(r.h.name, r.L, " ", n, " ", which, middle(low.all.back().bonds))));
}
MC_SUITE(loggers_plain) { loggers<Plain, double>(c); }
MC_SUITE(loggers_block) { loggers<Block, double>(c); }
MC_THOROUGH_SUITE(loggers_plain_complex) { loggers<Plain, Cx>(c); }
MC_THOROUGH_SUITE(loggers_block_complex) { loggers<Block, Cx>(c); }
// the loggers of the library called by hand, on every chain of bonds, in any order of the calls
template <class B>
typename B::mps chain_of(const idx &bonds, bool split)
{
	typename B::mps m(bonds.size() - 1);
	for (size_t i = 0; i + 1 < bonds.size(); ++i)
	{
		if constexpr (B::block)
		{
			auto leg = [&](int64_t n) { return split && n > 1 ? Leg{{1, {0}}, {n - 1, {1}}} : Leg{{n, {0}}}; };
			m[i] = btensor(shape_list(kZ(), {{leg(bonds[i]), leg(2), leg(bonds[i + 1])}, {0}}), kZ().make({0}));
		}
		else
			m[i] = torch::zeros({bonds[i], 2, bonds[i + 1]});
	}
	return m;
}
template <class L, class M, class E>
void call_logger(int how, L &l, size_t it, const E &e, const M &m)
{
	dmrg_logger &b = l; // as dmrg does
	if (how == 0)
		b.log_bond_dims(m);
	else if (how == 1)
		b.log_all(it, e, m);
	else if (how == 2)
		b.it_log_all(it, e, m);
	else if (how == 3)
		b.end_log_all(it, e, m);
	else
		b.log_step(it);
}
template <class B>
void records(mc::Ctx &c)
{
	int L = 2 + c.choose(c.thorough ? 5 : 4, "sites"), which = c.choose(2, "logger");
	c.shard();
	idx bonds;
	for (int i = 0; i <= L; ++i)
		bonds.push_back(1 + c.choose(i == 0 || i == L ? 2 : 3, "bond"));
	bool split = B::block && c.flip("sections");
	auto m = chain_of<B>(bonds, split), trivial = chain_of<B>(idx(L + 1, 1), false);
	auto e = [&] {
		if constexpr (B::block)
		{
			btensor e({}, kZ().make({0}));
			e.block({}) = torch::full({}, -1.5);
			return e;
		}
		else
			return torch::full({}, -1.5);
	}();
	size_t want = std::max(bonds[L / 2], bonds[L / 2 + 1]);
	int first = c.choose(5, "first call"), second = c.choose(5, "second call");
	c.describe(mc::cat("logger ", which, ", chain of bonds ", mc::vstr(bonds), ", calls ", first, " ", second));
	c.step();
	if (which == 0)
	{
		dmrg_log_simple l;
		l.it_num = 77, l.middle_bond_dim = 88;
		size_t step = 77, bond = 88;
		auto next = [&](int how, size_t it, auto &x, size_t b) {
			call_logger(how, l, it, e, x);
			if (how != 0 && how != 2)
				step = it;
			if (how != 2 && how != 4)
				bond = b;
			REQUIRE(l.it_num == step && l.middle_bond_dim == bond, "after call ", how, ": step ", l.it_num, " bond ", l.middle_bond_dim, ", expected ", step, " ", bond);
		};
		next(first, 3, trivial, 1);
		next(second, 5, m, want);
	}
	else
	{
		dmrg_log_sweeptime l;
		dmrg_options o;
		o.maximum_iterations = 8;
		l.init(o);
		l.it_num = 77, l.middle_bond_dim = 88;
		size_t step = 77, bond = 88;
		std::vector<size_t> list(8, 0);
		auto next = [&](int how, size_t it, auto &x, size_t b) {
			call_logger(how, l, it, e, x);
			if (how != 0)
				step = it;
			if (how != 4)
				bond = b;
			if (how == 2)
				list[it] = b;
			REQUIRE(l.it_num == step && l.middle_bond_dim == bond, "after call ", how, ": step ", l.it_num, " bond ", l.middle_bond_dim, ", expected ", step, " ", bond);
			REQUIRE(l.bond_list == list && l.time_list.size() == 8, "after call ", how, ": list of the bonds");
			for (size_t i = 0; i < 8; ++i)
				REQUIRE(list[i] ? l.time_list[i] >= 0 : l.time_list[i] == 0, "time of iteration ", i, ": ", l.time_list[i]);
		};
		next(first, 3, trivial, 1);
		next(second, 7, m, want);
	}
}
MC_SUITE(logger_records_plain) { records<Plain>(c); }
MC_SUITE(logger_records_block) { records<Block>(c); }
// ---------------------------------------------------------------- a logger that fails, at every one of its calls
struct Failure
{
};
struct Failing : public Low
{
	size_t at = 0, n = 0;
	void one()
	{
		if (n++ == at)
			throw Failure();
	}
	void init(const dmrg_options &o) override { one(), Low::init(o); }
	void log_step(size_t k) override { one(), Low::log_step(k); }
	void log_energy(const torch::Tensor &E) override { one(), Low::log_energy(E); }
	void log_energy(const btensor &E) override { one(), Low::log_energy(E); }
	void log_bond_dims(const MPS &s) override { one(), Low::log_bond_dims(s); }
	void log_bond_dims(const bMPS &s) override { one(), Low::log_bond_dims(s); }
};
void track(torch::Tensor &t) { t.requires_grad_(true); }
void track(btensor &t)
{
	for (auto &b : t)
		std::get<1>(b).requires_grad_(true);
}
void untrack(torch::Tensor &t) { t = t.detach(); }
void untrack(btensor &t)
{
	for (auto &b : t)
		untrack(std::get<1>(b));
}
void times(torch::Tensor &t, const torch::Tensor &x) { t = t * x; }
void times(btensor &t, const torch::Tensor &x)
{
	for (auto &b : t)
		times(std::get<1>(b), x);
}
bool tracked(const torch::Tensor &t) { return t.requires_grad(); }
bool tracked(const btensor &t)
{
	bool all = true, any = false;
	for (auto &b : t)
		all = all && std::get<1>(b).requires_grad(), any = any || std::get<1>(b).requires_grad();
	if (all != any && t.begin() != t.end())
		throw std::runtime_error("some of the blocks are tracked");
	return any;
}
template <class B, class T>
void failures(mc::Ctx &c)
{
	auto r = start<B, T>(c, 2, c.thorough ? 4 : 3);
	auto o = options(1e-13, 0, UNLIMITED, 4, 2);
	auto s = r.state();
	auto H = r.hamiltonian();
	int hg = c.choose(3, "tracking");
	Failing log;
	log.at = c.choose(1 + 3 * 3, "failure at");
	c.describe(mc::cat(r.what, ", failure at call ", log.at, " tracking ", hg));
	o.hamil_gradient = hg == 2;
	if (hg == 1)
		for (auto &t : H)
			track(t);
	auto H_before = arrays_of<T>(H);
	auto v0 = dense_state(arrays_of<T>(s)).v;
	double n0 = norm2(v0);
	c.step();
	bool thrown = false;
	try
	{
		dmrg(H, s, o, log);
	}
	catch (Failure)
	{
		thrown = true;
	}
	REQUIRE(thrown == (log.n > log.at), thrown ? "threw" : "the failure was lost");
	if (!thrown)
		c.skip(); // converged before that
	REQUIRE(log.n == log.at + 1, "the logger was called after its failure");
	auto H_after = arrays_of<T>(H);
	for (size_t i = 0; i < H_after.size(); ++i)
		REQUIRE(close(H_after[i], H_before[i], 0) && tracked(H[i]) == (hg == 1), "site ", i, " of the hamiltonian changed");
	for (auto &t : s)
		untrack(t);
	auto sn = snap<B, T>(s);
	if (log.at == 0)
	{
		REQUIRE(sn.oc == (size_t)r.centre, "centre ", sn.oc);
		auto v = dense_state(sn.sites).v;
		for (size_t i = 0; i < v.size(); ++i)
			REQUIRE(v[i] == v0[i], "the state changed before the first sweep");
	}
	else
		canonical(c, sn, mc::cat("after the failure ", log.at), 1e-9);
	c.state(mc::hash_str(mc::cat(r.h.name, r.L, log.at, r.centre, std::llround(1e6 * n0))));
}
MC_SUITE(failures_plain) { failures<Plain, double>(c); }
MC_SUITE(failures_block) { failures<Block, double>(c); }
// ---------------------------------------------------------------- what's tracked
template <class B, class T>
void tracking(mc::Ctx &c)
{
	auto r = start<B, T>(c, 2, 3);
	auto o = options(1e-13, 0, UNLIMITED, 4, c.thorough ? c.choose(3, "sweeps") : 2 * c.choose(2, "sweeps"));
	bool h_before = c.flip("hamiltonian tracked"), s_before = c.flip("state tracked");
	int leaf = h_before || s_before ? c.choose(2, "computed from tracked values") : 0;
	o.hamil_gradient = c.flip("hamiltonian gradient"), o.state_gradient = c.flip("state gradient");
	c.describe(mc::cat(r.what, " ", str(o), " tracked: hamiltonian ", h_before, " state ", s_before, " leaf ", !leaf, " options ", o.hamil_gradient, o.state_gradient));
	auto s = r.state(), plain_s = r.state();
	auto H = r.hamiltonian(), plain_H = r.hamiltonian();
	auto root = torch::ones({}, torch::TensorOptions().dtype(torch::kDouble).requires_grad(true));
	if (h_before)
		for (auto &t : H)
		{
			if (!leaf)
				track(t);
			else
				times(t, root);
		}
	if (s_before)
		for (auto &t : s)
		{
			if (!leaf)
				track(t);
			else
				times(t, root);
		}
	auto H_before = arrays_of<T>(H);
	typename B::mpo H_copy = H;
	c.step();
	auto E = dmrg(H, s, o);
	auto o2 = o;
	o2.hamil_gradient = o2.state_gradient = false;
	auto E2 = dmrg(plain_H, plain_s, o2);
	if (!B::block || value(E) != Cx(0)) // there might not be any block
		REQUIRE(tracked(E) == (o.hamil_gradient || o.state_gradient), "the energy is ", tracked(E) ? "" : "not ", "tracked");
	REQUIRE(value(E) == value(E2), "energy ", value(E), " tracked, ", value(E2), " not");
	auto H_after = arrays_of<T>(H);
	for (size_t i = 0; i < H_after.size(); ++i)
	{
		REQUIRE(close(H_after[i], H_before[i], 0), "site ", i, " of the hamiltonian changed");
		REQUIRE(tracked(H[i]) == h_before, "site ", i, " of the hamiltonian is ", tracked(H[i]) ? "" : "not ", "tracked anymore");
		if constexpr (!B::block)
			REQUIRE(H[i].is_same(H_copy[i]) && H[i].is_leaf() == !(h_before && leaf), "site ", i, " of the hamiltonian isn't the same tensor");
	}
	for (auto &t : s)
	{
		if (s_before)
			REQUIRE(tracked(t), "the state isn't tracked anymore");
		if (!s_before && !o.hamil_gradient && !o.state_gradient)
			REQUIRE(!tracked(t), "the state is tracked");
	}
	for (auto &t : s)
		untrack(t);
	auto a = arrays_of<T>(s), b = arrays_of<T>(plain_s);
	for (size_t i = 0; i < a.size(); ++i)
		REQUIRE(close(a[i], b[i], 0), "site ", i, " depends on the tracking");
	c.state(mc::hash_str(mc::cat(r.h.name, r.L, h_before, s_before, o.hamil_gradient, o.state_gradient, o.maximum_iterations)));
}
MC_SUITE(tracking_plain) { tracking<Plain, double>(c); }
MC_SUITE(tracking_block) { tracking<Block, double>(c); }
// ---------------------------------------------------------------- derivatives, compared with finite differences
// x times a fixed direction; only the elements that aren't null if asked so
void add_to(torch::Tensor &t, const torch::Tensor &x, int seed, bool structure)
{
	auto d = torch::empty(t.sizes(), torch::kDouble);
	auto flat = d.view({-1});
	for (int64_t i = 0; i < flat.numel(); ++i)
		flat[i] = gen(seed, i) / 4;
	if (structure)
		d = d * (t.detach() != 0);
	t = t + x * d;
}
void add_to(btensor &t, const torch::Tensor &x, int seed, bool structure)
{
	for (auto &b : t)
		add_to(std::get<1>(b), x, seed++, structure);
}
template <class B>
void derivative(mc::Ctx &c)
{
	auto r = start<B, double>(c, 2, c.thorough ? 4 : 3, true);
	auto o = options(1e-14, 0, UNLIMITED, 4, c.choose(c.thorough && !B::block ? 5 : 3, "sweeps"));
	int of = c.choose(4, "with respect to"); // the terms of the hamiltonian, all the elements of its tensors, the state, both
	int other = c.choose(B::block ? (c.thorough ? 2 : 1) : (c.thorough ? 8 : 4), "direction");
	c.describe(mc::cat(r.what, " ", str(o), " derivative ", of, " direction ", other));
	auto S0 = r.state();
	auto H0 = r.hamiltonian();
	auto run = [&](torch::Tensor x, bool grad) {
		auto s = S0;
		auto H = H0;
		for (size_t i = 0; of >= 2 && i < s.size(); ++i)
			add_to(s[i], x, 7 + 20 * other + i, false);
		for (size_t i = 0; of != 2 && i < H.size(); ++i)
			add_to(H[i], x, 1000 + 20 * other + i, of == 0);
		auto p = o;
		p.hamil_gradient = grad && of != 2, p.state_gradient = grad && of >= 2;
		return dmrg(H, s, p);
	};
	auto at = [&](double x) { return value(run(torch::full({}, x, torch::kDouble), false)).real(); };
	auto fd = [&](double h) { return (at(h) - at(-h)) / (2 * h); };
	double f1 = fd(1e-4), f2 = fd(5e-5), f = (4 * f2 - f1) / 3;
	double forward = (at(1e-4) - at(0)) / 1e-4, backward = (at(0) - at(-1e-4)) / 1e-4;
	double scale = 1 + exact(r.h, r.L).norm + std::abs(f);
	if (!(std::abs(f1 - f2) < 1e-4 * scale && std::abs(forward - backward) < 1e-1 * scale))
		c.skip(); // not differentiable enough to tell
	c.step();
	auto x = torch::zeros({}, torch::TensorOptions().dtype(torch::kDouble).requires_grad(true));
	auto E = run(x, true);
	REQUIRE(tracked(E), "the energy isn't tracked");
	torch::Tensor y;
	if constexpr (B::block)
		y = E.block({});
	else
		y = E;
	y.backward();
	double g = x.grad().defined() ? x.grad().item().toDouble() : 0;
	REQUIRE(std::abs(g - f) < 2e-4 * scale, "derivative ", g, ", finite difference ", f, " (", f1, ", ", f2, ")");
	c.state(mc::hash_str(mc::cat(r.h.name, r.L, of, o.maximum_iterations, other, std::llround(f * 1e4))));
}
MC_SUITE(derivative_plain) { derivative<Plain>(c); }
MC_SUITE(derivative_block) { derivative<Block>(c); }
} // namespace
int main(int argc, char **argv) { return mc::main_(argc, argv); }
