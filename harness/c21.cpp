// C21: random tensor trains
#include "mps.h"
#include "rng.h"
#undef mt19937
using namespace bm;
namespace mc_rng
{
Driver driver = nullptr;
}
namespace
{
// ---------------------------------------------------------------- the draws are choices
mc::Ctx *ctx = nullptr;
int alternatives = 0; // of a draw
int draws = 0, max_draws = 0;
double draw()
{
	if (++draws > max_draws) // leave it to the real generator
		return -1;
	return (ctx->choose(alternatives, "draw") + 0.5) / alternatives;
}
struct Control
{
	Control(mc::Ctx &c, int n)
	{
		for (max_draws = 0; max_draws < 64 && std::pow(double(n), max_draws + 1) <= (c.thorough ? 70000 : 4100);)
			++max_draws;
		ctx = &c;
		alternatives = n;
		draws = 0;
		mc_rng::driver = n ? draw : nullptr;
	}
	~Control() { mc_rng::driver = nullptr; }
};
int lcm_of(const std::vector<Leg> &l)
{
	int64_t o = 1;
	for (auto &x : l)
		o = std::lcm(o, (int64_t)x.size());
	return o;
}
std::set<Val> reachable(const Kind &k, const std::vector<Leg> &phys)
{
	std::set<Val> o{qm::zero(k)};
	for (auto &p : phys)
	{
		std::set<Val> n;
		for (auto &a : o)
			for (auto &s : p)
				if (s.size)
					n.insert(qm::add(k, a, s.q));
		o = n;
	}
	return o;
}
btensor structure(const Kind &k, const Leg &l, Val rule, torch::TensorOptions opt)
{
	Shape s{{l}, rule.empty() ? qm::zero(k) : rule};
	return btensor(shape_list(k, s), k.make(s.rule), opt);
}
struct Menu
{
	const Kind *k;
	std::vector<Leg> phys; // cycled
	const char *name;
};
std::vector<Menu> menu(bool uniform, bool thorough)
{
	Leg a{{1, {0}}, {1, {1}}}, m{{1, {1}}, {1, {-1}}}, big{{2, {0}}, {3, {1}}}, gap{{1, {0}}, {1, {3}}}, tri{{1, {0}}, {1, {2}}, {1, {3}}}, one{{1, {1}}}, twice{{1, {1}}, {1, {0}}, {1, {1}}}, same{{1, {2}}, {2, {2}}};
	Leg e{{1, {0}}, {1, {1}}, {1, {1}}, {1, {2}}};
	Leg p2{{1, {0}}, {1, {1}}}, c3{{1, {1}}, {1, {2}}}, c3b{{1, {0}}, {2, {2}}}, zc{{1, {0, 1}}, {1, {1, 0}}}, zd{{1, {1, 1}}, {1, {-1, 1}}, {1, {0, 0}}}, far{{1, {0}}, {1, {100}}};
	std::vector<Menu> o;
	if (uniform)
		o = {{&kZ(), {a}, "Z {0,1}"}, {&kZ(), {m}, "Z {1,-1}"}, {&kZ(), {big}, "Z large sections"}, {&kZ(), {gap}, "Z {0,3}"}, {&kZ(), {tri}, "Z {0,2,3}"}, {&kZ(), {one}, "Z {1}"}, {&kZ(), {twice}, "Z {1,0,1}"}, {&kZ(), {same}, "Z {2,2}"}, {&kZ(), {far}, "Z {0,100}"}, {&kC2(), {p2}, "C2 {0,1}"}, {&kC3(), {c3}, "C3 {1,2}"}, {&kC3(), {c3b}, "C3 {0,2}"}, {&kZC2(), {zc}, "ZxC2"}, {&kZC2(), {zd}, "ZxC2 three"}};
	else
		o = {{&kZ(), {a, m}, "Z {0,1},{1,-1}"}, {&kZ(), {a, gap}, "Z {0,1},{0,3}"}, {&kZ(), {tri, a}, "Z {0,2,3},{0,1}"}, {&kZ(), {gap, far, m}, "Z {0,3},{0,100},{1,-1}"}, {&kZ(), {one, a}, "Z {1},{0,1}"}, {&kZ(), {one, same}, "Z {1},{2,2}"}, {&kC3(), {c3, c3b}, "C3"}, {&kC3(), {{{1, {1}}}, c3b}, "C3 {1},{0,2}"}, {&kZC2(), {zc, zd}, "ZxC2"}};
	if (thorough && uniform)
		o.push_back({&kZ(), {e}, "Z electrons"});
	return o;
}
std::vector<Val> targets(const Kind &k, const std::vector<Leg> &phys)
{
	auto r = reachable(k, phys);
	std::vector<Val> o(r.begin(), r.end());
	// everything next to it
	Val unit(k.mods.size(), 0);
	for (size_t i = 0; i < unit.size(); ++i)
	{
		auto u = unit;
		u[i] = 1;
		for (auto &x : r)
			for (auto &v : {u, qm::inv(k, u)})
			{
				auto y = qm::add(k, x, v);
				if (std::find(o.begin(), o.end(), y) == o.end())
					o.push_back(y);
			}
	}
	return o;
}
bMPO identity_like(const Kind &k, const std::vector<Leg> &phys, torch::ScalarType type)
{
	// a chain of operators whose second legs are the physical ones
	std::vector<btensor> v;
	for (auto &p : phys)
	{
		Shape s{{{{1, qm::zero(k)}}, p, {{1, qm::zero(k)}}, bm::inv(k, p)}, qm::zero(k)};
		v.push_back(quantit::ones(shape_list(k, s), k.make(s.rule), type));
	}
	return bMPO(v);
}
// what is asked of a random state
void is_good(mc::Ctx &c, const bMPS &s, const Kind &k, const std::vector<Leg> &phys, const Val &sector, int64_t bond, torch::ScalarType type)
{
	int L = phys.size();
	REQUIRE((int)s.size() == L, "length ", s.size());
	REQUIRE(s.check_ranks(), "the sites do not fit together");
	REQUIRE(!throws([&]() { bMPS again(std::vector<btensor>(s.begin(), s.end())); }), "not a valid chain");
	any_quantity total(k.make(qm::zero(k)));
	std::string st;
	for (int i = 0; i < L; ++i)
	{
		valid(c, s[i], mc::cat("site ", i));
		REQUIRE(s[i].dim() == 3, "rank ", s[i].dim(), " at site ", i);
		REQUIRE(torch::typeMetaToScalarType(s[i].options().dtype()) == type, "element type ", s[i].options().dtype().name(), " at site ", i);
		same_dtype(c, s[i], mc::cat("site ", i));
		// the physical index: sections and quantities as asked
		REQUIRE(s[i].section_number(1) == (int64_t)phys[i].size(), "sections of the physical index of site ", i);
		for (int64_t b = 0; b < (int64_t)phys[i].size(); ++b)
		{
			REQUIRE(s[i].section_size(1, b) == phys[i][b].size, "size of the physical section ", b, " of site ", i);
			REQUIRE(s[i].section_conserved_qtt(1, b) == k.make(phys[i][b].q), "quantity of the physical section ", b, " of site ", i);
		}
		REQUIRE(s[i].sizes()[0] <= (i ? bond : 1) && s[i].sizes()[2] <= (i + 1 < L ? bond : 1), "bonds of site ", i, ": ", s[i].sizes()[0], " ", s[i].sizes()[2], " with at most ", bond);
		REQUIRE(s[i].sizes()[0] >= 1 && s[i].sizes()[2] >= 1, "empty bond at site ", i);
		total *= s[i].selection_rule->get();
		for (auto &b : s[i].blocks())
		{
			auto &t = std::get<1>(b);
			REQUIRE(t.isfinite().all().item().toBool(), "site ", i, " is not finite");
			st += mc::vstr(std::vector<int64_t>(std::get<0>(b).begin(), std::get<0>(b).end())) + mc::vstr(t.sizes().vec());
		}
		st += ";";
	}
	// what enters by the edges counts in the sector
	any_quantity in(s[0].section_conserved_qtt(0, 0)), out(s[L - 1].section_conserved_qtt(2, 0));
	total *= in.inverse();
	total *= out.inverse();
	REQUIRE(total == k.make(qm::norm(k, sector)), "the state is not in the sector");
	REQUIRE((size_t)s.orthogonality_center < s.size(), "orthogonality centre");
	// dense content: only amplitudes of the sector, and not zero
	std::vector<Arr> a;
	for (auto &t : s)
		a.push_back(assemble<double>(t.to(torch::kDouble)));
	auto d = dense_state(a);
	double n2 = 0;
	idx sh;
	for (auto &p : phys)
		sh.push_back(size_of(p));
	int64_t pos = 0;
	each(sh, [&](const idx &e) {
		double x = d.v[pos++];
		if (x == 0)
			return;
		Val q = qm::zero(k);
		for (int i = 0; i < L; ++i)
		{
			int64_t b = 0, r = e[i];
			while (r >= phys[i][b].size)
				r -= phys[i][b++].size;
			q = qm::add(k, q, phys[i][b].q);
		}
		REQUIRE(q == qm::norm(k, sector), "an amplitude out of the sector");
		n2 += x * x;
	});
	REQUIRE(n2 > 0, "the state is zero");
	auto n = quantit::contract(s, s).item().toDouble();
	REQUIRE(std::abs(n - n2) <= 1e-4 * n2, "norm ", n, " for ", n2);
	c.state(st);
}
void check_random(mc::Ctx &c, bool uniform)
{
	auto all = menu(uniform, c.thorough);
	auto &m = c.pick(all, "structure");
	int L = 1 + c.choose(c.thorough ? 5 : 4, "length");
	if (!uniform && L < 2)
		c.skip();
	std::vector<Leg> phys;
	for (int i = 0; i < L; ++i)
		phys.push_back(m.phys[i % m.phys.size()]);
	auto &k = *m.k;
	int bond = 1 + c.choose(3, "bond");
	int K = lcm_of(phys);
	double paths = std::pow(double(K), bond * L);
	if (paths > (c.thorough ? 70000 : 1100))
		c.skip();
	auto all_targets = targets(k, phys);
	auto &sector = c.pick(all_targets, "sector");
	enum
	{
		UNIFORM,
		LIST,
		OPERATOR
	};
	int how = uniform ? c.choose(3, "how") : 1 + c.choose(2, "how");
	bool alias = bond == 1 && c.flip("other name");
	int typed = c.choose(bond == 1 ? 4 : 1, "element type");
	auto type = typed == 1 ? torch::kFloat : torch::kDouble;
	bool charged = typed == 2; // the physical structure has a rule of its own: it is only a list of quantities
	c.describe(mc::cat(m.name, " length ", L, " bond ", bond, " sector ", qm::str(sector), how == UNIFORM ? " uniform" : how == LIST ? " list" : " operator", alias ? " random_MPS" : "", typed == 1 ? " float" : typed == 3 ? " same type" : charged ? " charged" : ""));
	c.step();
	torch::manual_seed(7);
	bool possible = reachable(k, phys).count(qm::norm(k, sector));
	Val rule = charged ? phys[0].back().q : qm::zero(k);
	std::vector<btensor> list;
	for (auto &p : phys)
		list.push_back(structure(k, p, rule, torch::kDouble));
	auto op = identity_like(k, phys, torch::kDouble);
	auto q = k.make(sector);
	bMPS s;
	bool refused = false;
	{
		Control ctl(c, K);
		try
		{
			torch::TensorOptions opt;
			if (typed != 3) // the type of the structure
				opt = type;
			if (how == UNIFORM)
				s = alias ? quantit::random_MPS(L, bond, list[0], q, opt, 5u) : quantit::random_bMPS(L, bond, list[0], q, opt, 5u);
			else if (how == LIST)
				s = alias ? quantit::random_MPS(bond, list, q, opt, 5u) : quantit::random_bMPS(bond, list, q, opt, 5u);
			else
				s = alias ? quantit::random_MPS(bond, op, q, opt, 5u) : quantit::random_bMPS(bond, op, q, opt, 5u);
		}
		catch (std::invalid_argument &e)
		{
			refused = true;
		}
	}
	REQUIRE(refused == !possible, refused ? "refused although the sector exists" : "accepted a sector that does not exist");
	if (!refused)
		is_good(c, s, k, phys, sector, bond, type);
}
MC_SUITE(every_draw_uniform) { check_random(c, true); }
MC_SUITE(every_draw_mixed) { check_random(c, false); }
// the real generator: the same seeds give the same state, whatever the seed it is a good one
MC_SUITE(seeds)
{
	auto all = menu(c.flip("uniform"), c.thorough);
	auto &m = c.pick(all);
	int L = c.pick(std::vector<int>{2, 5}), bond = c.pick(std::vector<int>{1, 4});
	unsigned seed = c.pick(c.thorough ? std::vector<unsigned>{0, 1, 2, 3, 4, 5, 6, 7, 1000, 123456789, 0xffffffffu} : std::vector<unsigned>{0, 1, 0xffffffffu});
	bool options = c.flip("options");
	std::vector<Leg> phys;
	for (int i = 0; i < L; ++i)
		phys.push_back(m.phys[i % m.phys.size()]);
	auto &k = *m.k;
	auto r = reachable(k, phys);
	std::vector<Val> rv(r.begin(), r.end());
	auto &sector = c.pick(rv, "sector");
	c.describe(mc::cat(m.name, " length ", L, " bond ", bond, " sector ", qm::str(sector), " seed ", seed, options ? " float" : ""));
	c.step();
	std::vector<btensor> list;
	for (auto &p : phys)
		list.push_back(structure(k, p, {}, torch::kDouble));
	auto make = [&]() {
		torch::manual_seed(11);
		return options ? quantit::random_bMPS(bond, list, k.make(sector), torch::kFloat, seed) : quantit::random_bMPS(bond, list, k.make(sector), {}, seed);
	};
	auto a = make(), b = make();
	is_good(c, a, k, phys, sector, bond, options ? torch::kFloat : torch::kDouble);
	REQUIRE(a.size() == b.size(), "length");
	for (size_t i = 0; i < a.size(); ++i)
		REQUIRE(a[i].sizes() == b[i].sizes() && torch::equal(a[i].to_dense(), b[i].to_dense()), "site ", i, " differs between two states of the same seed");
}
MC_SUITE(plain_chains)
{
	int how = c.choose(3, "how"), L = 1 + c.choose(5, "length"), bond = 1 + c.choose(4, "bond"), which = c.choose(3, "sites");
	int typed = c.choose(3, "type");
	auto phys = plain_phys(L, which);
	bool wider = how == 1 && c.flip("rectangular operator");
	if (how == 0 && which)
		c.skip();
	c.describe(mc::cat(how == 0 ? "uniform" : how == 1 ? "operator" : "list", " length ", L, " bond ", bond, " sites ", mc::vstr(phys), " type ", typed, wider ? " rectangular" : ""));
	c.step();
	auto was = torch::get_default_dtype();
	torch::TensorOptions opt;
	auto type = torch::typeMetaToScalarType(was);
	if (typed == 1)
		opt = torch::kDouble, type = torch::kDouble;
	if (typed == 2)
		opt = torch::kComplexDouble, type = torch::kComplexDouble;
	MPS s;
	if (how == 0)
		s = quantit::random_MPS(L, bond, phys[0], opt);
	else if (how == 1)
	{
		std::vector<torch::Tensor> v;
		for (auto p : phys)
			v.push_back(torch::ones({2, p + wider, 2, p}));
		s = quantit::random_MPS(bond, MPO(v), opt);
	}
	else
		s = quantit::random_MPS(bond, phys, opt);
	REQUIRE((int)s.size() == L, "length ", s.size());
	REQUIRE(s.check_ranks(), "the sites do not fit together");
	for (int i = 0; i < L; ++i)
	{
		REQUIRE(s[i].sizes().vec() == (idx{i ? bond : 1, phys[i], i + 1 < L ? bond : 1}), "site ", i, " has sizes ", mc::vstr(s[i].sizes().vec()));
		REQUIRE(s[i].scalar_type() == type, "element type");
		REQUIRE(s[i].abs().max().item().toDouble() > 0, "site ", i, " is zero");
		for (int j = 0; j < i; ++j)
			REQUIRE(!s[i].is_alias_of(s[j]), "two sites share their elements");
		if (i && i + 2 < L && s[i].sizes() == s[i + 1].sizes())
			REQUIRE(!torch::equal(s[i], s[i + 1]), "two sites are equal");
	}
	REQUIRE((size_t)s.orthogonality_center < s.size(), "orthogonality centre");
	REQUIRE(quantit::contract(s, s).abs().item().toDouble() > 0, "the state is zero");
}
MC_SUITE(refused)
{
	int what = c.choose(9);
	static const char *names[] = {"no site", "no site, list", "no site, operator", "no bond", "no bond, list", "plain no site", "plain no site, list", "plain no site, operator", "plain no bond"};
	c.describe(names[what]);
	c.step();
	auto s = structure(kZ(), {{1, {0}}, {1, {1}}}, {}, torch::kDouble);
	auto q = kZ().make({0});
	auto empty_or_refused = [&](auto &&f) {
		try
		{
			return f().size() == 0;
		}
		catch (std::invalid_argument &)
		{
			return true;
		}
	};
	if (what == 0)
		REQUIRE(empty_or_refused([&]() { return quantit::random_bMPS(0, 2, s, q, {}, 1u); }), "made a chain");
	if (what == 1)
		REQUIRE(empty_or_refused([&]() { return quantit::random_bMPS(2, std::vector<btensor>{}, q, {}, 1u); }), "made a chain");
	if (what == 2)
		REQUIRE(empty_or_refused([&]() { return quantit::random_bMPS(2, bMPO(), q, {}, 1u); }), "made a chain");
	if (what == 3)
		REQUIRE(throws([&]() { quantit::random_bMPS(3, 0, s, q, {}, 1u); }), "accepted");
	if (what == 4)
		REQUIRE(throws([&]() { quantit::random_bMPS(0, std::vector<btensor>{s, s}, q, {}, 1u); }), "accepted");
	if (what == 5)
		REQUIRE(empty_or_refused([&]() { return quantit::random_MPS(0, 2, 2); }), "made a chain");
	if (what == 6)
		REQUIRE(empty_or_refused([&]() { return quantit::random_MPS(2, std::vector<int64_t>{}); }), "made a chain");
	if (what == 7)
		REQUIRE(empty_or_refused([&]() { return quantit::random_MPS(2, MPO()); }), "made a chain");
	if (what == 8)
		REQUIRE(throws([&]() { quantit::random_MPS(3, 0, 2); }), "accepted");
}
} // namespace
int main(int argc, char **argv) { return mc::main_(argc, argv); }
