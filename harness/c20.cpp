// C20: model Hamiltonians and local operators
#include "models.h"
#include "mps.h"
#include "operators.h"
using namespace bm;
namespace
{
using M = Mat<double>;
// ---------------------------------------------------------------- reference: occupation numbers and signs
// many fermions: mode 2*i is the up one of site i, 2*i+1 the down one, in this order
// the states of a site are numbered 0: empty, 1: up, 2: down, 3: up and down
struct Ket
{
	double amp;
	std::vector<int> n;
};
Ket destroy(Ket k, int m)
{
	if (!k.n[m])
		return {0, k.n};
	int s = 0;
	for (int i = 0; i < m; ++i)
		s += k.n[i];
	k.n[m] = 0;
	k.amp *= s % 2 ? -1 : 1;
	return k;
}
Ket create(Ket k, int m)
{
	if (k.n[m])
		return {0, k.n};
	int s = 0;
	for (int i = 0; i < m; ++i)
		s += k.n[i];
	k.n[m] = 1;
	k.amp *= s % 2 ? -1 : 1;
	return k;
}
int64_t number(const std::vector<int> &n)
{
	int64_t o = 0;
	for (size_t i = 0; i < n.size(); i += 2)
		o = o * 4 + n[i] + 2 * n[i + 1];
	return o;
}
std::vector<int> occupation(int64_t s, int L)
{
	std::vector<int> n(2 * L);
	for (int i = L - 1; i >= 0; --i)
	{
		n[2 * i] = s % 4 & 1;
		n[2 * i + 1] = s % 4 >> 1;
		s /= 4;
	}
	return n;
}
Arr hubbard(double U, double mu, int L)
{
	int64_t d = int64_t(1) << 2 * L;
	Arr h({d, d});
	for (int64_t s = 0; s < d; ++s)
	{
		Ket k{1, occupation(s, L)};
		for (int i = 0; i < L; ++i)
			h.v[s * d + s] += U * k.n[2 * i] * k.n[2 * i + 1] - mu * (k.n[2 * i] + k.n[2 * i + 1]);
		for (int m = 0; m + 2 < 2 * L; ++m)
			for (auto [a, b] : {std::pair{m, m + 2}, {m + 2, m}})
			{
				auto r = create(destroy(k, a), b);
				if (r.amp)
					h.v[number(r.n) * d + s] -= r.amp;
			}
	}
	return h;
}
// spins: 0 is up
Arr heisenberg(double J, int L)
{
	int64_t d = int64_t(1) << L;
	Arr h({d, d});
	for (int64_t s = 0; s < d; ++s)
		for (int i = 0; i + 1 < L; ++i)
		{
			int64_t a = int64_t(1) << (L - 1 - i), b = a >> 1;
			bool same = !(s & a) == !(s & b);
			h.v[s * d + s] -= J * (same ? 0.25 : -0.25);
			if (!same)
				h.v[(s ^ a ^ b) * d + s] -= J / 2;
		}
	return h;
}
template <class X>
Arr matrix(mc::Ctx &c, const X &m, int64_t p, int L)
{
	std::vector<Arr> a;
	for (auto &t : m)
	{
		REQUIRE(t.dim() == 4, "a site of rank ", t.dim());
		a.push_back(arr<double>(t.to(torch::kDouble)));
		REQUIRE(a.back().shape[1] == p && a.back().shape[3] == p, "physical dimensions ", a.back().shape[1], " ", a.back().shape[3]);
	}
	REQUIRE((int)a.size() == L, "length ", a.size());
	REQUIRE(a.front().shape[0] == 1 && a.back().shape[2] == 1, "edges of sizes ", a.front().shape[0], " ", a.back().shape[2]);
	for (int i = 0; i + 1 < L; ++i)
		REQUIRE(a[i].shape[2] == a[i + 1].shape[0], "bond ", i);
	auto o = dense_operator(a);
	int64_t d = prod(o.shape);
	d = std::llround(std::sqrt(double(d)));
	o.shape = {d, d};
	return o;
}
void same_matrix(mc::Ctx &c, const Arr &got, const Arr &want, double tol, double unit)
{
	REQUIRE(got.shape == want.shape, "dimension ", got.shape[0], " for ", want.shape[0]);
	int64_t d = want.shape[0];
	for (int64_t i = 0; i < d; ++i)
		for (int64_t j = 0; j < d; ++j)
			REQUIRE(std::abs(got.v[i * d + j] - want.v[i * d + j]) <= tol * unit, "element ", i, ",", j, " is ", got.v[i * d + j], " for ", want.v[i * d + j]);
}
struct Precision
{
	torch::ScalarType was = torch::typeMetaToScalarType(torch::get_default_dtype());
	explicit Precision(torch::ScalarType t) { torch::set_default_dtype(torch::scalarTypeToTypeMeta(t)); }
	~Precision() { torch::set_default_dtype(torch::scalarTypeToTypeMeta(was)); }
};
std::vector<double> couplings(bool thorough)
{
	std::vector<double> o{1, -1, 0, 2.5, -0.3, 1e-3, -1e-5, 1e-9, 1e5};
	if (thorough)
		o.insert(o.end(), {3, -7.25, 1e-4, 1e-7, 1e-12, -1e8, 0.1});
	return o;
}
// how a coupling is handed over
enum
{
	AS_SCALAR,
	AS_DOUBLE,
	AS_FLOAT,
	AS_INT,
	N_WAYS
};
static const char *way_names[] = {"scalar", "double tensor", "float tensor", "integer tensor"};
torch::Tensor coupling(double x, int way)
{
	if (way == AS_INT)
		return torch::tensor((int64_t)x, torch::kLong);
	return torch::full({}, x, way == AS_FLOAT ? torch::kFloat : torch::kDouble);
}
bool integral(double x) { return x == std::floor(x); }
// ---------------------------------------------------------------- physical structures
struct Phys
{
	const Kind *k;
	Leg leg;
	const char *name;
};
const std::vector<Phys> &spins()
{
	static const std::vector<Phys> o{{&kZ(), {{1, {1}}, {1, {-1}}}, "Z {1,-1}"}, {&kZ(), {{1, {0}}, {1, {1}}}, "Z {0,1}"}, {&kZ(), {{1, {5}}, {1, {2}}}, "Z {5,2}"}, {&kZ(), {{1, {-1}}, {1, {1}}}, "Z {-1,1}"}, {&kZ(), {{2, {0}}}, "Z one section"}, {&kZ(), {{2, {3}}}, "Z one charged section"}, {&kZ(), {{1, {1}}, {1, {1}}}, "Z {1},{1}"}, {&kC2(), {{1, {0}}, {1, {1}}}, "C2 {0,1}"}, {&kC2(), {{1, {1}}, {1, {0}}}, "C2 {1,0}"}, {&kC3(), {{1, {1}}, {1, {2}}}, "C3 {1,2}"}, {&kC3(), {{1, {0}}, {1, {2}}}, "C3 {0,2}"}, {&kZC2(), {{1, {1, 1}}, {1, {-1, 1}}}, "ZxC2"}, {&kZC2(), {{1, {1, 0}}, {1, {0, 1}}}, "ZxC2 {1,0},{0,1}"}};
	return o;
}
const std::vector<Phys> &electrons()
{
	static const std::vector<Phys> o{{&kZ(), {{1, {0}}, {1, {1}}, {1, {1}}, {1, {2}}}, "Z number"}, {&kZ(), {{1, {0}}, {2, {1}}, {1, {2}}}, "Z number, grouped"}, {&kZ(), {{1, {-1}}, {2, {0}}, {1, {1}}}, "Z number from half filling"}, {&kZ(), {{1, {0}}, {1, {1}}, {1, {-1}}, {1, {0}}}, "Z spin"}, {&kZ(), {{1, {0}}, {1, {1}}, {1, {3}}, {1, {4}}}, "Z 1 for up 3 for down"}, {&kZ(), {{1, {2}}, {1, {1}}, {1, {1}}, {1, {0}}}, "Z holes"}, {&kZ(), {{4, {0}}}, "Z nothing"}, {&kZ(), {{4, {2}}}, "Z nothing, charged"}, {&kC2(), {{1, {0}}, {2, {1}}, {1, {0}}}, "C2 parity"}, {&kC2(), {{1, {1}}, {2, {0}}, {1, {1}}}, "C2 parity from one"}, {&kC3(), {{1, {0}}, {1, {1}}, {1, {2}}, {1, {0}}}, "C3"}, {&kZC2(), {{1, {0, 0}}, {1, {1, 1}}, {1, {1, 0}}, {1, {2, 1}}}, "Z number, C2 of ups"}};
	return o;
}
const std::vector<Phys> &not_electrons()
{
	static const std::vector<Phys> o{{&kZ(), {{1, {0}}, {1, {1}}, {1, {1}}, {1, {3}}}, "Z {0,1,1,3}"}, {&kZ(), {{1, {0}}, {1, {1}}, {1, {2}}, {1, {2}}}, "Z {0,1,2,2}"}, {&kC2(), {{3, {0}}, {1, {1}}}, "C2 {0,0,0,1}"}, {&kZ(), {{1, {0}}, {2, {1}}}, "Z of size 3"}, {&kZ(), {{1, {0}}, {2, {1}}, {2, {2}}}, "Z of size 5"}, {&kZ(), {{1, {0}}}, "Z of size 1"}};
	return o;
}
btensor structure(const Phys &p, bool two, torch::TensorOptions opt = torch::kDouble, Val rule = {})
{
	if (rule.empty())
		rule = qm::zero(*p.k);
	Shape s{{p.leg}, rule};
	if (two)
		s.legs.push_back(bm::inv(*p.k, p.leg));
	return btensor(shape_list(*p.k, s), p.k->make(rule), opt);
}
template <class X>
void sound(mc::Ctx &c, const X &h, const Phys &p, int L)
{
	REQUIRE((int)h.size() == L, "length ", h.size());
	REQUIRE(h.check_ranks(), "wrong ranks");
	auto zero = qm::zero(*p.k);
	auto neutral = p.k->make(zero);
	for (int i = 0; i < L; ++i)
	{
		valid(c, h[i], mc::cat("site ", i));
		REQUIRE(h[i].selection_rule->get() == neutral, "the rule of site ", i, " is not neutral");
	}
	if constexpr (std::is_same_v<X, bMPO>) // the sites fit together
		REQUIRE(!throws([&]() { bMPO again(std::vector<btensor>(h.begin(), h.end())); }), "not a valid chain");
}
// ---------------------------------------------------------------- models
// the bonds of the conserving models are compressed: the decompositions mix the couplings with ones
double compressed(double unit)
{
	unit = std::max(1., std::abs(unit));
	return 10 * unit * unit;
}
void check_heisenberg(mc::Ctx &c, bool block)
{
	int L = 1 + c.choose(c.thorough ? 6 : block ? 4 : 5, "length");
	auto J = c.pick(couplings(c.thorough), "J");
	int way = c.choose(N_WAYS, "way");
	if (way == AS_INT && !integral(J))
		c.skip();
	bool single = c.flip("single precision by default");
	Precision prec(single ? torch::kFloat : torch::kDouble);
	const Phys *p = nullptr;
	bool charged = false;
	if (block)
	{
		p = &c.pick(spins(), "spins");
		charged = c.flip("charged structure");
	}
	c.describe(mc::cat("Heisenberg length ", L, " J ", J, " as ", way_names[way], single ? " single" : "", block ? mc::cat(" ", p->name, charged ? " charged" : "") : ""));
	c.step();
	double exact = way == AS_FLOAT ? double(float(J)) : J;
	auto want = heisenberg(exact, L);
	double tol = single ? 1e-6 : 1e-13;
	if (!block)
	{
		auto h = way == AS_SCALAR ? (integral(J) && c.flip("integer") ? Heisenberg(torch::Scalar((int64_t)J), L) : Heisenberg(torch::Scalar(J), L)) : Heisenberg(coupling(J, way), L);
		same_matrix(c, matrix(c, h, 2, L), want, tol, std::abs(J));
		return;
	}
	Val rule = qm::zero(*p->k);
	if (charged)
		rule = p->leg.back().q;
	auto s = structure(*p, false, torch::kDouble, rule);
	auto h = way == AS_SCALAR ? Heisenberg(torch::Scalar(J), L, s) : Heisenberg(coupling(J, way), L, s);
	sound(c, h, *p, L);
	same_matrix(c, matrix(c, h, 2, L), want, tol, compressed(J));
}
MC_SUITE(heisenberg_dense) { check_heisenberg(c, false); }
MC_SUITE(heisenberg_conserving) { check_heisenberg(c, true); }
void check_hubbard(mc::Ctx &c, bool block)
{
	int L = 1 + c.choose(c.thorough ? 4 : 3, "length");
	auto U = c.pick(couplings(c.thorough && L < 4), "U"), mu = c.pick(couplings(c.thorough && L < 4), "mu");
	int way = c.choose(N_WAYS, "way");
	if (way == AS_INT && !(integral(U) && integral(mu)))
		c.skip();
	bool single = c.flip("single precision by default");
	Precision prec(single ? torch::kFloat : torch::kDouble);
	const Phys *p = nullptr;
	bool charged = false;
	if (block)
	{
		p = &c.pick(electrons(), "electrons");
		charged = c.flip("charged structure");
	}
	c.describe(mc::cat("Hubbard length ", L, " U ", U, " mu ", mu, " as ", way_names[way], single ? " single" : "", block ? mc::cat(" ", p->name, charged ? " charged" : "") : ""));
	c.step();
	auto exact = [&](double x) { return way == AS_FLOAT ? double(float(x)) : x; };
	auto want = hubbard(exact(U), exact(mu), L);
	double tol = single ? 1e-6 : 1e-13, unit = std::max({std::abs(U), std::abs(mu), L > 1 ? 1. : 0.});
	if (!block)
	{
		auto h = way == AS_SCALAR ? Hubbard(torch::Scalar(U), torch::Scalar(mu), L) : Hubbard(coupling(U, way), coupling(mu, way), L);
		same_matrix(c, matrix(c, h, 4, L), want, tol, unit);
		return;
	}
	Val rule = qm::zero(*p->k);
	if (charged)
		rule = p->leg.back().q;
	auto s = structure(*p, false, torch::kDouble, rule);
	auto h = way == AS_SCALAR ? Hubbard(torch::Scalar(U), torch::Scalar(mu), L, s) : Hubbard(coupling(U, way), coupling(mu, way), L, s);
	sound(c, h, *p, L);
	same_matrix(c, matrix(c, h, 4, L), want, tol, compressed(unit));
}
MC_SUITE(hubbard_dense) { check_hubbard(c, false); }
MC_SUITE(hubbard_conserving) { check_hubbard(c, true); }
MC_SUITE(refused_models)
{
	int what = c.choose(8), L = c.choose(4);
	Precision prec(torch::kDouble);
	auto one = torch::ones({}, torch::kDouble), v = torch::ones({1}, torch::kDouble), m = torch::ones({2, 2}, torch::kDouble);
	auto &bad = c.flip("matrix") ? m : v;
	static const char *names[] = {"rank of J", "rank of U", "rank of mu", "no site", "rank of J, conserving", "rank of U, conserving", "no site, conserving", "unsuited structure"};
	auto s = structure(spins()[0], false), e = structure(electrons()[0], false);
	if (what != 3 && what != 6 && L == 0)
		c.skip();
	if (what != 7)
		c.describe(mc::cat(names[what], " length ", L));
	c.step();
	if (what == 0)
		REQUIRE(throws([&]() { Heisenberg(bad, L); }), "accepted");
	if (what == 1)
		REQUIRE(throws([&]() { Hubbard(bad, one, L); }), "accepted");
	if (what == 2)
		REQUIRE(throws([&]() { Hubbard(one, bad, L); }), "accepted");
	if (what == 3)
		REQUIRE(throws([&]() { Heisenberg(one, 0); }) && throws([&]() { Hubbard(one, one, 0); }), "accepted");
	if (what == 4)
		REQUIRE(throws([&]() { Heisenberg(bad, L, s); }), "accepted");
	if (what == 5)
		REQUIRE(throws([&]() { Hubbard(bad, one, L, e); }) && throws([&]() { Hubbard(one, bad, L, e); }), "accepted");
	if (what == 6)
		REQUIRE(throws([&]() { Heisenberg(one, 0, s); }) && throws([&]() { Hubbard(one, one, 0, e); }), "accepted");
	if (what == 7)
	{
		auto &p = c.pick(not_electrons());
		double U = c.pick(std::vector<double>{0, 1, 1e-9}), mu = c.pick(std::vector<double>{0, 1});
		c.describe(mc::cat(p.name, " length ", L, " U ", U, " mu ", mu));
		auto x = structure(p, false);
		if (size_of(p.leg) != 2)
			REQUIRE(throws([&]() { Heisenberg(one, L, x); }), "accepted a structure for spins with ", size_of(p.leg), " states");
		if (size_of(p.leg) != 4 || L > 1) // the Hamiltonian of a single site is diagonal: it conserves everything
			REQUIRE(throws([&]() { Hubbard(torch::Scalar(U), torch::Scalar(mu), L, x); }), "accepted a structure that the hopping does not conserve");
	}
}
// derivatives with respect to the couplings
MC_SUITE(derivatives)
{
	int model = c.choose(2), L = 1 + c.choose(3);
	double x = c.pick(std::vector<double>{1, -0.5, 0, 3}), y = c.pick(std::vector<double>{0, 1.5});
	Precision prec(torch::kDouble);
	static const char *names[] = {"Heisenberg", "Hubbard"};
	c.describe(mc::cat(names[model], " length ", L, " at ", x, " ", y));
	c.step();
	auto a = torch::full({}, x, torch::TensorOptions(torch::kDouble).requires_grad(true)), b = torch::full({}, y, torch::TensorOptions(torch::kDouble).requires_grad(true));
	auto collect = [&](const MPO &h) {
		torch::Tensor t;
		for (auto &s : h)
		{
			t = t.defined() ? torch::tensordot(t, s, {t.dim() - 1}, {0}) : s.permute({0, 1, 3, 2});
			if (t.dim() > 4)
				t = t.transpose(-1, -2);
		}
		auto w = torch::arange(t.numel(), torch::kDouble) * 0.37 + 1;
		return (t.reshape({-1}) * (w - 5)).sum();
	};
	auto eval = [&](torch::Tensor a, torch::Tensor b) {
		return model ? collect(Hubbard(a, b, L)) : collect(Heisenberg(a, L));
	};
	auto v = eval(a, b);
	// the models are polynomials of low degree in their couplings on three sites at most
	auto at = [&](double da, double db) { return eval(torch::full({}, x + da, torch::kDouble), torch::full({}, y + db, torch::kDouble)).item().toDouble(); };
	double ga = (8 * (at(1, 0) - at(-1, 0)) - (at(2, 0) - at(-2, 0))) / 12, gb = (8 * (at(0, 1) - at(0, -1)) - (at(0, 2) - at(0, -2))) / 12;
	if (!v.requires_grad())
	{
		REQUIRE(std::abs(ga) < 1e-9 && std::abs(gb) < 1e-9, "no derivative although it is ", ga, " ", gb);
		return;
	}
	v.backward();
	double da = a.grad().defined() ? a.grad().item().toDouble() : 0, db = b.grad().defined() ? b.grad().item().toDouble() : 0;
	double scale = 1 + std::abs(ga) + std::abs(gb);
	REQUIRE(std::abs(da - ga) < 1e-9 * scale && std::abs(db - gb) < 1e-9 * scale, "derivatives ", da, " ", db, " for ", ga, " ", gb);
}
// ---------------------------------------------------------------- operators
std::vector<std::pair<const char *, Arr>> one_site_fermions()
{
	Arr u({4, 4}), d({4, 4}), f({4, 4}), id({4, 4});
	for (int64_t s = 0; s < 4; ++s)
	{
		Ket k{1, occupation(s, 1)};
		auto a = destroy(k, 0), b = destroy(k, 1);
		if (a.amp)
			u.v[number(a.n) * 4 + s] = a.amp;
		if (b.amp)
			d.v[number(b.n) * 4 + s] = b.amp;
		f.v[s * 5] = (k.n[0] + k.n[1]) % 2 ? -1 : 1;
		id.v[s * 5] = 1;
	}
	return {{"up", u}, {"down", d}, {"sign", f}, {"identity", id}};
}
Arr table(int64_t d, std::vector<double> v)
{
	Arr a({d, d});
	a.v = v;
	return a;
}
Arr plain(const torch::Tensor &t) { return from_torch<double>(t.to(torch::kDouble)); }
MC_SUITE(local_operators)
{
	int what = c.choose(2);
	c.describe(what ? "pauli" : "fermions");
	c.step();
	if (what)
	{
		auto [x, iy, z, lo, id] = pauli();
		REQUIRE(close(plain(x), table(2, {0, 1, 1, 0}), 0), "x");
		REQUIRE(close(plain(iy), table(2, {0, 1, -1, 0}), 0), "i y");
		REQUIRE(close(plain(z), table(2, {1, 0, 0, -1}), 0), "z");
		REQUIRE(close(plain(lo), table(2, {0, 0, 1, 0}), 0), "the lowering operator takes up (1,0) to down (0,1)");
		REQUIRE(close(plain(id), table(2, {1, 0, 0, 1}), 0), "identity");
		return;
	}
	auto [u, d, f, id] = fermions();
	auto want = one_site_fermions();
	int n = 0;
	for (auto &t : {u, d, f, id})
	{
		REQUIRE(close(plain(t), want[n].second, 0), want[n].first);
		++n;
	}
}
// the anticommutators of every pair of modes of a chain, the sign operators being strung in front
MC_SUITE(anticommutation)
{
	int L = 1 + c.choose(3);
	int i = c.choose(L), j = c.choose(L), a = c.choose(2), b = c.choose(2);
	bool ci = c.flip("creation"), cj_ = c.flip("creation");
	c.describe(mc::cat("sites ", i, a ? "d" : "u", ci ? "+ " : " ", j, b ? "d" : "u", cj_ ? "+" : "", " of ", L));
	c.step();
	auto [u, d, f, id] = fermions();
	auto of = [&, u = u, d = d, f = f, id = id](int site, int spin, bool dagger) {
		auto o = torch::ones({1, 1}, torch::kDouble);
		for (int s = 0; s < L; ++s)
		{
			auto t = s < site ? f : s > site ? id : spin ? d : u;
			if (s == site && dagger)
				t = t.conj().t();
			o = torch::kron(o, t.to(torch::kDouble).contiguous());
		}
		return o;
	};
	auto A = of(i, a, ci), B = of(j, b, cj_);
	auto X = torch::matmul(A, B) + torch::matmul(B, A);
	double want = i == j && a == b && ci != cj_ ? 1 : 0;
	REQUIRE((X - want * torch::eye(X.size(0), torch::kDouble)).abs().max().item().toDouble() == 0, "wrong anticommutator");
}
MC_SUITE(local_operators_conserving)
{
	bool spin = c.flip("spin");
	auto &p = spin ? c.pick(spins()) : c.pick(electrons());
	auto type = c.pick(std::vector<torch::ScalarType>{torch::kDouble, torch::kFloat, torch::kChar});
	Val rule = c.flip("charged structure") ? p.leg.back().q : qm::zero(*p.k);
	c.describe(mc::cat(spin ? "pauli " : "fermions ", p.name, " type ", c10::toString(type), " structure ", qm::str(rule)));
	c.step();
	auto s = structure(p, true, type, rule);
	std::vector<btensor> got;
	std::vector<Arr> want;
	if (spin)
	{
		auto [z, lo, id] = pauli(s);
		got = {z, lo, id};
		want = {table(2, {1, 0, 0, -1}), table(2, {0, 0, 1, 0}), table(2, {1, 0, 0, 1})};
	}
	else
	{
		auto [u, d, f, id] = fermions(s);
		got = {u, d, f, id};
		for (auto &x : one_site_fermions())
			want.push_back(x.second);
	}
	std::vector<Val> q;
	for (auto &l : p.leg)
		for (int64_t i = 0; i < l.size; ++i)
			q.push_back(l.q);
	for (size_t n = 0; n < got.size(); ++n)
	{
		valid(c, got[n], mc::cat("operator ", n));
		auto a = assemble<double>(got[n].to(torch::kDouble));
		REQUIRE(close(a, want[n], 0), "operator ", n, " differs from its matrix");
		// it adds its rule to the quantity
		int64_t d = want[n].shape[0];
		for (int64_t i = 0; i < d; ++i)
			for (int64_t j = 0; j < d; ++j)
				if (want[n].v[i * d + j])
					REQUIRE(got[n].selection_rule->get() == p.k->make(qm::add(*p.k, q[i], qm::inv(*p.k, q[j]))), "rule of operator ", n);
		same_structure(c, *p.k, got[n], Shape{{p.leg, bm::inv(*p.k, p.leg)}, [&] {
			for (int64_t i = 0; i < d; ++i)
				for (int64_t j = 0; j < d; ++j)
					if (want[n].v[i * d + j])
						return qm::add(*p.k, q[i], qm::inv(*p.k, q[j]));
			return qm::zero(*p.k);
		}()}, mc::cat("operator ", n));
	}
}
MC_SUITE(refused_operators)
{
	auto &p = c.pick(not_electrons());
	c.describe(p.name);
	c.step();
	auto s = structure(p, true);
	// quantities that an annihilation operator does not change by a definite amount
	REQUIRE(throws([&]() { fermions(s); }), "accepted for electrons");
	if (size_of(p.leg) != 2)
		REQUIRE(throws([&]() { pauli(s); }), "accepted for spins");
}
} // namespace
int main(int argc, char **argv) { return mc::main_(argc, argv); }
