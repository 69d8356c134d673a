// C11: conjugation, inversion and shifts of the conserved quantities
#include "bt.h"
using namespace bm;
namespace
{
using cplx = std::complex<double>;
std::vector<Named> menu11(bool thorough)
{
	auto o = structures(3, thorough);
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	auto add = [&](std::vector<Leg> l, int rule) { o.push_back({&kZ(), {l, {rule}}}); };
	add({{S(1, 2), S(2, -3), S(1, 7)}, {S(1, -7), S(2, 3)}}, 0);
	add({{S(1, 1)}, {S(2, 1)}}, 2);
	add({{S(2, 1), S(1, 2)}}, 2);
	o.push_back({&kZC2(), {{{{2, {1, 1}}, {1, {0, 1}}}, {{1, {1, 0}}, {1, {2, 1}}}}, {2, 1}}});
	o.push_back({&kC3(), {{{{2, {1}}, {1, {2}}}}, {2}}});
	return o;
}
template <class T>
RefT<T> inverted(RefT<T> r)
{
	for (auto &l : r.s.legs)
		l = inv(*r.k, l);
	r.s.rule = qm::inv(*r.k, r.s.rule);
	return r;
}
template <class T>
RefT<T> conjugated(RefT<T> r)
{
	if constexpr (!std::is_same_v<T, double>)
		for (auto &x : r.a.v)
			x = std::conj(x);
	return r;
}
template <class T>
void match(mc::Ctx &c, const btensor &t, const RefT<T> &r, const std::string &w)
{
	unchanged(c, t, r, w);
	same_dtype(c, t, w);
	REQUIRE(torch::typeMetaToScalarType(t.options().dtype()) == dtype_of<T>(), ": ", w, ": announced element type");
	REQUIRE(close(from_torch<T>(t.to_dense()), r.a, 0), ": ", w, ": dense form");
}
template <class F>
void real_or_complex(mc::Ctx &c, F &&f)
{
	if (c.flip("complex"))
		f(cplx(0));
	else
		f(0.);
}
// shifts: small charges, and the quantities of a composite
std::vector<Val> shifts(const Kind &k) { return elements(k, 2); }
} // namespace
MC_SUITE(conjugation)
{
	auto menu = menu11(c.thorough);
	auto &n = c.pick(menu, "structure");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 8 : 5);
	int op = c.choose(6, "operation");
	static const char *names[] = {"conj", "conj_only", "inverse_cvals", "inverse_cvals_", "inverse_cvals of a temporary", "free inverse_cvals_"};
	real_or_complex(c, [&](auto z) {
		using T = decltype(z);
		auto R = make_ref<T>(*n.k, n.s, present, 1);
		c.describe(mc::cat(names[op], " of ", str(n.s), present_str(present), std::is_same_v<T, double> ? "" : " complex"));
		auto A = build(R);
		auto want = op == 0 ? inverted(conjugated(R)) : op == 1 ? conjugated(R) : inverted(R);
		btensor B;
		if (op == 0)
			B = A.conj();
		else if (op == 1)
			B = A.conj_only();
		else if (op == 2)
			B = c.flip("free") ? quantit::inverse_cvals(A) : A.inverse_cvals();
		else if (op == 4)
			B = quantit::inverse_cvals(btensor(A));
		else
		{
			btensor X(A);
			auto &x = op == 3 ? X.inverse_cvals_() : quantit::inverse_cvals_(X);
			REQUIRE(&x == &X, "returns another tensor");
			B = X;
		}
		match(c, B, want, names[op]);
		unchanged(c, A, R, "operand");
		auto C = op == 0 ? B.conj() : op == 1 ? B.conj_only() : B.inverse_cvals();
		match(c, C, R, mc::cat(names[op], " twice"));
		unchanged(c, A, R, "operand");
	});
}
// <t|t> is the squared norm, whatever order the dimensions are listed in
MC_SUITE(squared_norm)
{
	auto menu = menu11(c.thorough);
	auto &n = c.pick(menu, "structure");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 8 : 6);
	auto perms = arrangements(n.s.legs.size(), n.s.legs.size());
	auto dims = c.pick(perms, "order of the dimensions");
	real_or_complex(c, [&](auto z) {
		using T = decltype(z);
		auto R = make_ref<T>(*n.k, n.s, present, 1);
		c.describe(mc::cat("norm of ", str(n.s), present_str(present), " over ", mc::vstr(dims), std::is_same_v<T, double> ? "" : " complex"));
		double want = 0;
		for (auto &x : R.a.v)
			want += std::norm(x);
		auto A = build(R);
		auto t = A.tensordot(A.conj(), dims, dims);
		ArrT<T> w;
		w.v[0] = want;
		compare(c, *n.k, t, {{}, zero(*n.k)}, w, "norm");
		auto u = A.conj().tensordot(A, dims, dims);
		compare(c, *n.k, u, {{}, zero(*n.k)}, w, "norm, conjugate first");
		if constexpr (std::is_same_v<T, double>)
			REQUIRE(t.item().toDouble() == want, "item");
		unchanged(c, A, R, "operand");
	});
}
MC_SUITE(shift_of_a_dimension)
{
	auto menu = menu11(c.thorough);
	auto &n = c.pick(menu, "structure");
	if (n.s.legs.empty())
		c.skip();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 6 : 3);
	int dim = c.choose(n.s.legs.size(), "dimension");
	auto sh = shifts(*n.k);
	Val s;
	int own = c.choose(n.s.legs[dim].size() + 2, "where the shift comes from"); // a value, the tensor's own quantities or rule
	if (own == 0)
		s = c.pick(sh, "shift");
	else
		s = qm::norm(*n.k, own == 1 ? n.s.rule : n.s.legs[dim][own - 2].q);
	int form = c.choose(3, "form");
	if (form == 0 && own > 1)
		c.skip();
	auto R = make_ref(*n.k, n.s, present, 1);
	static const char *names[] = {"cval_shift", "cval_shift_", "free cval_shift_"};
	c.describe(mc::cat(names[form], " of ", str(n.s), present_str(present), " dimension ", dim, " by ", qm::str(s), own == 0 ? "" : own == 1 ? " (its selection rule)" : " (its own quantity)"));
	auto A = build(R);
	auto want = R;
	for (auto &x : want.s.legs[dim])
		x.q = qm::add(*n.k, qm::norm(*n.k, x.q), s);
	want.s.rule = qm::add(*n.k, qm::norm(*n.k, n.s.rule), s);
	auto q = n.k->make(s);
	btensor B = A;
	auto go = [&](any_quantity_cref v) {
		if (form == 0)
			B = A.cval_shift(v, dim);
		else
		{
			auto &x = form == 1 ? B.cval_shift_(v, dim) : quantit::cval_shift_(B, v, dim);
			REQUIRE(&x == &B, "returns another tensor");
		}
	};
	if (own == 0)
		go(q);
	else if (own == 1)
		go(B.selection_rule);
	else
		go(B.section_conserved_qtt(dim, own - 2));
	match(c, B, want, "shifted");
	unchanged(c, A, R, "operand");
	auto C = B.cval_shift(n.k->make(qm::inv(*n.k, s)), dim);
	match(c, C, R, "shifted back");
}
// operations that may break the rule are for tensors without blocks only
MC_SUITE(empty_tensors)
{
	auto menu = menu11(c.thorough);
	auto &n = c.pick(menu, "structure");
	auto all = blocks_allowed(*n.k, n.s);
	auto present = choose_present(c, all, 1);
	if (present.size() && present.size() != all.size() && present.size() > 1)
		present.resize(1);
	int op = c.choose(9, "operation");
	auto sh = shifts(*n.k);
	Val v = c.pick(sh, "quantity");
	int dim = (op == 0 || op == 1) ? c.choose(n.s.legs.size(), "dimension") : 0;
	static const char *names[] = {"non_conserving_cval_shift_", "free non_conserving_cval_shift_", "shift_selection_rule_", "free shift_selection_rule_", "set_selection_rule_", "free set_selection_rule_", "neutral_selection_rule_", "neutral_selection_rule", "neutral_shape(_)"};
	auto R = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat(names[op], " of ", str(n.s), present_str(present), " with ", qm::str(v), " dimension ", dim));
	auto A = build(R);
	auto want = R;
	auto nrule = qm::norm(*n.k, n.s.rule);
	if (op < 2)
		for (auto &x : want.s.legs[dim])
			x.q = qm::add(*n.k, qm::norm(*n.k, x.q), v);
	else if (op < 4)
		want.s.rule = qm::add(*n.k, nrule, v);
	else if (op < 6)
		want.s.rule = v;
	else
	{
		want.s.rule = zero(*n.k);
		if (op == 8)
			for (auto &l : want.s.legs)
				for (auto &x : l)
					x.q = zero(*n.k);
	}
	auto q = n.k->make(v);
	auto go = [&] {
		switch (op)
		{
		case 0: REQUIRE(&A.non_conserving_cval_shift_(q, dim) == &A); break;
		case 1: REQUIRE(&quantit::non_conserving_cval_shift_(A, q, dim) == &A); break;
		case 2: REQUIRE(&A.shift_selection_rule_(q) == &A); break;
		case 3: REQUIRE(&quantit::shift_selection_rule_(A, q) == &A); break;
		case 4: REQUIRE(&A.set_selection_rule_(q) == &A); break;
		case 5: REQUIRE(&quantit::set_selection_rule_(A, q) == &A); break;
		case 6: REQUIRE(&A.neutral_selection_rule_() == &A); break;
		case 7:
		{
			auto B = A.neutral_selection_rule();
			unchanged(c, A, R, "operand");
			A = B;
			break;
		}
		default:
		{
			auto B = A.neutral_shape();
			unchanged(c, A, R, "operand");
			REQUIRE(&A.neutral_shape_() == &A);
			same_structure(c, *n.k, B, want.s, "neutral_shape");
		}
		}
	};
	if (present.empty())
	{
		go();
		match(c, A, want, names[op]);
	}
	else
	{
		REQUIRE(throws(go), "accepted on a tensor with blocks");
		unchanged(c, A, R, "refused operation");
	}
}
MC_SUITE(refused)
{
	auto menu = menu11(c.thorough);
	auto &n = c.pick(menu, "structure");
	int op = c.choose(5, "operation");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), 1);
	static const char *names[] = {"cval_shift_", "cval_shift", "non_conserving_cval_shift_", "shift_selection_rule_", "set_selection_rule_"};
	if (op == 4 && n.s.legs.empty())
		c.skip(); // nothing to be compatible with
	bool kind = op > 2 || c.flip("another kind of quantity");
	int r = n.s.legs.size();
	int dim = 0;
	if (kind && op <= 2)
		dim = c.choose(r, "dimension");
	if (!kind)
		dim = c.pick(std::vector<int>{r, r + 1, -r - 1, 100, -100}, "dimension");
	auto &other = n.k == &kC2() ? kC3() : n.k == &kZ() ? kZC2() : n.k == &kZC2() ? kZ() : kC2();
	auto q = kind ? other.make(zero(other)) : n.k->make(zero(*n.k));
	auto R = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat(names[op], " of ", str(n.s), present_str(present), kind ? mc::cat(" by a quantity of kind ", other.name) : mc::cat(" dimension ", dim)));
	auto A = build(R);
	c.step();
	REQUIRE(throws([&] {
		        switch (op)
		        {
		        case 0: A.cval_shift_(q, dim); break;
		        case 1: A.cval_shift(q, dim); break;
		        case 2: A.non_conserving_cval_shift_(q, dim); break;
		        case 3: A.shift_selection_rule_(q); break;
		        default: A.set_selection_rule_(q); break;
		        }
	        }),
	        "accepted");
	unchanged(c, A, R, "refused operation");
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
