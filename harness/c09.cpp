// C09: operations leave their operands unchanged and results do not share storage
#include "ops.h"
using namespace bm;
namespace
{
using Un = std::function<btensor(const btensor &)>;
using Bin = std::function<btensor(const btensor &, const btensor &)>;
void scribble(const btensor &t)
{
	for (auto &b : t.blocks())
	{
		auto x = std::get<1>(b);
		if (x.dtype() == torch::kBool)
			x.logical_not_();
		else
			x.mul_(-3).add_(1000);
	}
}
std::vector<Named> menu9(bool thorough)
{
	auto o = structures(3, thorough);
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	auto add = [&](std::vector<Leg> l, int rule) { o.push_back({&kZ(), {l, {rule}}}); };
	add({{S(1, 1), S(2, 0)}, {S(1, 1), S(2, 0)}}, 1);
	add({{S(2, 1), S(1, 0)}, {S(1, -1), S(2, 0)}}, 0);
	return o;
}
idx iota(int64_t n)
{
	idx o(n);
	std::iota(o.begin(), o.end(), 0);
	return o;
}
struct NamedUn
{
	const char *name;
	bool view;
	Un f;
};
const std::vector<NamedUn> &unaries()
{
	using B = const btensor &;
	static std::vector<NamedUn> o = {
	    {"abs", false, [](B a) { return a.abs(); }},
	    {"free abs sqrt", false, [](B a) { return sqrt(a.abs()); }},
	    {"pow 2", false, [](B a) { return a.pow(2); }},
	    {"pow 1", false, [](B a) { return a.pow(1); }},
	    {"free pow", false, [](B a) { return pow(a, 1); }},
	    {"mul 1", false, [](B a) { return a.mul(1); }},
	    {"times 1", false, [](B a) { return a * 1; }},
	    {"1 times", false, [](B a) { return 1 * a; }},
	    {"multiply 1", false, [](B a) { return a.multiply(1); }},
	    {"div 1", false, [](B a) { return a.div(1); }},
	    {"over 1", false, [](B a) { return a / 1; }},
	    {"1 over", false, [](B a) { return 1 / a; }},
	    {"minus", false, [](B a) { return -a; }},
	    {"member minus", false, [](B a) { auto b = a; return b.operator-(); }},
	    {"ge", false, [](B a) { return a.ge(0); }},
	    {"le", false, [](B a) { return a.le(0); }},
	    {"less", false, [](B a) { return a.less(0); }},
	    {"greater", false, [](B a) { return a.greater(0); }},
	    {"eq", false, [](B a) { return a.eq(0); }},
	    {"not_equal", false, [](B a) { return a.not_equal(0); }},
	    {"isnan", false, [](B a) { return a.isnan(); }},
	    {"sum", false, [](B a) { return a.sum(); }},
	    {"free sum", false, [](B a) { return sum(a); }},
	    {"plus nothing", false, [](B a) { return a.add(sparse_zeros_like(a)); }},
	    {"nothing plus", false, [](B a) { return sparse_zeros_like(a).add(a); }},
	    {"nothing minus", false, [](B a) { return sparse_zeros_like(a).sub(a, -1); }},
	    {"nothing plus, in place", false, [](B a) { auto o = sparse_zeros_like(a); o.add_(a); return o; }},
	    {"nothing plus copy, in place", false, [](B a) { auto o = sparse_zeros_like(a); o.add_(btensor(a)); return o; }},
	    {"nothing plus copy", false, [](B a) { return sparse_zeros_like(a).add(btensor(a)); }},
	    {"nothing minus view, in place", false, [](B a) { auto o = sparse_zeros_like(a.conj()); o -= a.conj(); return o; }},
	    {"nothing minus permuted view, in place", false, [](B a) {
		     idx p(iota(a.dim()));
		     std::reverse(p.begin(), p.end());
		     auto o = sparse_zeros_like(a.permute(p));
		     o.sub_(a.permute(p));
		     return o; }},
	    {"nothing minus permuted view", false, [](B a) {
		     idx p(iota(a.dim()));
		     std::reverse(p.begin(), p.end());
		     return sparse_zeros_like(a.permute(p)).sub(a.permute(p)); }},
	    {"nothing plus reshaped view, in place", false, [](B a) {
		     auto o = sparse_zeros_like(a.reshape({}));
		     o += a.reshape({});
		     return o; }},
	    {"assigned to empty", false, [](B a) { auto o = sparse_zeros_like(a); o.basic_index_put_(idx(a.dim(), -1), a); return o; }},
	    {"dense and back", false, [](B a) { return from_basic_tensor_like(a, a.to_dense()); }},
	    {"tensordot with 1", false, [](B a) { return a.tensordot(ones(btensor::vec_list_t{}, a.selection_rule->neutral(), a.options()), {}, {}); }},
	    {"1 tensordot", false, [](B a) { return ones(btensor::vec_list_t{}, a.selection_rule->neutral(), a.options()).tensordot(a, {}, {}); }},
	    {"tensordot with conjugate", false, [](B a) { auto d = iota(a.dim()); return a.tensordot(a.conj(), d, d); }},
	    {"tensordot with itself", false, [](B a) { return a.tensordot(a, {}, {}); }},
	    {"zeros_like", false, [](B a) { return zeros_like(a); }},
	    {"ones_like", false, [](B a) { return ones_like(a); }},
	    {"full_like", false, [](B a) { return full_like(a, 3); }},
	    {"rand_like", false, [](B a) { return rand_like(a); }},
	    {"eye_like", false, [](B a) { return eye_like(a); }},
	    {"shape_from", false, [](B a) { return a.shape_from(idx(a.dim(), -1)); }},
	    {"neutral_shape", false, [](B a) { return sparse_zeros_like(a).neutral_shape(); }},
	    {"tensor_product_shape", false, [](B a) { return a.tensor_product_shape(a); }},
	    {"to float", false, [](B a) { return a.to(torch::kFloat); }},
	    {"to copy", false, [](B a) { return a.to(torch::kDouble, false, true); }},
	    {"to copy like", false, [](B a) { return a.to(a, false, true); }},
	    // views
	    {"copy", true, [](B a) { return a; }},
	    {"to same", true, [](B a) { return a.to(torch::kDouble); }},
	    {"permute identity", true, [](B a) { return a.permute(iota(a.dim())); }},
	    {"permute", true, [](B a) { auto p = iota(a.dim()); std::reverse(p.begin(), p.end()); return a.permute(p); }},
	    {"transpose", true, [](B a) { return a.transpose(0, -1); }},
	    {"t", true, [](B a) { return a.t(); }},
	    {"reshape merged", true, [](B a) { return a.reshape(torch::IntArrayRef()); }},
	    {"reshape same", true, [](B a) { auto p = iota(a.dim()); p.at(0), p.erase(p.begin()); return a.reshape(p); }},
	    {"reshape_as", true, [](B a) { return a.reshape_as(a); }},
	    {"squeeze", true, [](B a) { return a.squeeze(); }},
	    {"squeeze 0", true, [](B a) { return a.squeeze(0); }},
	    {"conj", true, [](B a) { return a.conj(); }},
	    {"conj_only", true, [](B a) { return a.conj_only(); }},
	    {"inverse_cvals", true, [](B a) { return a.inverse_cvals(); }},
	    {"inverse_cvals of a copy", true, [](B a) { return inverse_cvals(btensor(a)); }},
	    {"cval_shift", true, [](B a) { return a.cval_shift(a.selection_rule, 0); }},
	    {"neutral_selection_rule", true, [](B a) { return sparse_zeros_like(a).neutral_selection_rule(); }},
	    {"slice 0", true, [](B a) { auto b = a; idx e(a.dim(), -1); e.at(0) = 0; return b.basic_create_view(e); }},
	    {"slice last keeping the rank", true, [](B a) { auto b = a; idx e(a.dim(), -1); e.at(a.dim() - 1) = 0; return b.basic_create_view(e, true); }},
	    {"whole slice", true, [](B a) { auto b = a; return b.basic_create_view(idx(a.dim(), -1)); }},
	};
	return o;
}
struct NamedBin
{
	const char *name;
	Bin f;
};
const std::vector<NamedBin> &binaries()
{
	using B = const btensor &;
	static std::vector<NamedBin> o = {
	    {"add", [](B a, B b) { return a.add(b); }},
	    {"add copy", [](B a, B b) { return a.add(btensor(b)); }},
	    {"add copy times 2", [](B a, B b) { return a.add(btensor(b), 2); }},
	    {"plus", [](B a, B b) { return a + b; }},
	    {"sub", [](B a, B b) { return a.sub(b); }},
	    {"sub copy", [](B a, B b) { return a.sub(btensor(b)); }},
	    {"subtract", [](B a, B b) { return a.subtract(b); }},
	    {"minus", [](B a, B b) { return a - b; }},
	    {"mul", [](B a, B b) { return a.mul(b); }},
	    {"times", [](B a, B b) { return a * b; }},
	    {"div", [](B a, B b) { return a.div(b); }},
	    {"over", [](B a, B b) { return a / b; }},
	    {"pow", [](B a, B b) { return a.abs().pow(b); }},
	    {"pow itself", [](B a, B b) { return a.pow(b); }},
	    {"ge", [](B a, B b) { return a.ge(b); }},
	    {"le", [](B a, B b) { return a.le(b); }},
	    {"less", [](B a, B b) { return a.less(b); }},
	    {"greater", [](B a, B b) { return a.greater(b); }},
	    {"eq", [](B a, B b) { return a.eq(b); }},
	    {"not_equal", [](B a, B b) { return a.not_equal(b); }},
	    {"bmm", [](B a, B b) { return a.bmm(b); }},
	    {"outer product", [](B a, B b) { return a.tensordot(b, {}, {}); }},
	    {"tensordot last first", [](B a, B b) { return tensordot(a, b, {a.dim() - 1}, {0}); }},
	    {"tensordot first first", [](B a, B b) { return a.tensordot(b, {0}, {0}); }},
	    {"tensordot all", [](B a, B b) { auto d = iota(a.dim()); return a.tensordot(b, d, d); }},
	    {"tensor_product_shape", [](B a, B b) { return a.tensor_product_shape(b); }},
	    {"shape_from", [](B a, B b) { return shape_from(a, b); }},
	    // in place on a deep copy: only the second operand is to be kept
	    {"add_", [](B a, B b) { auto o = a * 1; o.add_(b); return o; }},
	    {"add_ 2", [](B a, B b) { auto o = a * 1; o.add_(b, 2); return o; }},
	    {"add_ copy", [](B a, B b) { auto o = a * 1; o.add_(btensor(b)); return o; }},
	    {"add_ view", [](B a, B b) { auto o = a * 1; o.add_(b.conj_only()); return o; }},
	    {"+=", [](B a, B b) { auto o = a * 1; o += b; return o; }},
	    {"sub_", [](B a, B b) { auto o = a * 1; o.sub_(b); return o; }},
	    {"sub_ copy", [](B a, B b) { auto o = a * 1; o.sub_(btensor(b)); return o; }},
	    {"-= view", [](B a, B b) { auto o = a * 1; o -= b.permute(iota(b.dim())); return o; }},
	    {"sub view", [](B a, B b) { return a.sub(b.permute(iota(b.dim()))); }},
	    {"subtract_", [](B a, B b) { auto o = a * 1; o.subtract_(b); return o; }},
	    {"mul_", [](B a, B b) { auto o = a * 1; o.mul_(b); return o; }},
	    {"*=", [](B a, B b) { auto o = a * 1; o *= b; return o; }},
	    {"div_", [](B a, B b) { auto o = a * 1; o.div_(b); return o; }},
	    {"pow_", [](B a, B b) { auto o = a * 1; o.pow_(b); return o; }},
	    {"assigned", [](B a, B b) { auto o = a * 1; o.basic_index_put_(idx(a.dim(), -1), b); return o; }},
	    {"assigned to a slice", [](B a, B b) { auto o = a * 1; idx e(a.dim(), -1); e.at(0) = 0; o.basic_index_put_(e, b); return o; }},
	    {"assigned dense", [](B a, B b) { auto o = a * 1; o.basic_index_put_(idx(a.dim(), -1), b.to_dense()); return o; }},
	};
	return o;
}
} // namespace
// ---------------------------------------------------------------- one operand
MC_SUITE(one_operand)
{
	auto menu = menu9(c.thorough);
	auto &n = c.pick(menu, "structure");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 6 : 4);
	auto &op = unaries()[c.choose(unaries().size(), "operation")];
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat(op.name, " of ", str(n.s), present_str(present)));
	auto A = build(A_);
	auto A2 = A; // a copy taken before is not affected either
	btensor R;
	c.step();
	bool threw = throws([&] { R = op.f(std::as_const(A)); });
	unchanged(c, A, A_, "operand");
	unchanged(c, A2, A_, "earlier copy of the operand");
	if (threw)
		return;
	valid(c, R, "result");
	if (!op.view)
	{
		auto before = R.to_dense().clone();
		scribble(R);
		unchanged(c, A, A_, "operand after the result is modified");
		auto now = R.to_dense().clone();
		scribble(A);
		REQUIRE(torch::allclose(R.to_dense().to(torch::kDouble), now.to(torch::kDouble), 0, 0, true), "result changed with its operand");
		REQUIRE(btensor::check_tensor(R) == "", "result after the operand is modified");
	}
}
// ---------------------------------------------------------------- structure of a copy or of a view
MC_SUITE(structure_of_copies)
{
	auto menu = menu9(c.thorough);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	auto all = blocks_allowed(*n.k, n.s);
	auto present = choose_present(c, all, c.thorough ? 5 : 3);
	std::vector<NamedUn> views;
	for (auto &u : unaries())
		if (u.view)
			views.push_back(u);
	auto &v = views[c.choose(views.size(), "view")];
	static const char *names[] = {"permute_", "transpose_", "t_", "inverse_cvals_", "cval_shift_", "non_conserving_cval_shift_", "shift_selection_rule_", "set_selection_rule_", "neutral_selection_rule_", "neutral_shape_", "squeeze_", "squeeze_ 0", "reserve_space_", "new blocks", "blocks replaced", "assigned", "assigned a temporary", "swapped", "moved from", "destroyed", "add_ others", "reallocated"};
	int op = c.choose(22, "change of the view");
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat(names[op], " on ", v.name, " of ", str(n.s), present_str(present)));
	auto A = build(A_);
	auto x = n.k->make(Val(n.k->mods.size(), 1));
	auto other_ = make_ref(kZ(), {{{{1, {0}}, {1, {1}}}}, {1}}, {{1}}, 7);
	btensor other = build(other_);
	auto V = std::make_unique<btensor>();
	if (throws([&] { *V = v.f(A); }))
		c.skip();
	c.step();
	throws([&] {
		auto &B = *V;
		switch (op)
		{
		case 0: { auto p = iota(B.dim()); std::rotate(p.begin(), p.begin() + (p.empty() ? 0 : 1), p.end()); B.permute_(p); break; }
		case 1: B.transpose_(0, -1); break;
		case 2: B.t_(); break;
		case 3: B.inverse_cvals_(); break;
		case 4: B.cval_shift_(x, 0); break;
		case 5: B.non_conserving_cval_shift_(x, 0); break;
		case 6: B.shift_selection_rule_(x); break;
		case 7: B.set_selection_rule_(x); break;
		case 8: B.neutral_selection_rule_(); break;
		case 9: B.neutral_shape_(); break;
		case 10: B.squeeze_(); break;
		case 11: B.squeeze_(0); break;
		case 12: B.reserve_space_(64); break;
		case 13:
			each(idx(B.section_numbers().begin(), B.section_numbers().end()), [&](const idx &b) {
				if (B.block_conservation_rule_test(b))
				{
					auto s = B.block_sizes(b);
					auto &y = B.block(b);
					if (!y.defined())
						y = torch::ones(idx(s.begin(), s.end()), torch::kDouble);
				}
			});
			break;
		case 14:
			for (auto &b : B)
				std::get<1>(b) = torch::ones_like(std::get<1>(b));
			break;
		case 15: B = other; break;
		case 16: B = btensor(other); break;
		case 17: { btensor o2 = other; B.swap(o2); break; }
		case 18: { btensor o2 = std::move(B); B = other; scribble(B); break; }
		case 19: V.reset(); break;
		case 20: B = B.add(ones_like(B)); break;
		case 21: for (auto &b : B) std::get<1>(b) = std::get<1>(b).clone(); scribble(B); break;
		}
	});
	unchanged(c, A, A_, "original");
	if (op == 15 || op == 16)
		unchanged(c, other, other_, "assigned tensor");
	if (V)
		REQUIRE(op == 7 || op == 8 || op == 6 || op == 5 || op == 9 || btensor::check_tensor(*V) == "", "view invalid");
	V.reset();
	if (!present.empty())
		A.block_at(present[0]); // still readable
	unchanged(c, A, A_, "original after the view is gone");
}
// ---------------------------------------------------------------- two operands
static Shape second_shape(const Kind &k, const Shape &s, int how)
{
	Shape o = s;
	switch (how)
	{
	case 1: // contractible over every dimension
		for (auto &l : o.legs)
			l = inv(k, l);
		o.rule = qm::inv(k, o.rule);
		break;
	case 2: // one element along the first dimension
		if (!o.legs.empty())
			o.legs[0] = {{1, qm::zero(k)}};
		break;
	case 3: // reversed and contractible
		for (auto &l : o.legs)
			l = inv(k, l);
		std::reverse(o.legs.begin(), o.legs.end());
		o.rule = qm::inv(k, o.rule);
		break;
	case 4:
		o.legs.clear();
		o.rule = qm::zero(k);
		break;
	case 5: // a slice
		if (!o.legs.empty())
		{
			o.rule = qm::add(k, qm::norm(k, o.rule), qm::inv(k, o.legs[0][0].q));
			o.legs.erase(o.legs.begin());
		}
		break;
	}
	return o;
}
MC_SUITE(two_operands)
{
	auto menu = menu9(c.thorough);
	auto &n = c.pick(menu, "structure");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 5 : 3);
	auto s2 = second_shape(*n.k, n.s, c.choose(6, "second structure"));
	auto present2 = choose_present(c, blocks_allowed(*n.k, s2), c.thorough ? 4 : 2);
	auto &op = binaries()[c.choose(binaries().size(), "operation")];
	auto A_ = make_ref(*n.k, n.s, present, 1), B_ = make_ref(*n.k, s2, present2, 2);
	c.describe(mc::cat(op.name, " of ", str(n.s), present_str(present), " and ", str(s2), present_str(present2)));
	auto A = build(A_), B = build(B_);
	auto B2 = B;
	btensor R;
	c.step();
	bool threw = throws([&] { R = op.f(std::as_const(A), std::as_const(B)); });
	unchanged(c, A, A_, "first operand");
	unchanged(c, B, B_, "second operand");
	unchanged(c, B2, B_, "earlier copy of the second operand");
	if (threw)
		return;
	valid(c, R, "result");
	scribble(R);
	unchanged(c, A, A_, "first operand after the result is modified");
	unchanged(c, B, B_, "second operand after the result is modified");
	auto now = R.to_dense().clone();
	scribble(A);
	scribble(B);
	REQUIRE(torch::allclose(R.to_dense().to(torch::kDouble), now.to(torch::kDouble), 0, 0, true), "result changed with its operands");
}
// ---------------------------------------------------------------- destination and operand are the same tensor
MC_SUITE(aliased)
{
	auto menu = menu9(c.thorough);
	auto &n = c.pick(menu, "structure");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 6 : 4);
	static const char *names[] = {"add_", "sub_", "mul_", "div_", "pow_ of abs", "+=", "-=", "*=", "/=", "assign itself", "swap with itself", "assign whole slice", "move in itself", "add_ moved itself", "t_ twice"};
	int op = c.choose(15, "operation"), how = c.choose(2, "same object or a copy");
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat(names[op], how ? " with its copy " : " with itself ", str(n.s), present_str(present)));
	auto A = build(A_);
	btensor C = A;
	if (op == 4)
		for (auto &b : A)
			std::get<1>(b).abs_();
	btensor &B = how ? C : A;
	auto want = A_;
	auto elementwise = [&](double sign, auto &&f) {
		want = map_stored(A_, f);
		if (sign == 0)
			return;
		for (size_t d = 0; d < n.s.legs.size(); ++d)
			for (auto &s : want.s.legs[d])
			{
				auto q = qm::norm(*n.k, s.q);
				s.q = qm::add(*n.k, q, q);
			}
		auto q = qm::norm(*n.k, n.s.rule);
		want.s.rule = qm::add(*n.k, q, q);
	};
	c.step();
	bool threw = throws([&] {
		switch (op)
		{
		case 0: A.add_(B); break;
		case 1: A.sub_(B); break;
		case 2: A.mul_(B); break;
		case 3: A.div_(B); break;
		case 4: A.pow_(B); break;
		case 5: A += B; break;
		case 6: A -= B; break;
		case 7: A *= B; break;
		case 8: A /= B; break;
		case 9: A = B; break;
		case 10: A.swap(B); break;
		case 11: A.basic_index_put_(idx(A.dim(), -1), B); break;
		case 12: A = std::move(B); break;
		case 13: A.add_(btensor(B)); break;
		case 14:
			if (A.dim() >= 2)
				A.t_(), A.t_();
			break;
		}
	});
	REQUIRE(!threw, "threw");
	switch (op)
	{
	case 0:
	case 5:
	case 13: elementwise(0, [](double x) { return 2 * x; }); break;
	case 1:
	case 6: elementwise(0, [](double x) { return x - x; }); break;
	case 2:
	case 7: elementwise(1, [](double x) { return x * x; }); break;
	case 3:
	case 8: elementwise(1, [](double x) { return x / x; }); break;
	case 4: elementwise(1, [](double x) { return std::pow(std::abs(x), std::abs(x)); }); break;
	}
	compare(c, *n.k, A, want.s, want.a, "destination", 1e-12);
	if (how && op != 12)
		valid(c, C, "the copy");
}
// a slice of a tensor assigned to another place of the same tensor
MC_SUITE(aliased_slice)
{
	auto menu = menu9(c.thorough);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	if (r == 0)
		c.skip();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 6 : 4);
	int64_t d = c.choose(r, "dimension"), len = size_of(n.s.legs[d]);
	int64_t i = c.choose(len, "from"), j = c.choose(len, "to");
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("slice ", i, " put at ", j, " of dimension ", d, ", ", str(n.s), present_str(present)));
	auto A = build(A_);
	idx ei(r, -1), ej(r, -1);
	ei[d] = i;
	ej[d] = j;
	auto v = A.basic_create_view(ei);
	auto v_ = sliced(A_, ei);
	auto sec = [&](int64_t e) {
		size_t s = 0;
		while (e >= n.s.legs[d][s].size)
			e -= n.s.legs[d][s++].size;
		return n.s.legs[d][s].q;
	};
	c.step();
	bool threw = throws([&] { A.basic_index_put_(ej, v); });
	bool same = qm::norm(*n.k, sec(i)) == qm::norm(*n.k, sec(j));
	REQUIRE(threw == !same, threw ? "refused" : "accepted");
	auto want = A_;
	if (same)
		each(A_.a.shape, [&](const idx &x) {
			auto y = x;
			y[d] = i;
			if (x[d] == j)
				want.a(x) = A_.a(y);
		});
	compare(c, *n.k, A, want.s, want.a, "destination", 0);
	if (i != j)
		compare(c, *n.k, v, v_.s, v_.a, "slice", 0);
}
// ---------------------------------------------------------------- dense operands
MC_SUITE(dense_operands)
{
	auto menu = menu9(c.thorough);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), c.thorough ? 6 : 4);
	static const char *names[] = {"from_basic_tensor", "from_basic_tensor_like", "basic_index_put_", "basic_index_put_ in a slice", "to_dense"};
	int op = c.choose(5, "operation");
	if (op == 3 && r == 0)
		c.skip();
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat(names[op], " ", str(n.s), present_str(present)));
	auto A = build(A_);
	auto dense = to_torch(A_.a);
	auto copy = dense.clone();
	btensor R;
	idx e(r, -1);
	c.step();
	switch (op)
	{
	case 0: R = from_basic_tensor(shape_list(*n.k, n.s), n.k->make(n.s.rule), dense); break;
	case 1: R = from_basic_tensor_like(A, dense); break;
	case 2:
		R = zeros_like(A);
		R.basic_index_put_(e, dense);
		break;
	case 3:
		e[0] = 0;
		dense = dense.select(0, 0);
		copy = dense.clone();
		R = A * 1;
		R.basic_index_put_(e, dense);
		break;
	case 4:
	{
		auto x = A.to_dense();
		x.fill_(9);
		unchanged(c, A, A_, "tensor after its dense form is modified");
		x = A.to_dense();
		scribble(A);
		REQUIRE(x.equal(copy), "dense form changed with the tensor");
		return;
	}
	}
	REQUIRE(dense.equal(copy), "dense operand changed");
	compare(c, *n.k, R, n.s, A_.a, "result", 0);
	dense.fill_(9);
	compare(c, *n.k, R, n.s, A_.a, "result after the dense operand is modified", 0);
	dense.copy_(copy);
	scribble(R);
	REQUIRE(dense.equal(copy), "dense operand changed with the result");
	unchanged(c, A, A_, "shape operand");
}
// ---------------------------------------------------------------- programs: every earlier tensor stays what it was
static void history(mc::Ctx &c, int depth, int free, bool few)
{
	auto menu = menu9(c.thorough && !few);
	if (few) // one structure of each rank
	{
		std::vector<Named> some;
		for (auto &n : menu)
			if (std::none_of(some.begin(), some.end(), [&](auto &s) { return s.s.legs.size() == n.s.legs.size(); }))
				some.push_back(n);
		menu = some;
	}
	auto &n = c.pick(menu, "structure");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), free);
	struct Live
	{
		btensor t;
		Ref r;
		int group;
	};
	std::vector<Live> live;
	{
		auto r = make_ref(*n.k, n.s, present, 1);
		live.push_back({build(r), r, 0});
	}
	std::string d = mc::cat(str(n.s), present_str(present));
	int groups = 1;
	for (int i = 0; i < depth; ++i)
	{
		// any of the tensors so far
		size_t w = live.size() > 1 ? c.choose(live.size(), "tensor") : 0;
		c.describe(d + ", then another operation");
		auto s = choose_op(c, live[w].t, live[w].r);
		d += mc::cat(", ", s.name, " of the tensor ", w);
		c.describe(d);
		c.step();
		int g = live[w].group;
		for (auto &l : live)
			if (!s.inplace || l.group != g)
				unchanged(c, l.t, l.r, "earlier tensor");
			else
				same_structure(c, *l.r.k, l.t, l.r.s, "earlier tensor");
		if (s.inplace) // the tensors that share storage now have unspecified elements
		{
			std::vector<Live> keep;
			for (auto &l : live)
				if (l.group != g)
					keep.push_back(l);
			live = keep;
		}
		live.push_back({s.t, s.r, s.view || s.inplace ? g : groups++});
	}
	c.describe(d + ", then the blocks of one are modified");
	size_t w = c.choose(live.size(), "modified tensor");
	scribble(live[w].t);
	for (auto &l : live)
		if (l.group != live[w].group)
			compare(c, *l.r.k, l.t, l.r.s, l.r.a, "other tensor");
}
MC_SUITE(histories_of_two) { history(c, 2, c.thorough ? 4 : 1, false); }
MC_THOROUGH_SUITE(histories_of_three) { history(c, 3, 0, true); }
// ---------------------------------------------------------------- lifecycle of the objects
MC_SUITE(lifecycle)
{
	auto all = menu9(false), menu = all;
	if (!c.thorough)
	{
		menu.clear();
		for (auto &n : all)
			if (std::none_of(menu.begin(), menu.end(), [&](auto &s) { return s.s.legs.size() == n.s.legs.size(); }))
				menu.push_back(n);
	}
	auto &n = c.pick(menu, "structure");
	auto &m = c.pick(menu, "other structure");
	Ref a_ = make_ref(*n.k, n.s, blocks_allowed(*n.k, n.s), 1), b_ = make_ref(*m.k, m.s, blocks_allowed(*m.k, m.s), 2);
	bool other_type = c.flip("second tensor of floats");
	std::string d = mc::cat(str(n.s), " and ", str(m.s), other_type ? " of floats" : "");
	c.describe(d);
	auto A = build(a_), B = build(b_);
	const auto tb = other_type ? torch::kFloat : torch::kDouble;
	if (other_type)
	{ // without losing anything
		for (auto &x : b_.a.v)
			x = (int)(8 * x);
		B = build(b_).to(tb);
	}
	btensor D;
	REQUIRE(D.dim() == 0 && D.begin() == D.end() && D.sizes().empty(), "a default constructed tensor has ", D.dim(), " dimensions");
	// state of each of three objects: 0 the first tensor, 1 the second, 2 unspecified (default or moved from)
	std::vector<btensor *> obj{&A, &B, &D};
	int st[3] = {0, 1, 2};
	for (int i = 0; i < 2; ++i)
	{
		int op = c.choose(7, "operation"), x = c.choose(3, "object"), y = c.choose(3, "other object");
		static const char *names[] = {"copy assign", "move assign", "swap", "copy then move back", "construct copy", "construct move", "free swap"};
		d += mc::cat(", ", names[op], " ", x, " ", y);
		c.describe(d);
		c.step();
		auto &X = *obj[x];
		auto &Y = *obj[y];
		switch (op)
		{
		case 0:
			X = Y;
			st[x] = st[y];
			break;
		case 1:
			X = std::move(Y);
			std::swap(st[x], st[y]);
			if (x != y)
				st[y] = 2;
			break;
		case 2:
			X.swap(Y);
			std::swap(st[x], st[y]);
			break;
		case 3:
		{
			btensor t = X;
			X = Y;
			Y = std::move(t);
			std::swap(st[x], st[y]);
			break;
		}
		case 4:
		{
			btensor t(X);
			btensor u(t);
			Y = u;
			st[y] = st[x];
			break;
		}
		case 5:
		{
			btensor t(std::move(X));
			int s = st[x];
			st[x] = 2;
			Y = t;
			st[y] = s;
			break;
		}
		case 6:
			quantit::swap(X, Y);
			std::swap(st[x], st[y]);
			break;
		}
		for (int j = 0; j < 3; ++j)
			if (st[j] < 2)
			{
				unchanged(c, *obj[j], st[j] ? b_ : a_, mc::cat("object ", j));
				REQUIRE(obj[j]->options().dtype() == (st[j] ? tb : torch::kDouble), "element type of object ", j);
			}
	}
	D = A; // a moved from or default object can be assigned
	if (st[0] < 2)
		unchanged(c, D, st[0] ? b_ : a_, "assigned");
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
