// C01: conserved quantities are abelian groups, whatever spelling of the operation is used
#include "quant.h"
using namespace qm;
namespace
{
std::vector<Kind> kinds(bool thorough)
{
	std::vector<Kind> k{kind<Z>("Z"), kind<C<1>>("C1"), kind<C<2>>("C2"), kind<C<3>>("C3"), kind<C<5>>("C5"), kind<Z, Z>("ZxZ"),
	                    kind<Z, C<2>>("ZxC2"), kind<C<2>, Z>("C2xZ"), kind<C<2>, C<3>>("C2xC3"), kind<C<4>, Z>("C4xZ"), kind<C<6>>("C6")};
	if (thorough)
	{
		k.push_back(kind<Z, Z, C<2>>("ZxZxC2"));
		k.push_back(kind<Z, Z, C<4>>("ZxZxC4"));
		k.push_back(kind<C<7>>("C7"));
		k.push_back(kind<C<3>, Z, C<2>>("C3xZxC2"));
	}
	return k;
}
// the value held must be exactly v: equal to v, different from every other element
void check_is(mc::Ctx &c, const Kind &k, const std::vector<Val> &el, const vquantity &q, const Val &v, const std::string &what)
{
	c.step();
	auto e = k.make(v);
	if (!(q == e.get()) || (q != e.get()) || q < e.get() || q > e.get() || q.distance2(e) != 0 || !(e.get() == q))
		c.fail(mc::cat(what, ": expected ", str(v), " got ", fmt::format("{}", q)));
	for (auto &o : el)
		if (o != v)
		{
			auto oe = k.make(o);
			if (q == oe.get() || !(q != oe.get()))
				c.fail(mc::cat(what, ": value expected to be ", str(v), " also compares equal to ", str(o)));
		}
}
void pair_checks(mc::Ctx &c, const Kind &k, const std::vector<Val> &el, const Val &a, const Val &b)
{
	const any_quantity A = k.make(a), B = k.make(b);
	any_quantity_cref Ar = A, Br = B;
	auto sum = add(k, a, b), ia = inv(k, a), ib = inv(k, b);
	auto is = [&](const vquantity &q, const Val &v, const std::string &w) { check_is(c, k, el, q, v, w); };
	is((A + B).get(), sum, "A+B");
	is((A * B).get(), sum, "A*B");
	is((Ar + Br).get(), sum, "Aref+Bref");
	is((Ar * Br).get(), sum, "Aref*Bref");
	is((A + Br).get(), sum, "A+Bref");
	is((Ar * B).get(), sum, "Aref*B");
	is((A + any_quantity(B)).get(), sum, "A+move(B)");
	is((A * any_quantity(B)).get(), sum, "A*move(B)");
	is((any_quantity(A) + B).get(), sum, "move(A)+B");
	is((any_quantity(A) * B).get(), sum, "move(A)*B");
	is((any_quantity(A) + any_quantity(B)).get(), sum, "move(A)+move(B)");
	is((any_quantity(A) * any_quantity(B)).get(), sum, "move(A)*move(B)");
	{
		any_quantity x(A);
		auto &r = x += B;
		is(x.get(), sum, "A+=B");
		is(r, sum, "result of A+=B");
	}
	{
		any_quantity x(A);
		auto &r = x *= B;
		is(x.get(), sum, "A*=B");
		is(r, sum, "result of A*=B");
		is(B.get(), b, "B after A*=B");
	}
	{
		any_quantity x(A);
		x.op(B, true);
		is(x.get(), sum, "A.op(B,true)");
		any_quantity y(A);
		y.op(B, false);
		is(y.get(), a, "A.op(B,false)");
		any_quantity z(A);
		z.get().op(B);
		is(z.get(), sum, "ref(A).op(B)");
		any_quantity w(A);
		w.get().op(B, false);
		is(w.get(), a, "ref(A).op(B,false)");
		w.get().op(B, true);
		is(w.get(), sum, "ref(A).op(B,true)");
		any_quantity u(A);
		u.get() *= B;
		is(u.get(), sum, "ref(A)*=B");
		any_quantity t(A);
		t.get() += B;
		is(t.get(), sum, "ref(A)+=B");
		any_quantity s(B);
		Ar.op_to(s.get());
		is(s.get(), sum, "A.op_to(B)");
	}
	{
		any_quantity x(A);
		x *= x;
		is(x.get(), add(k, a, a), "A*=A");
		any_quantity y(A);
		y += y.inverse();
		is(y.get(), zero(k), "A+=A.inverse()");
	}
	is(A.inverse().get(), ia, "A.inverse()");
	is(any_quantity(A).inverse().get(), ia, "move(A).inverse()");
	is(Ar.inverse().get(), ia, "ref(A).inverse()");
	is(Ar.inv().get(), ia, "ref(A).inv()");
	{
		any_quantity x(A);
		x.inverse_();
		is(x.get(), ia, "A.inverse_()");
		x.get().inv_();
		is(x.get(), a, "A.inverse_().inv_()");
		x.get().inverse_();
		is(x.get(), ia, "A.inverse_() x3");
	}
	is(A.neutral().get(), zero(k), "A.neutral()");
	is(Ar.neutral().get(), zero(k), "ref(A).neutral()");
	is((A + B.inverse()).get(), add(k, a, ib), "A+B.inverse()");
	is((A * B * A.inverse()).get(), b, "A*B*A.inverse()");
	is((A.inverse() * B.inverse()).get(), inv(k, sum), "inverse is a homomorphism");
	// order and distance
	bool lt = A < B, gt = A > B, eq = A == B, ne = A != B;
	REQUIRE(eq == (a == b), " a=", str(a), " b=", str(b));
	REQUIRE(ne == !eq, " a=", str(a), " b=", str(b));
	REQUIRE(int(lt) + int(gt) + int(eq) == 1, " a=", str(a), " b=", str(b), " lt=", lt, " gt=", gt, " eq=", eq);
	REQUIRE(lt == (B > A), " a=", str(a), " b=", str(b));
	REQUIRE(gt == (B < A), " a=", str(a), " b=", str(b));
	REQUIRE(distance2(A, B) == dist2(a, b), " a=", str(a), " b=", str(b), " got ", distance2(A, B));
	REQUIRE(std::abs(distance(A, B) - std::sqrt(double(dist2(a, b)))) < 1e-12, " a=", str(a), " b=", str(b));
	REQUIRE(Ar.same_type(Br), "");
	// assignment, copies, swaps
	{
		any_quantity x(A), y(B);
		swap(x, y);
		is(x.get(), b, "swap lhs");
		is(y.get(), a, "swap rhs");
		x.get().swap(y.get());
		is(x.get(), a, "ref swap lhs");
		is(y.get(), b, "ref swap rhs");
		x.swap(y.get());
		is(x.get(), b, "swap with ref lhs");
		is(y.get(), a, "swap with ref rhs");
		any_quantity z(A);
		z = B;
		is(z.get(), b, "z=B");
		z += A;
		is(z.get(), sum, "z=B;z+=A");
		is(B.get(), b, "B after changing its copy");
		z = Ar;
		is(z.get(), a, "z=Aref");
		any_quantity w(B);
		any_quantity_ref wr = w;
		z = wr;
		is(z.get(), b, "z=Bref (non const)");
		z.get() = Ar;
		is(z.get(), a, "ref(z)=Aref");
		z = any_quantity(B);
		is(z.get(), b, "z=move(B)");
		auto cl = Ar.clone();
		*cl *= B;
		is(*cl, sum, "clone(A)*=B");
		is(A.get(), a, "A after changing its clone");
		any_quantity self(A);
		self = self;
		is(self.get(), a, "self assignment");
	}
	is(A.get(), a, "A is unchanged by all operations");
	is(B.get(), b, "B is unchanged by all operations");
	c.state(mc::cat(k.name, str(a), str(b)));
}
} // namespace

// every pair of elements of every kind, every spelling of every operation
MC_SUITE(pairs)
{
	auto ks = kinds(c.thorough);
	auto &k = c.pick(ks, "kind");
	auto el = elements(k, c.thorough ? 3 : 2);
	auto &a = c.pick(el, "a");
	c.shard();
	auto &b = c.pick(el, "b");
	c.describe(mc::cat(k.name, " a=", str(a), " b=", str(b)));
	pair_checks(c, k, el, a, b);
}
// associativity, commutativity and transitivity of the order on triples
MC_SUITE(triples)
{
	auto ks = kinds(c.thorough);
	auto &k = c.pick(ks, "kind");
	auto el = elements(k, c.thorough ? 2 : 1);
	auto &a = c.pick(el, "a");
	c.shard();
	auto &b = c.pick(el, "b");
	auto &d = c.pick(el, "c");
	c.describe(mc::cat(k.name, " a=", str(a), " b=", str(b), " c=", str(d)));
	any_quantity A = k.make(a), B = k.make(b), D = k.make(d);
	check_is(c, k, el, ((A * B) * D).get(), add(k, add(k, a, b), d), "(A*B)*C");
	check_is(c, k, el, (A * (B * D)).get(), add(k, add(k, a, b), d), "A*(B*C)");
	check_is(c, k, el, (D + B + A).get(), add(k, add(k, a, b), d), "C+B+A");
	if (A < B && B < D)
		REQUIRE(A < D, " order is not transitive");
	if (A > B && B > D)
		REQUIRE(A > D, " order is not transitive");
	c.state(mc::cat(k.name, str(a), str(b), str(d)));
}
// programs: every sequence of operations on two registers
MC_SUITE(programs)
{
	auto ks = kinds(false);
	auto &k = c.pick(ks, "kind");
	auto el = elements(k, 1);
	auto ext = elements(k, 12);
	(void)ext;
	std::vector<Val> r{c.pick(el, "r0"), c.pick(el, "r1")};
	c.shard();
	std::vector<any_quantity> q{k.make(r[0]), k.make(r[1])};
	std::string d = mc::cat(k.name, " r0=", str(r[0]), " r1=", str(r[1]));
	int depth = c.thorough ? 4 : 3;
	static const char *names[] = {"r0*=r1", "r1+=r0", "r0=r0+r1", "r1=move(r0)*r1;r0=1", "r0.inverse_()", "r1=r0.inverse()", "swap", "r0*=r0", "r0=r1",
	                              "r1=r1+move(r0);r0=r1.neutral"};
	for (int s = 0; s < depth; ++s)
	{
		int op = c.choose(10, "op");
		d += mc::cat("; ", names[op]);
		c.describe(d);
		switch (op)
		{
		case 0:
			q[0] *= q[1];
			r[0] = add(k, r[0], r[1]);
			break;
		case 1:
			q[1] += q[0];
			r[1] = add(k, r[1], r[0]);
			break;
		case 2:
			q[0] = q[0] + q[1];
			r[0] = add(k, r[0], r[1]);
			break;
		case 3:
		{
			q[1] = std::move(q[0]) * q[1];
			q[0] = q[1].neutral();
			r[1] = add(k, r[0], r[1]);
			r[0] = zero(k);
			break;
		}
		case 4:
			q[0].inverse_();
			r[0] = inv(k, r[0]);
			break;
		case 5:
			q[1] = q[0].inverse();
			r[1] = inv(k, r[0]);
			break;
		case 6:
			swap(q[0], q[1]);
			std::swap(r[0], r[1]);
			break;
		case 7:
			q[0] *= q[0];
			r[0] = add(k, r[0], r[0]);
			break;
		case 8:
			q[0] = q[1];
			r[0] = r[1];
			break;
		case 9:
		{
			q[1] = q[1] + std::move(q[0]);
			q[0] = q[1].neutral();
			r[1] = add(k, r[1], r[0]);
			r[0] = zero(k);
			break;
		}
		}
		check_is(c, k, el, q[0].get(), r[0], "r0");
		check_is(c, k, el, q[1].get(), r[1], "r1");
		c.state(mc::cat(k.name, str(r[0]), str(r[1])));
	}
}
// construction of a cyclic charge from every signed integer the constructor accepts
namespace
{
template <uint16_t N>
void ctor_one(mc::Ctx &c, int v)
{
	C<N> x = int16_t(v);
	int e = norm1(v, N);
	if (int(x.get_val()) != e || int(uint16_t(x)) != e)
		c.fail(mc::cat("C<", N, ">(", v, ") holds ", x.get_val(), " instead of ", e));
	C<N> i = x.inverse();
	if (int(i.get_val()) != norm1(-e, N))
		c.fail(mc::cat("inverse of C<", N, ">(", v, ") holds ", i.get_val()));
	C<N> s = x * i;
	if (s.get_val() != 0 || s != C<N>() || !(s == C<N>(0)))
		c.fail(mc::cat("C<", N, ">(", v, ") times its inverse is ", s.get_val()));
	C<N> dd = x + x;
	if (int(dd.get_val()) != norm1(2 * e, N))
		c.fail(mc::cat("C<", N, ">(", v, ") twice is ", dd.get_val(), " instead of ", norm1(2 * e, N)));
	C<N> di = i + i;
	if (int(di.get_val()) != norm1(-2 * e, N))
		c.fail(mc::cat("inverse of C<", N, ">(", v, ") twice is ", di.get_val()));
	C<N> y = x;
	y += C<N>(int16_t(1));
	if (int(y.get_val()) != norm1(e + 1, N))
		c.fail(mc::cat("C<", N, ">(", v, ")+1 is ", y.get_val()));
	y.op(C<N>(int16_t(-1)), true);
	y.op(i, false);
	if (y != x || y < x || y > x)
		c.fail(mc::cat("C<", N, ">(", v, ")+1-1 is ", y.get_val()));
	if (x.distance2(C<N>()) != int64_t(e) * e)
		c.fail(mc::cat("distance2 of C<", N, ">(", v, ") to neutral"));
	any_quantity A(x);
	if (!(A == any_quantity(C<N>(int16_t(v)))) || !((A + A.inverse()) == A.neutral()))
		c.fail(mc::cat("wrapped C<", N, ">(", v, ")"));
	c.step();
}
template <uint16_t N>
void ctor_block(mc::Ctx &c, int lo, int hi)
{
	for (int v = lo; v < hi; ++v)
		ctor_one<N>(c, v);
	c.state(mc::cat(N, " ", lo));
}
} // namespace
MC_SUITE(cyclic_constructor)
{
	using F = void (*)(mc::Ctx &, int, int);
	static const std::vector<std::pair<int, F>> f{{1, ctor_block<1>}, {2, ctor_block<2>}, {3, ctor_block<3>}, {4, ctor_block<4>}, {5, ctor_block<5>}, {6, ctor_block<6>}, {7, ctor_block<7>}, {10, ctor_block<10>}, {100, ctor_block<100>}, {255, ctor_block<255>}, {256, ctor_block<256>}, {32767, ctor_block<32767>}, {32768, ctor_block<32768>}, {32769, ctor_block<32769>}, {40000, ctor_block<40000>}, {65533, ctor_block<65533>}};
	auto &g = c.pick(f, "N");
	int b = c.choose(64, "block of 1024 values");
	c.shard();
	int lo = -32768 + 1024 * b;
	c.describe(mc::cat("C<", g.first, "> from every integer in [", lo, ",", lo + 1024, ")"));
	g.second(c, lo, lo + 1024);
}
// integer charges over their whole declared range [-32767,32767]
MC_SUITE(integer_range)
{
	int b = c.choose(64, "block");
	c.shard();
	static const std::vector<int> others{0, 1, -1, 2, 255, -255, 256, -256, 1000, 16383, -16383, 32767, -32767};
	c.describe(mc::cat("Z values in block ", b));
	for (int v = std::max(-32767, -32768 + 1024 * b); v < -32768 + 1024 * (b + 1); ++v)
	{
		Z x = int16_t(v);
		if (x.get_val() != v || x.inverse().get_val() != -v || (x * x.inverse()).get_val() != 0)
			c.fail(mc::cat("Z(", v, ") or its inverse is wrong"));
		for (int o : others)
		{
			Z y = int16_t(o);
			if ((x == y) != (v == o) || (x != y) != (v != o) || (x < y) != (v < o) || (x > y) != (v > o))
				c.fail(mc::cat("comparison of Z(", v, ") and Z(", o, ")"));
			if (x.distance2(y) != int64_t(v - o) * (v - o) || std::abs(x.distance(y) - std::abs(v - o)) > 1e-9)
				c.fail(mc::cat("distance of Z(", v, ") and Z(", o, ")"));
			if (std::abs(v + o) <= 32767)
			{
				if ((x + y).get_val() != v + o || (x * y).get_val() != v + o || (Z(x) += y).get_val() != v + o || (Z(x) *= y).get_val() != v + o || Z(x).op(y).get_val() != v + o ||
				    Z(x).op(y, true).get_val() != v + o || Z(x).op(y, false).get_val() != v)
					c.fail(mc::cat("composition of Z(", v, ") and Z(", o, ")"));
				any_quantity A{x}, B{y};
				if (!((A + B) == any_quantity(Z(int16_t(v + o)))) || distance2(A, B) != int64_t(v - o) * (v - o))
					c.fail(mc::cat("wrapped composition of Z(", v, ") and Z(", o, ")"));
			}
			c.step();
		}
	}
	c.state(mc::cat(b));
}
// different kinds never mix: the operation throws and neither operand changes; assignment may change the kind
MC_SUITE(mixed_kinds)
{
	auto ks = kinds(true);
	int i = c.choose(ks.size(), "kind a"), j = c.choose(ks.size(), "kind b");
	c.shard();
	if (i == j)
		c.skip();
	auto &ka = ks[i];
	auto &kb = ks[j];
	auto ea = elements(ka, 1), eb = elements(kb, 1);
	auto &a = c.pick(ea, "a");
	auto &b = c.pick(eb, "b");
	int op = c.choose(22, "op");
	c.describe(mc::cat(ka.name, str(a), " with ", kb.name, str(b), " op ", op));
	any_quantity A = ka.make(a), B = kb.make(b);
	bool threw = false;
	bool should = true;
	try
	{
		switch (op)
		{
		case 0: (void)(A + B); break;
		case 1: (void)(A * B); break;
		case 2: A += B; break;
		case 3: A *= B; break;
		case 4: A.op(B, true); break;
		case 5: A.op(B, false); break;
		case 6: (void)(A == B); break;
		case 7: (void)(A != B); break;
		case 8: (void)(A < B); break;
		case 9: (void)(A > B); break;
		case 10: (void)distance2(A, B); break;
		case 11: (void)distance(A, B); break;
		case 12: A.get().swap(B.get()); break;
		case 13: A.get() = B.get(); break;
		case 14: (void)(any_quantity(A) + B); break;
		case 15: (void)(A * any_quantity(B)); break;
		case 16: A.get().op_to(B.get()); break;
		case 17: should = false; A = B; break;
		case 18: should = false; A = any_quantity_cref(B); break;
		case 19: should = false; A = any_quantity(B); break;
		case 20: should = false; swap(A, B); break;
		case 21: should = false; A = any_quantity_ref(B); break;
		}
	}
	catch (const std::bad_cast &)
	{
		threw = true;
	}
	REQUIRE(threw == should, " operation ", op, threw ? " threw" : " did not throw");
	if (should)
	{
		check_is(c, ka, ea, A.get(), a, "left operand after the refused operation");
		check_is(c, kb, eb, B.get(), b, "right operand after the refused operation");
		REQUIRE(!A.get().same_type(B.get()), "");
	}
	else if (op == 20)
	{
		check_is(c, kb, eb, A.get(), b, "swapped");
		check_is(c, ka, ea, B.get(), a, "swapped");
	}
	else
	{
		check_is(c, kb, eb, A.get(), b, "assigned");
		check_is(c, kb, eb, B.get(), b, "source of the assignment");
		A *= A;
		check_is(c, kb, eb, A.get(), add(kb, b, b), "assigned then squared");
		check_is(c, kb, eb, B.get(), b, "source of the assignment after the target changed");
	}
	c.state(mc::cat(i, j, str(a), str(b), op));
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
