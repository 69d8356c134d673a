import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
Q="include/Conserved/quantity.h"
seed("c01-distance-overflow","C01",[(Q,"auto x = static_cast<int64_t>(a.get_val()) - b.get_val();","const int32_t x = static_cast<int32_t>(a.get_val()) - b.get_val();")],
 "two integer charges more than 46340 apart","the squared distance between far apart charges overflows",
 '''	auto f = [](int a, int b) { volatile int x = a, y = b; return distance2(Z(x), Z(y)); };
	CHECK(f(3, -4) == 49);
	CHECK(f(32767, -32767) == 65534ll * 65534ll);''',("Conserved/quantity.h",))
seed("c01-inverse-zero","C01",[(Q,"val = bool(val) * (N - val);","val = N - val;"),
  (Q,"constexpr bool operator==(C other) const noexcept { return val == other.val; }","constexpr bool operator==(C other) const noexcept { return val % N == other.val % N; }"),
  (Q,"constexpr bool operator!=(C other) const noexcept { return val != other.val; }","constexpr bool operator!=(C other) const noexcept { return not(*this == other); }")],
 "the inverse of the neutral element of a cyclic group, then ordering, distance or printing","the inverse of zero is stored as N, unreduced: equality hides it, ordering, distance and printing do not",
 '''	C<3> z(0);
	CHECK(z.inverse() == z);
	CHECK(not(z < z.inverse()));
	CHECK(z.inverse().get_val() == 0);
	CHECK(distance2(z, z.inverse()) == 0);''',("Conserved/quantity.h",))
V="include/Conserved/Composite/quantity_vector_impl.h"
VV="include/Conserved/Composite/quantity_vector.h"
seed("c02-resize-alias","C02",[(V,"""	void resize(size_t count, const vquantity &val) override
	{
		return""","""	void resize(size_t count, const vquantity &val) override
	{
		base_vector::reserve(count); // at most one allocation
		return""")],
 "growing a container beyond its capacity with one of its own elements as the fill value","the new elements are copies of freed memory",
 """	using q = quantity<Z>;
	any_quantity_vector v{q(7), q(8)};
	v.shrink_to_fit();
	v.resize(9, v[0]);
	CHECK(v.size() == 9);
	for (int i = 2; i < 9; ++i)
		CHECK(v[i] == any_quantity(q(7)));""")
seed("c02-emptied-kind","C02",[(VV,'''		if (ptr)
			ptr->push_back(value);''','''		if (not empty())
			ptr->push_back(value);''')],
 "a container that was filled then emptied, then a value of another kind (or capacity reserved before filling)","an emptied container silently changes kind, and loses its reserved storage",
 '''	any_quantity_vector v{quantity<Z>(1)};
	v.pop_back();
	bool refused = false;
	try { v.push_back(quantity<C<2>>(1)); } catch (const std::bad_cast &) { refused = true; }
	CHECK(refused);
	CHECK(v.empty());''')
F="include/blockTensor/flat_map.h"
seed("c03-nocollision-run","C03",[(F,'''				std::for_each(move_to_end, old_move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
''','''				if (not found_collision or move_shift > 1)
					std::for_each(move_to_end, old_move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
''')],
 "merging maps where exactly one new key follows a key present in both","the no-collision handler is not called on a lone new element right above a collision: subtracting block tensors gives the wrong sign there",
 '''	flat_map<int, int> a{{1, 10}, {5, 50}}, b{{1, 1}, {2, 2}, {5, 5}, {6, 6}};
	int n = 0, m = 0;
	a.insert(b.begin(), b.end(), [&](int &x, const int &y) { x += y; ++m; }, [&](int &x) { x = -x; ++n; });
	CHECK(m == 2);
	CHECK(n == 2);
	CHECK(a.at(2) == -2);
	CHECK(a.at(6) == -6);''',("blockTensor/flat_map.h","Conserved/quantity.h"))
B="sources/btensor.cpp"
seed("c05-inplace-broadcast","C05",[(B,'''	    std::none_of(comp_mask.begin(), comp_mask.end(),
	                 [this_is_large](auto &&x)''','''	    std::none_of(comp_mask.begin() + (comp_mask.size() > 1), comp_mask.end(),
	                 [this_is_large](auto &&x)''')],
 "an in place product whose left operand has size one in the first of several common dimensions","the in place product accumulates over the broadcast dimension",
 '''	using q = quantity<Z>;
	torch::set_default_dtype(caffe2::TypeMeta::Make<double>());
	btensor A({{{1, q(0)}}, {{2, q(0)}}}, q(0)), B({{{1, q(0)}, {1, q(0)}}, {{2, q(0)}}}, q(0));
	A.block({0, 0}) = torch::full({1, 2}, 2.);
	B.block({0, 0}) = torch::full({1, 2}, 3.);
	B.block({1, 0}) = torch::full({1, 2}, 5.);
	auto expect = A.to_dense().mul(B.to_dense());
	CHECK(torch::allclose(A.mul(B).to_dense(), expect));
	A.mul_(B);
	CHECK(torch::allclose(A.to_dense(), expect));''')
seed("c05-allclose-tail","C05",[(B,'''	while (a_it != a.end()) // finish traversing a and b''','''	while (a_it != a.end()) // finish traversing a and b''')],"","","") if 0 else None
