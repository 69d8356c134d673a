// C04: every operation gives a valid block tensor, or is refused and leaves everything as it was
#include "ops.h"
using namespace bm;
namespace
{
std::vector<Named> menu4(bool thorough)
{
	auto o = structures(3, thorough);
	auto S = [](int64_t s, int q) { return Section{s, {q}}; };
	auto add = [&](std::vector<Leg> l, int rule) { o.push_back({&kZ(), {l, {rule}}}); };
	add({{S(1, 1), S(1, 0), S(2, 1)}}, 1);
	add({{S(2, 1), S(1, 0)}, {S(1, 2)}, {S(1, -2), S(2, -3)}}, 0);
	return o;
}
} // namespace
// ---------------------------------------------------------------- access to blocks and to the structure
MC_SUITE(block_access)
{
	auto menu = menu4(c.thorough);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	auto all = blocks_allowed(*n.k, n.s);
	auto present = choose_present(c, all, c.thorough ? 5 : 3);
	int64_t len = c.choose(r + 2, "length of the index");
	idx b;
	for (int64_t d = 0; d < len; ++d)
		b.push_back(c.choose((d < r ? n.s.legs[d].size() : 1) + 2, "section") - 1);
	auto A_ = make_ref(*n.k, n.s, present, 1);
	c.describe(mc::cat("block ", mc::vstr(b), " of ", str(n.s), present_str(present)));
	auto A = build(A_);
	bool legal = std::find(all.begin(), all.end(), b) != all.end();
	bool there = std::find(present.begin(), present.end(), b) != present.end();
	torch::Tensor x;
	c.step();
	bool threw = throws([&] { x = A.block_at(b); });
	REQUIRE(threw == !there, "block_at ", threw ? "threw" : "accepted");
	if (there)
		REQUIRE(x.equal(block_of(A_, b)), "block_at: content");
	unchanged(c, A, A_, "after block_at");
	c.step();
	threw = throws([&] { x = A.block(b); });
	REQUIRE(threw == !legal, "block ", threw ? "threw" : "accepted");
	if (!legal || there)
		unchanged(c, A, A_, "after block");
	if (there)
		REQUIRE(x.equal(block_of(A_, b)), "block: content");
	if (legal && !there)
	{
		auto B_ = A_;
		B_.present.push_back(b);
		std::sort(B_.present.begin(), B_.present.end());
		auto full = make_ref(*n.k, n.s, {b}, 9);
		for (size_t i = 0; i < B_.a.v.size(); ++i)
			B_.a.v[i] += full.a.v[i];
		A.block(b) = block_of(full, b);
		unchanged(c, A, B_, "new block");
	}
	if (len == r)
	{
		bool in = true;
		for (int64_t d = 0; d < r; ++d)
			in = in && b[d] >= 0 && b[d] < (int64_t)n.s.legs[d].size();
		if (in)
			REQUIRE(A.block_conservation_rule_test(b) == legal, "block_conservation_rule_test");
	}
}
MC_SUITE(structure_access)
{
	auto menu = menu4(true);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	auto A_ = make_ref(*n.k, n.s, blocks_allowed(*n.k, n.s), 1);
	idx b, e;
	for (auto &l : n.s.legs)
		b.push_back(c.choose(l.size(), "section"));
	c.describe(mc::cat("structure ", str(n.s), " block ", mc::vstr(b)));
	auto A = build(A_);
	idx st, sz;
	extent(n.s, b, st, sz);
	{
		std::unique_ptr<btensor::const_block_size_view> copy;
		std::unique_ptr<btensor::const_block_qtt_view> qcopy;
		{
			auto v = A.block_sizes(b);
			auto q = A.block_quantities(b);
			copy = std::make_unique<btensor::const_block_size_view>(v);
			qcopy = std::make_unique<btensor::const_block_qtt_view>(q);
			REQUIRE(idx(v.begin(), v.end()) == sz, "block_sizes");
			idx back;
			auto it = v.end();
			while (!(it == v.begin()))
			{
				--it;
				back.push_back(*it);
			}
			std::reverse(back.begin(), back.end());
			REQUIRE(back == sz, "block_sizes backward");
			int64_t d = 0;
			for (auto it = q.begin(); !(it == q.end()); ++it, ++d)
				REQUIRE(any_quantity_cref(*it) == n.k->make(n.s.legs[d][b[d]].q), "block_quantities");
			REQUIRE(d == r, "number of block_quantities");
		}
		idx junk(64, -1); // reuses the storage of the views that are gone
		REQUIRE(idx(copy->begin(), copy->end()) == sz, "copy of block_sizes");
		int64_t d = 0;
		for (auto it = qcopy->begin(); !(it == qcopy->end()); ++it, ++d)
			REQUIRE(any_quantity_cref(*it) == n.k->make(n.s.legs[d][b[d]].q), "copy of block_quantities");
		REQUIRE(d == r, "number of quantities of the copy");
	}
	auto fs = btensor::full_slice(A, b);
	REQUIRE((int64_t)fs.size() == r, "rank of full_slice");
	auto dense = A.to_dense();
	auto part = r ? dense.index(fs) : dense;
	REQUIRE(close(from_torch(part), from_torch(block_of(A_, b)), 0), "full_slice");
	for (int64_t d = 0; d < r; ++d)
	{
		auto &l = n.s.legs[d];
		REQUIRE((int64_t)A.section_size(d, b[d]) == sz[d], "section_size");
		REQUIRE(A.section_conserved_qtt(d, b[d]) == n.k->make(l[b[d]].q), "section_conserved_qtt");
		auto [s, q] = A.section_size_cqtt(d, b[d]);
		REQUIRE((int64_t)s == sz[d] && q == n.k->make(l[b[d]].q), "section_size_cqtt");
		auto [sb, se] = A.section_sizes(d);
		auto [qb, qe] = A.section_cqtts(d);
		auto [b2, e2, q2, r2] = A.section_sizes_cqtts(d);
		auto [q3, r3] = std::as_const(A).section_conserved_qtt_range(d);
		size_t i = 0;
		for (; i < l.size(); ++i, ++sb, ++qb, ++b2, ++q2, ++q3)
		{
			REQUIRE(*sb == l[i].size && *b2 == l[i].size, "sizes of the sections");
			auto q = n.k->make(l[i].q);
			REQUIRE(any_quantity_cref(*qb) == q && any_quantity_cref(*q2) == q && any_quantity_cref(*q3) == q, "quantities of the sections");
		}
		REQUIRE(sb == se && qb == qe && b2 == e2 && q2 == r2 && q3 == r3, "number of sections");
		for (int64_t x = 0; x < sz[d]; ++x)
			REQUIRE(A.element_conserved_qtt(d, st[d] + x) == n.k->make(l[b[d]].q), "element_conserved_qtt");
		REQUIRE(throws([&] { A.element_conserved_qtt(d, size_of(l)); }), "element out of range");
#ifndef NDEBUG
		REQUIRE(throws([&] { A.section_size(d, l.size()); }), "section out of range");
		REQUIRE(throws([&] { A.section_conserved_qtt(d, l.size()); }), "section out of range");
		REQUIRE(throws([&] { A.section_size_cqtt(d, l.size()); }), "section out of range");
#endif
		idx bad = b;
		bad[d] = l.size();
		REQUIRE(throws([&] { btensor::full_slice(A, bad); }), "slice of a block out of range");
	}
#ifndef NDEBUG
	REQUIRE(throws([&] { A.section_size(r, 0); }), "dimension out of range");
	REQUIRE(throws([&] { A.section_conserved_qtt(r, 0); }), "dimension out of range");
	REQUIRE(throws([&] { A.section_size_cqtt(r, 0); }), "dimension out of range");
#endif
	REQUIRE(throws([&] { std::as_const(A).section_conserved_qtt_range(r); }), "dimension out of range");
	// every element of the block
	each(sz, [&](const idx &i) {
		idx x = st;
		for (int64_t d = 0; d < r; ++d)
			x[d] += i[d];
		auto [bi, ei] = A.element_index_decompose(x);
		REQUIRE(bi == b && ei == i, "element_index_decompose ", mc::vstr(x));
	});
	// the order of the indices of blocks
	idx nx = b;
	A.block_increment(nx);
	idx want = b;
	for (int64_t d = 0; d < r; ++d)
	{
		if (++want[d] < (int64_t)n.s.legs[d].size())
			break;
		want[d] = 0;
	}
	REQUIRE(nx == want, "block_increment ", mc::vstr(nx));
	idx secs = sections_of(n.s), ri = b, le = b;
	increment_index_left(le, secs, r);
	REQUIRE(le == want, "increment_index_left");
	increment_index_right(ri, secs, r);
	want = b;
	for (int64_t d = r - 1; d >= 0; --d)
	{
		if (++want[d] < secs[d])
			break;
		want[d] = 0;
	}
	REQUIRE(ri == want, "increment_index_right");
	// at rank 0 it is the room to make, whether or not the rule allows the block
	REQUIRE(btensor::btensor_compute_max_size(A) == (n.s.legs.empty() ? 1 : blocks_allowed(*n.k, n.s).size()), "number of allowed blocks");
	unchanged(c, A, A_, "after the access");
	c.step();
}
// ---------------------------------------------------------------- construction from raw elements
MC_SUITE(raw_construction)
{
	auto menu = menu4(c.thorough);
	auto &n = c.pick(menu, "structure");
	int64_t r = n.s.legs.size();
	auto all = blocks_allowed(*n.k, n.s);
	auto present = choose_present(c, all, 2);
	int defect = c.choose(12, "defect");
	static const char *names[] = {"none", "forbidden block", "section out of range", "negative section", "key too long", "key too short", "block too large", "block of wrong rank", "missing section size", "missing quantity", "wrong rank", "undefined block"};
	auto A_ = make_ref(*n.k, n.s, present, 1);
	btensor::block_list_t blocks;
	for (auto &b : present)
		blocks.insert({b, block_of(A_, b)});
	idx secs = sections_of(n.s), sizes;
	any_quantity_vector q(0, n.k->make(zero(*n.k)));
	for (auto &l : n.s.legs)
		for (auto &s : l)
		{
			sizes.push_back(s.size);
			q.push_back(n.k->make(s.q));
		}
	size_t rank = r;
	int64_t d = 0;
	if (defect == 2 || defect == 3 || defect == 6)
	{
		if (r == 0)
			c.skip();
		d = c.choose(r, "dimension");
	}
	auto first = [&] {
		if (present.empty())
			c.skip();
		return present[0];
	};
	switch (defect)
	{
	case 1:
	{
		std::vector<idx> bad;
		each(secs, [&](const idx &b) {
			if (!allowed(*n.k, n.s, b))
				bad.push_back(b);
		});
		auto b = c.pick(bad, "block");
		blocks.insert({b, block_of(A_, b)});
		break;
	}
	case 2:
	case 3:
	{
		auto b = first();
		auto x = block_of(A_, b);
		b[d] = defect == 2 ? secs[d] : -1;
		blocks.insert({b, x});
		break;
	}
	case 4:
	case 5:
	{
		auto b = first();
		auto x = block_of(A_, b);
		if (defect == 4)
			b.push_back(0);
		else if (b.empty())
			c.skip();
		else
			b.pop_back();
		blocks.insert({b, x});
		break;
	}
	case 6:
	{
		auto b = first();
		idx st, sz;
		extent(n.s, b, st, sz);
		sz[d] += sz[d] && c.flip("too small") ? -1 : 1;
		blocks[b] = torch::zeros(sz, torch::kDouble);
		break;
	}
	case 7:
	{
		auto b = first();
		blocks[b] = block_of(A_, b).unsqueeze(0);
		break;
	}
	case 8:
	{
		if (sizes.empty())
			c.skip();
		sizes.pop_back();
		break;
	}
	case 9:
	{
		if (sizes.empty())
			c.skip();
		any_quantity_vector p(0, n.k->make(zero(*n.k)));
		for (size_t i = 0; i + 1 < q.size(); ++i)
			p.push_back(q[i]);
		q = p;
		break;
	}
	case 10: rank += c.flip("smaller") ? -1 : 1; break;
	case 11: blocks[first()] = torch::Tensor(); break;
	}
	if (int64_t(rank) < 0)
		c.skip();
	c.describe(mc::cat("construction with defect ", names[defect], ": ", str(n.s), present_str(present)));
	c.step();
	auto make = [&] { return btensor(rank, blocks, secs, sizes, q, n.k->make(n.s.rule), torch::kDouble); };
	if (defect == 0)
		unchanged(c, make(), A_, "constructed");
	else
		REQUIRE(throws(make), "accepted");
}
// a block of the wrong size put in by hand is reported
MC_SUITE(reported)
{
	auto menu = menu4(c.thorough);
	auto &n = c.pick(menu, "structure");
	auto all = blocks_allowed(*n.k, n.s);
	auto present = choose_present(c, all, 3);
	auto b = c.pick(all, "block");
	idx st, sz;
	extent(n.s, b, st, sz);
	int how = c.choose(2 + 2 * sz.size(), "defect");
	if (how == 0)
		sz.push_back(1);
	else if (how == 1)
	{
		if (sz.empty())
			c.skip();
		sz.pop_back();
	}
	else
		sz[(how - 2) / 2] += how % 2 || !sz[(how - 2) / 2] ? 1 : -1;
	c.describe(mc::cat("block ", mc::vstr(b), " of sizes ", mc::vstr(sz), " in ", str(n.s), present_str(present)));
	auto A = build(make_ref(*n.k, n.s, present, 1));
	REQUIRE(btensor::check_tensor(A) == "" && !throws([&] { btensor::throw_bad_tensor(A); }), "valid tensor reported");
	A.block(b) = torch::zeros(sz, torch::kDouble);
	c.step();
	REQUIRE(btensor::check_tensor(A) != "", "not reported");
	REQUIRE(throws([&] { btensor::throw_bad_tensor(A); }), "did not throw");
}
// ---------------------------------------------------------------- programs
static void program(mc::Ctx &c, int depth, int free, bool few = false)
{
	auto menu = menu4(c.thorough);
	if (few) // one structure of each rank
	{
		std::vector<Named> some;
		for (auto &n : menu)
			if (std::none_of(some.begin(), some.end(), [&](auto &s) { return s.s.legs.size() == n.s.legs.size(); }))
				some.push_back(n);
		menu = some;
	}
	auto &n = c.pick(menu, "structure");
	auto present = choose_present(c, blocks_allowed(*n.k, n.s), free);
	Ref r = make_ref(*n.k, n.s, present, 1);
	std::string d = mc::cat(str(n.s), present_str(present));
	auto t = build(r);
	for (int i = 0; i < depth; ++i)
	{
		c.describe(d + ", then another operation");
		auto s = choose_op(c, t, r);
		d += ", " + s.name;
		c.describe(d);
		compare(c, *s.r.k, s.t, s.r.s, s.r.a, s.name);
		same_dtype(c, s.t, s.name);
		REQUIRE(torch::typeMetaToScalarType(s.t.options().dtype()) == torch::kDouble, ": ", s.name, ": announced element type");
		REQUIRE(close(from_torch(s.t.to_dense()), s.r.a), ": ", s.name, ": dense form");
		t = s.t;
		r = s.r;
	}
}
MC_SUITE(programs_of_two) { program(c, 2, c.thorough ? 5 : 4); }
MC_SUITE(programs_of_three) { program(c, 3, c.thorough ? 3 : 0, !c.thorough); }
MC_THOROUGH_SUITE(programs_of_four) { program(c, 4, 0); }
// ---------------------------------------------------------------- refused operations leave everything as it was
MC_SUITE(refused)
{
	auto menu = menu4(false);
	auto &a = c.pick(menu, "first structure");
	auto &b = c.pick(menu, "second structure");
	int op = c.choose(14, "operation");
	static const char *names[] = {"add_", "add", "sub_", "add_ of a temporary", "mul_", "div_", "pow_", "bmm", "tensordot", "basic_index_put_", "reshape_as", "from_basic_tensor_like", "permute_", "mul"};
	auto A_ = make_ref(*a.k, a.s, blocks_allowed(*a.k, a.s), 1), B_ = make_ref(*b.k, b.s, blocks_allowed(*b.k, b.s), 2);
	c.describe(mc::cat(names[op], " ", str(a.s), " and ", str(b.s)));
	auto A = build(A_), B = build(B_);
	btensor R = A;
	c.step();
	bool threw = throws([&] {
		switch (op)
		{
		case 0: A.add_(B); break;
		case 1: R = A.add(B); break;
		case 2: A.sub_(B); break;
		case 3: A.add_(btensor(B)); break;
		case 4: A.mul_(B); break;
		case 5: A.div_(B); break;
		case 6: A.pow_(B); break;
		case 7: R = A.bmm(B); break;
		case 8: R = A.tensordot(B, {0}, {int64_t(b.s.legs.size()) - 1}); break;
		case 9:
		{
			idx el(a.s.legs.size(), -1);
			A.basic_index_put_(el, B);
			break;
		}
		case 10: R = A.reshape_as(B); break;
		case 11: R = from_basic_tensor_like(A, B.to_dense()); break;
		case 12:
		{
			idx p;
			for (size_t d = 0; d < b.s.legs.size(); ++d)
				p.push_back(b.s.legs.size() - 1 - d);
			A.permute_(p);
			break;
		}
		case 13: R = A.mul(B); break;
		}
	});
	if (threw)
		unchanged(c, A, A_, "refused operation");
	else
	{
		valid(c, A, "accepted operation, destination");
		same_dtype(c, A, "accepted operation, destination");
		valid(c, R, "accepted operation, result");
		same_dtype(c, R, "accepted operation, result");
	}
	unchanged(c, B, B_, "second operand");
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
