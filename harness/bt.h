// reference model of the block tensors: a dense array (own code, no torch) and labelled dimensions
#pragma once
#include "blockTensor/btensor.h"
#include "quant.h"
#include <complex>
#include <map>
#include <set>
#include <numeric>
namespace bm
{
using namespace qm;
using quantit::btensor;
using idx = std::vector<int64_t>;
// ---------------------------------------------------------------- dense arrays
inline int64_t prod(const idx &s)
{
	int64_t p = 1;
	for (auto x : s)
		p *= x;
	return p;
}
// calls f(index) for every index of the given shape, in row major order
template <class F>
void each(const idx &shape, F &&f)
{
	idx i(shape.size(), 0);
	for (auto s : shape)
		if (s == 0)
			return;
	while (true)
	{
		f(i);
		int d = (int)shape.size() - 1;
		while (d >= 0 && ++i[d] == shape[d])
			i[d--] = 0;
		if (d < 0)
			return;
	}
}
template <class T>
struct ArrT
{
	idx shape;
	std::vector<T> v;
	ArrT() : v(1, T(0)) {}
	explicit ArrT(const idx &s, T x = T(0)) : shape(s), v(prod(s), x) {}
	int64_t off(const idx &i) const
	{
		int64_t o = 0;
		for (size_t d = 0; d < shape.size(); ++d)
			o = o * shape[d] + i[d];
		return o;
	}
	T &operator()(const idx &i) { return v[off(i)]; }
	const T &operator()(const idx &i) const { return v[off(i)]; }
	template <class F>
	ArrT map(F &&f) const
	{
		ArrT o = *this;
		for (auto &x : o.v)
			x = f(x);
		return o;
	}
};
using Arr = ArrT<double>;
using CArr = ArrT<std::complex<double>>;
template <class T>
ArrT<T> permute(const ArrT<T> &a, const idx &p)
{
	idx s(p.size());
	for (size_t i = 0; i < p.size(); ++i)
		s[i] = a.shape[p[i]];
	ArrT<T> o(s);
	size_t n = 0;
	idx j(p.size());
	each(s, [&](const idx &i) {
		for (size_t d = 0; d < p.size(); ++d)
			j[p[d]] = i[d];
		o.v[n++] = a(j);
	});
	return o;
}
template <class T>
ArrT<T> tensordot(const ArrT<T> &a, const ArrT<T> &b, const idx &da, const idx &db)
{
	idx fa, fb, s, sc;
	for (size_t d = 0; d < a.shape.size(); ++d)
		if (std::find(da.begin(), da.end(), d) == da.end())
			fa.push_back(d), s.push_back(a.shape[d]);
	for (size_t d = 0; d < b.shape.size(); ++d)
		if (std::find(db.begin(), db.end(), d) == db.end())
			fb.push_back(d), s.push_back(b.shape[d]);
	for (auto d : da)
		sc.push_back(a.shape[d]);
	ArrT<T> o(s);
	size_t n = 0;
	idx ia(a.shape.size()), ib(b.shape.size());
	each(s, [&](const idx &i) {
		for (size_t d = 0; d < fa.size(); ++d)
			ia[fa[d]] = i[d];
		for (size_t d = 0; d < fb.size(); ++d)
			ib[fb[d]] = i[fa.size() + d];
		T x(0);
		each(sc, [&](const idx &k) {
			for (size_t d = 0; d < k.size(); ++d)
				ia[da[d]] = k[d], ib[db[d]] = k[d];
			x += a(ia) * b(ib);
		});
		o.v[n++] = x;
	});
	return o;
}
// elementwise with numpy broadcasting
template <class T, class F>
ArrT<T> broadcast(const ArrT<T> &a, const ArrT<T> &b, F &&f)
{
	size_t r = std::max(a.shape.size(), b.shape.size());
	idx s(r);
	auto at = [&](const ArrT<T> &x, size_t d) -> int64_t { return d + x.shape.size() < r ? 1 : x.shape[d + x.shape.size() - r]; };
	for (size_t d = 0; d < r; ++d)
		s[d] = at(a, d) == 1 ? at(b, d) : at(a, d);
	ArrT<T> o(s);
	size_t n = 0;
	each(s, [&](const idx &i) {
		idx ia(a.shape.size()), ib(b.shape.size());
		for (size_t d = 0; d < ia.size(); ++d)
			ia[d] = a.shape[d] == 1 ? 0 : i[d + r - ia.size()];
		for (size_t d = 0; d < ib.size(); ++d)
			ib[d] = b.shape[d] == 1 ? 0 : i[d + r - ib.size()];
		o.v[n++] = f(a(ia), b(ib));
	});
	return o;
}
template <class T>
torch::Tensor to_torch(const ArrT<T> &a)
{
	auto opt = torch::TensorOptions().dtype(std::is_same_v<T, double> ? torch::kDouble : torch::kComplexDouble);
	return torch::from_blob((void *)a.v.data(), a.shape, opt).clone();
}
template <class T = double>
ArrT<T> from_torch(const torch::Tensor &t_)
{
	auto t = t_.to(std::is_same_v<T, double> ? torch::kDouble : torch::kComplexDouble).resolve_conj().contiguous();
	ArrT<T> a(idx(t.sizes().begin(), t.sizes().end()));
	std::copy_n((const T *)t.data_ptr(), a.v.size(), a.v.begin());
	return a;
}
// ---------------------------------------------------------------- labelled dimensions
struct Section
{
	int64_t size;
	Val q;
};
using Leg = std::vector<Section>;
inline int64_t size_of(const Leg &l)
{
	int64_t s = 0;
	for (auto &x : l)
		s += x.size;
	return s;
}
struct Shape
{
	std::vector<Leg> legs;
	Val rule;
};
inline std::string str(const Leg &l)
{
	std::string s = "(";
	for (auto &x : l)
		s += mc::cat(x.size, "@", qm::str(x.q), " ");
	return s + ")";
}
inline std::string str(const Shape &s)
{
	std::string o = "{";
	for (auto &l : s.legs)
		o += str(l);
	return o + " rule " + qm::str(s.rule) + "}";
}
inline idx sizes_of(const Shape &s)
{
	idx o;
	for (auto &l : s.legs)
		o.push_back(size_of(l));
	return o;
}
inline idx sections_of(const Shape &s)
{
	idx o;
	for (auto &l : s.legs)
		o.push_back(l.size());
	return o;
}
inline Leg inv(const Kind &k, Leg l)
{
	for (auto &x : l)
		x.q = qm::inv(k, x.q);
	return l;
}
inline Leg shifted(const Kind &k, Leg l, const Val &s)
{
	for (auto &x : l)
		x.q = qm::add(k, x.q, s);
	return l;
}
inline bool allowed(const Kind &k, const Shape &s, const idx &b)
{
	Val q = qm::zero(k);
	for (size_t d = 0; d < b.size(); ++d)
		q = qm::add(k, q, s.legs[d][b[d]].q);
	return q == qm::norm(k, s.rule);
}
inline std::vector<idx> blocks_allowed(const Kind &k, const Shape &s)
{
	std::vector<idx> o;
	each(sections_of(s), [&](const idx &b) {
		if (allowed(k, s, b))
			o.push_back(b);
	});
	return o;
}
// first element and size of a block in every dimension
inline void extent(const Shape &s, const idx &b, idx &start, idx &size)
{
	start.assign(b.size(), 0);
	size.assign(b.size(), 0);
	for (size_t d = 0; d < b.size(); ++d)
	{
		for (int64_t i = 0; i < b[d]; ++i)
			start[d] += s.legs[d][i].size;
		size[d] = s.legs[d][b[d]].size;
	}
}
// a block tensor of the model: structure, which blocks are stored, dense content
template <class T>
struct RefT
{
	const Kind *k;
	Shape s;
	std::vector<idx> present;
	ArrT<T> a;
};
using Ref = RefT<double>;
// deterministic generic content, different for every element and every seed, never zero
inline double gen(uint64_t seed, uint64_t i)
{
	uint64_t h = mc::mix(mc::mix(1234567, seed), i);
	return (double((h >> 20) % 31) - 15.5) / 4; // dyadic: sums and products are exact
}
template <class T = double>
RefT<T> make_ref(const Kind &k, const Shape &s, const std::vector<idx> &present, uint64_t seed)
{
	RefT<T> r{&k, s, present, ArrT<T>(sizes_of(s))};
	uint64_t n = 0;
	for (auto &b : present)
	{
		idx st, sz;
		extent(s, b, st, sz);
		each(sz, [&](const idx &i) {
			idx e = st;
			for (size_t d = 0; d < e.size(); ++d)
				e[d] += i[d];
			if constexpr (std::is_same_v<T, double>)
				r.a(e) = gen(seed, n++);
			else
			{
				r.a(e) = T(gen(seed, n), gen(seed + 1000, n));
				++n;
			}
		});
	}
	return r;
}
inline btensor::vec_list_t shape_list(const Kind &k, const Shape &s)
{
	btensor::vec_list_t o;
	for (auto &l : s.legs)
	{
		o.emplace_back();
		for (auto &x : l)
			o.back().emplace_back(size_t(x.size), k.make(x.q));
	}
	return o;
}
template <class T>
torch::Tensor block_of(const RefT<T> &r, const idx &b)
{
	idx st, sz;
	extent(r.s, b, st, sz);
	ArrT<T> o(sz);
	size_t n = 0;
	each(sz, [&](const idx &i) {
		idx e = st;
		for (size_t d = 0; d < e.size(); ++d)
			e[d] += i[d];
		o.v[n++] = r.a(e);
	});
	return to_torch(o);
}
template <class T>
constexpr torch::ScalarType dtype_of() { return std::is_same_v<T, double> ? torch::kDouble : torch::kComplexDouble; }
template <class T>
btensor build(const RefT<T> &r)
{
	btensor t(shape_list(*r.k, r.s), r.k->make(r.s.rule), torch::TensorOptions().dtype(dtype_of<T>()));
	for (auto &b : r.present)
		t.block(b) = block_of(r, b);
	return t;
}
// ---------------------------------------------------------------- observation of the library's tensors
inline void same_structure(mc::Ctx &c, const Kind &k, const btensor &t, const Shape &s, const std::string &w)
{
	auto bad = [&](const std::string &m) { c.fail(w + ": " + m + ", expected structure " + str(s)); };
	if (t.dim() != (int64_t)s.legs.size())
		bad(mc::cat("rank ", t.dim()));
	auto sz = t.sizes();
	if (sz != sizes_of(s))
		bad(mc::cat("sizes ", mc::vstr(sz)));
	for (size_t d = 0; d < s.legs.size(); ++d)
	{
		if (t.section_number(d) != s.legs[d].size())
			bad(mc::cat(t.section_number(d), " sections in dimension ", d));
		for (size_t i = 0; i < s.legs[d].size(); ++i)
		{
			if ((int64_t)t.section_size(d, i) != s.legs[d][i].size)
				bad(mc::cat("size of section ", i, " of dimension ", d));
			if (!(t.section_conserved_qtt(d, i) == k.make(s.legs[d][i].q)))
				bad(mc::cat("quantity of section ", i, " of dimension ", d));
		}
	}
	if (!(any_quantity_cref(t.selection_rule) == k.make(s.rule)))
		bad("selection rule");
}
// every stored block: allowed by the rule announced by the tensor, right size, right place in the order
inline void valid(mc::Ctx &c, const btensor &t, const std::string &w)
{
	auto bad = [&](const std::string &m) { c.fail(w + ": invalid tensor, " + m); };
	const idx *prev = nullptr;
	size_t n = 0;
	for (auto &b : t.blocks())
	{
		auto &i = std::get<0>(b);
		auto &x = std::get<1>(b);
		++n;
		if ((int64_t)i.size() != t.dim())
			bad("block key of wrong rank");
		if (prev && !(*prev < i))
			bad("blocks out of order or repeated");
		prev = &i;
		if (!x.defined())
			bad("undefined block");
		if ((int64_t)x.sizes().size() != t.dim())
			bad("block of wrong rank");
		any_quantity q = any_quantity_cref(t.selection_rule).neutral();
		for (size_t d = 0; d < i.size(); ++d)
		{
			if (i[d] < 0 || i[d] >= (int64_t)t.section_number(d))
				bad("block key out of range");
			if (x.sizes()[d] != (int64_t)t.section_size(d, i[d]))
				bad(mc::cat("block ", mc::vstr(i), " of wrong size"));
			q *= t.section_conserved_qtt(d, i[d]);
		}
		if (!(q == any_quantity_cref(t.selection_rule)))
			bad(mc::cat("block ", mc::vstr(i), " forbidden by the selection rule"));
	}
	auto m = btensor::check_tensor(t);
	if (m != "")
		bad("check_tensor: " + m);
	btensor::throw_bad_tensor(t);
}
// dense content assembled from the blocks by the model (not by to_dense)
template <class T = double>
ArrT<T> assemble(const btensor &t)
{
	ArrT<T> o(t.sizes());
	for (auto &b : t.blocks())
	{
		auto &i = std::get<0>(b);
		auto x = from_torch<T>(std::get<1>(b));
		idx st(i.size(), 0);
		for (size_t d = 0; d < i.size(); ++d)
			for (int64_t s = 0; s < i[d]; ++s)
				st[d] += t.section_size(d, s);
		size_t n = 0;
		each(x.shape, [&](const idx &e) {
			idx p = st;
			for (size_t d = 0; d < p.size(); ++d)
				p[d] += e[d];
			o(p) = x.v[n++];
		});
	}
	return o;
}
template <class T>
std::string astr(const ArrT<T> &a)
{
	return mc::cat(mc::vstr(a.shape), mc::vstr(a.v));
}
template <class T>
bool close(const ArrT<T> &a, const ArrT<T> &b, double tol = 1e-10)
{
	if (a.shape != b.shape || a.v.size() != b.v.size())
		return false;
	for (size_t i = 0; i < a.v.size(); ++i)
	{
		if (a.v[i] == b.v[i])
			continue;
		double d = std::abs(a.v[i] - b.v[i]);
		if (!(d <= tol * std::max(1.0, std::abs(b.v[i]))))
		{
			if constexpr (std::is_same_v<T, double>)
				if (std::isnan(a.v[i]) && std::isnan(b.v[i]))
					continue;
			return false;
		}
	}
	return true;
}
template <class T>
void same_content(mc::Ctx &c, const btensor &t, const ArrT<T> &want, const std::string &w, double tol = 1e-10)
{
	auto got = assemble<T>(t);
	if (!close(got, want, tol))
		c.fail(mc::cat(w, ": content ", astr(got), ", expected ", astr(want)));
}
template <class T>
void compare(mc::Ctx &c, const Kind &k, const btensor &t, const Shape &s, const ArrT<T> &want, const std::string &w, double tol = 1e-10)
{
	c.step();
	same_structure(c, k, t, s, w);
	valid(c, t, w);
	same_content(c, t, want, w, tol);
	uint64_t h = mc::hash_str(str(s));
	for (auto &b : t.blocks())
		for (auto i : std::get<0>(b))
			h = mc::mix(h, i);
	for (auto &x : want.v)
		h = mc::mix(h, std::hash<double>{}(std::real(x)) ^ std::hash<double>{}(3 * std::imag(x)));
	c.state(h);
}
// the operand is exactly what it was: structure, content and which blocks are stored
template <class T>
void unchanged(mc::Ctx &c, const btensor &t, const RefT<T> &r, const std::string &w)
{
	compare(c, *r.k, t, r.s, r.a, w, 0);
	std::vector<idx> p;
	for (auto &b : t.blocks())
		p.push_back(std::get<0>(b));
	auto q = r.present;
	std::sort(q.begin(), q.end());
	if (p != q)
		c.fail(w + ": the stored blocks changed");
}
// every ordered choice of m among n
inline std::vector<idx> arrangements(int n, int m)
{
	std::vector<idx> o{{}};
	for (int i = 0; i < m; ++i)
	{
		std::vector<idx> p;
		for (auto &x : o)
			for (int64_t j = 0; j < n; ++j)
				if (std::find(x.begin(), x.end(), j) == x.end())
				{
					p.push_back(x);
					p.back().push_back(j);
				}
		o = p;
	}
	return o;
}
// the attainable total quantities of a structure, those of most blocks first
inline std::vector<Val> rules_of(const Kind &k, const std::vector<Leg> &legs)
{
	std::map<Val, int> n;
	Shape s{legs, qm::zero(k)};
	each(sections_of(s), [&](const idx &b) {
		Val q = qm::zero(k);
		for (size_t d = 0; d < b.size(); ++d)
			q = qm::add(k, q, s.legs[d][b[d]].q);
		++n[q];
	});
	std::vector<std::pair<int, Val>> v;
	for (auto &x : n)
		v.push_back({-x.second, x.first});
	std::sort(v.begin(), v.end());
	std::vector<Val> o;
	for (auto &x : v)
		o.push_back(x.second);
	return o;
}
// ---------------------------------------------------------------- movements of elements, on the model
template <class T>
RefT<T> permuted(const RefT<T> &r, const idx &p)
{
	RefT<T> o{r.k, {{}, r.s.rule}, {}, permute(r.a, p)};
	for (auto d : p)
		o.s.legs.push_back(r.s.legs[d]);
	for (auto &b : r.present)
	{
		idx n;
		for (auto d : p)
			n.push_back(b[d]);
		o.present.push_back(n);
	}
	std::sort(o.present.begin(), o.present.end());
	return o;
}
inline int64_t flat(const idx &i, const idx &sizes)
{
	int64_t f = 0;
	for (size_t d = 0; d < i.size(); ++d)
		f = f * sizes[d] + i[d];
	return f;
}
inline idx unflat(int64_t f, const idx &sizes)
{
	idx i(sizes.size());
	for (int d = (int)sizes.size() - 1; d >= 0; --d)
		i[d] = f % sizes[d], f /= sizes[d];
	return i;
}
// the structure where the dimensions cuts[i]..cuts[i+1]-1 are one, cuts go from 0 to the rank
inline Shape grouped(const Kind &k, const Shape &s, const idx &cuts)
{
	Shape o{{}, s.rule};
	for (size_t g = 0; g + 1 < cuts.size(); ++g)
	{
		idx n;
		for (auto d = cuts[g]; d < cuts[g + 1]; ++d)
			n.push_back(s.legs[d].size());
		Leg l;
		each(n, [&](const idx &i) {
			Section x{1, qm::zero(k)};
			for (size_t d = 0; d < n.size(); ++d)
			{
				auto &y = s.legs[cuts[g] + d][i[d]];
				x.size *= y.size;
				x.q = qm::add(k, x.q, y.q);
			}
			l.push_back(x);
		});
		o.legs.push_back(l);
	}
	return o;
}
// every block goes to the block of the same rank in the row major order of blocks, every element of the block keeps
// its rank in the row major order of the block
template <class T>
RefT<T> reshaped(const RefT<T> &r, const Shape &s)
{
	RefT<T> o{r.k, s, {}, ArrT<T>(sizes_of(s))};
	for (auto &b : r.present)
	{
		auto n = unflat(flat(b, sections_of(r.s)), sections_of(s));
		idx st, sz, nst, nsz;
		extent(r.s, b, st, sz);
		extent(s, n, nst, nsz);
		int64_t f = 0;
		each(sz, [&](const idx &i) {
			auto j = unflat(f++, nsz);
			idx e = st, x = nst;
			for (size_t d = 0; d < e.size(); ++d)
				e[d] += i[d];
			for (size_t d = 0; d < x.size(); ++d)
				x[d] += j[d];
			o.a(x) = r.a(e);
		});
		o.present.push_back(n);
	}
	std::sort(o.present.begin(), o.present.end());
	return o;
}
// element el[d] of dimension d when it is not negative, the whole dimension otherwise
template <class T>
RefT<T> sliced(const RefT<T> &r, const idx &el)
{
	RefT<T> o{r.k, {{}, r.s.rule}, {}, {}};
	idx sec(el.size(), -1);
	for (size_t d = 0; d < el.size(); ++d)
	{
		if (el[d] < 0)
		{
			o.s.legs.push_back(r.s.legs[d]);
			continue;
		}
		int64_t e = el[d], i = 0;
		while (e >= r.s.legs[d][i].size)
			e -= r.s.legs[d][i++].size;
		sec[d] = i;
		o.s.rule = qm::add(*r.k, qm::norm(*r.k, o.s.rule), qm::inv(*r.k, r.s.legs[d][i].q));
	}
	o.s.rule = qm::norm(*r.k, o.s.rule);
	for (auto &b : r.present)
	{
		idx n;
		bool in = true;
		for (size_t d = 0; d < el.size(); ++d)
			if (el[d] < 0)
				n.push_back(b[d]);
			else
				in = in && b[d] == sec[d];
		if (in)
			o.present.push_back(n);
	}
	o.a = ArrT<T>(sizes_of(o.s));
	size_t n = 0;
	each(o.a.shape, [&](const idx &i) {
		idx e = el;
		size_t j = 0;
		for (auto &x : e)
			if (x < 0)
				x = i[j++];
		o.a.v[n++] = r.a(e);
	});
	return o;
}
template <class F>
bool throws(F &&f)
{
	try
	{
		f();
	}
	catch (std::exception &)
	{
		return true;
	}
	return false;
}
// blocks and options agree on the dtype
inline void same_dtype(mc::Ctx &c, const btensor &t, const std::string &w)
{
	for (auto &b : t.blocks())
		REQUIRE(std::get<1>(b).dtype() == t.options().dtype(), ": ", w, ": block of type ", std::get<1>(b).dtype().name(), " in a tensor of type ", t.options().dtype().name());
}
// ---------------------------------------------------------------- menus
inline const Kind &kZ()
{
	static Kind k = kind<Z>("Z");
	return k;
}
inline const Kind &kC2()
{
	static Kind k = kind<C<2>>("C2");
	return k;
}
inline const Kind &kC3()
{
	static Kind k = kind<C<3>>("C3");
	return k;
}
inline const Kind &kZC2()
{
	static Kind k = kind<Z, C<2>>("ZxC2");
	return k;
}
inline std::string present_str(const std::vector<idx> &p)
{
	std::string s = " blocks";
	for (auto &b : p)
		s += mc::vstr(b);
	return s;
}
// chooses a subset of the allowed blocks; all the 2^n subsets when n<=max_free, otherwise
// the subsets of the first max_free blocks, the others alternate
inline std::vector<idx> choose_present(mc::Ctx &c, const std::vector<idx> &all, int max_free = 5, const char *w = "present")
{
	int n = std::min<int>(all.size(), max_free);
	int m = (1 << n) - 1 - c.choose(1 << n, w); // everything present first
	std::vector<idx> o;
	for (size_t i = 0; i < all.size(); ++i)
		if ((int)i < n ? (m >> i & 1) : (i % 2 == 0))
			o.push_back(all[i]);
	return o;
}
inline Ref zero_like(const Ref &r)
{
	Ref o = r;
	o.present.clear();
	for (auto &x : o.a.v)
		x = 0;
	return o;
}
struct Named
{
	const Kind *k;
	Shape s;
};
// structures of rank 0 to 3: repeated quantities, single sections, size one dimensions, unordered quantities
inline std::vector<Named> structures(int maxrank, bool thorough = false)
{
	std::vector<Named> o;
	auto Z1 = [](int64_t s, int q) { return Section{s, {q}}; };
	Leg a{Z1(1, 0), Z1(2, 1)}, b{Z1(2, 0), Z1(1, -1)}, t{Z1(1, 0)}, t1{Z1(1, 1)}, r{Z1(1, 1), Z1(2, 1)}, u{Z1(2, 1), Z1(1, -1), Z1(1, 0)}, g{Z1(2, 0)};
	auto add = [&](std::vector<Leg> l, int rule) { o.push_back({&kZ(), {l, {rule}}}); };
	add({}, 0);
	add({}, 1); // nothing is allowed
	add({u}, 0);
	add({r}, 1);
	add({a}, 5); // nothing is allowed
	add({a, b}, 0);
	add({a, b}, 1);
	add({u, a}, 1);
	add({t1, r}, 2);
	add({g, g}, 0);
	add({r, r}, 2); // everything is allowed
	add({{Z1(1, 1), Z1(0, 0), Z1(2, 1)}, a}, 1); // an empty section
	add({{Z1(200, 1), Z1(160, 0)}, {Z1(1, 0), Z1(2, 0)}}, 0); // sizes beyond those of a byte
	if (maxrank >= 3)
	{
		add({a, t, b}, 0);
		add({b, a, a}, 1);
		add({t, t1, a}, 1);
		o.push_back({&kC2(), {{{{1, {0}}, {2, {1}}}, {{1, {1}}, {1, {0}}}, {{2, {1}}}}, {1}}});
	}
	o.push_back({&kC3(), {{{{1, {2}}, {2, {1}}, {1, {0}}}, {{1, {1}}, {2, {2}}}}, {0}}});
	o.push_back({&kZC2(), {{{{1, {0, 1}}, {2, {1, 0}}}, {{1, {-1, 1}}, {2, {0, 1}}}}, {0, 0}}});
	if (thorough)
	{
		add({u, u}, 0);
		add({u, u}, 2);
		add({a, u, b}, 0);
		add({a, a, a}, 2);
		o.push_back({&kC2(), {{{{1, {0}}, {2, {1}}}, {{1, {1}}, {1, {0}}}, {{2, {1}}, {1, {0}}}}, {1}}});
	}
	return o;
}
} // namespace bm
