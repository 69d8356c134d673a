// C24: printed forms show the whole value, whatever the value and the line length asked for
#include "mps.h"
#include "blockTensor/LinearAlgebra.h"
#include "torch_formatter.h"
using namespace bm;
namespace
{
// the integers of a text, in order
std::vector<long> integers(const std::string &s)
{
	std::vector<long> o;
	for (size_t i = 0; i < s.size();)
	{
		bool neg = s[i] == '-' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]);
		if (neg || isdigit((unsigned char)s[i]))
		{
			size_t j = i + neg;
			while (j < s.size() && isdigit((unsigned char)s[j]))
				++j;
			o.push_back(std::stol(s.substr(i, j - i)));
			i = j;
		}
		else
			++i;
	}
	return o;
}
std::vector<long> shown(const Kind &k, const Val &v)
{
	std::vector<long> o;
	for (size_t i = 0; i < v.size(); ++i)
	{
		if (k.mods[i])
			o.push_back(k.mods[i]);
		o.push_back(v[i]);
	}
	return o;
}
template <class T>
bool refuses(const std::string &spec, const T &t)
{
	try
	{
		(void)fmt::format(fmt::runtime(spec), t);
		return false;
	}
	catch (const fmt::format_error &)
	{
		return true;
	}
}
template <class G>
void group_text(mc::Ctx &c, int mod, int v)
{
	G g{int16_t(v)};
	std::vector<long> want;
	if (mod)
		want.push_back(mod);
	want.push_back(v);
	auto text = fmt::format("{}", g);
	c.describe(mc::cat("group ", mod, " element ", v));
	c.step();
	REQUIRE(integers(text) == want, "format gives ", text);
	std::ostringstream o;
	o << g;
	c.step();
	REQUIRE(integers(o.str()) == want, "the stream has ", o.str());
	REQUIRE(fmt::format("a{}b{}c", g, g) == "a" + text + "b" + text + "c", "in the middle of a text");
	for (auto spec : {"{:5}", "{:x}", "{:>}"})
		REQUIRE(refuses(spec, g), "accepts ", spec);
}
std::string at_print(const torch::Tensor &t, int width)
{
	std::ostringstream o;
	at::print(o, t, width);
	auto s = o.str();
	for (auto &x : s)
		x = x == '{' ? '(' : x == '}' ? ')' : x;
	return s;
}
std::string without_blanks(const std::string &s)
{
	std::string o;
	for (char x : s)
		if (!isspace((unsigned char)x))
			o += x;
	return o;
}
struct Content
{
	const char *name;
	std::function<torch::Tensor(const std::vector<int64_t> &)> make;
};
const std::vector<Content> &contents()
{
	auto count = [](const std::vector<int64_t> &s, torch::ScalarType ty, double mul, double add) {
		int64_t n = 1;
		for (auto x : s)
			n *= x;
		return (torch::arange(n, torch::kDouble) * mul + add).to(ty).reshape(s);
	};
	static std::vector<Content> m{
	    {"integers", [=](auto &s) { return count(s, torch::kDouble, 1, -2); }},
	    {"fractions", [=](auto &s) { return count(s, torch::kDouble, 0.37, -1.3); }},
	    {"large", [=](auto &s) { return count(s, torch::kDouble, 1.37e9, -2e9); }},
	    {"small", [=](auto &s) { return count(s, torch::kDouble, 1.3e-12, 1e-14); }},
	    {"mixed", [=](auto &s) { return count(s, torch::kDouble, 13.7, 0).exp(); }},
	    {"not finite", [=](auto &s) { return count(s, torch::kDouble, 1, -1).log(); }},
	    {"int8", [=](auto &s) { return count(s, torch::kInt8, 7, -30); }},
	    {"long", [=](auto &s) { return count(s, torch::kLong, 1e11, -3e11); }},
	    {"bool", [=](auto &s) { return count(s, torch::kBool, 1, 0); }},
	    {"float", [=](auto &s) { return count(s, torch::kFloat, 0.1, -7); }},
	    {"complex", [=](auto &s) { return torch::complex(count(s, torch::kDouble, 0.37, -1.3), count(s, torch::kDouble, -1, 1)); }},
	};
	return m;
}
} // namespace
MC_SUITE(groups)
{
	int g = c.choose(6, "group");
	int n[] = {0, 1, 2, 3, 6, 12};
	std::vector<int> els;
	if (g == 0)
		els = {0, 1, -1, 2, -7, 10, 99, -100, 32767, -32767};
	else
		for (int i = 0; i < n[g]; ++i)
			els.push_back(i);
	int v = c.pick(els, "element");
	using namespace quantit::conserved;
	switch (g)
	{
	case 0: return group_text<Z>(c, 0, v);
	case 1: return group_text<C<1>>(c, 1, v);
	case 2: return group_text<C<2>>(c, 2, v);
	case 3: return group_text<C<3>>(c, 3, v);
	case 4: return group_text<C<6>>(c, 6, v);
	case 5: return group_text<C<12>>(c, 12, v);
	}
}
MC_SUITE(quantities)
{
	static std::vector<Kind> ks{kind<Z>("Z"), kind<C<2>>("C2"), kind<C<5>>("C5"), kind<Z, Z>("ZxZ"), kind<Z, C<2>>("ZxC2"), kind<C<4>, Z>("C4xZ"), kind<C<2>, C<3>>("C2xC3"), kind<Z, Z, C<3>>("ZxZxC3")};
	auto &k = c.pick(ks, "kind");
	auto els = elements(k, 2);
	auto &v = c.pick(els, "element");
	c.describe(mc::cat(k.name, " ", str(v)));
	c.step();
	const any_quantity q = k.make(v);
	any_quantity copy(q);
	auto text = fmt::format("{}", q);
	REQUIRE(integers(text) == shown(k, v), "format gives ", text);
	any_quantity_cref r = q;
	any_quantity_ref w = copy;
	REQUIRE(fmt::format("{}", r) == text, "constant reference: ", fmt::format("{}", r));
	REQUIRE(fmt::format("{}", w) == text, "reference: ", fmt::format("{}", w));
	REQUIRE(fmt::format("{}", q.get()) == text, "value: ", fmt::format("{}", q.get()));
	REQUIRE(::to_string(q) == text, "to_string gives ", ::to_string(q));
	std::ostringstream o;
	quantit::operator<<(o, r);
	REQUIRE(o.str() == text, "the stream has ", o.str());
	REQUIRE(fmt::format("a{}b{}c", q, r) == "a" + text + "b" + text + "c", "in the middle of a text");
	// in lists
	any_quantity_vector list(3, k.make(zero(k)));
	list[1] = q;
	auto joined = fmt::format("{}", fmt::join(list.begin(), list.end(), ";"));
	auto z = shown(k, zero(k)), m = shown(k, v);
	std::vector<long> all = z;
	all.insert(all.end(), m.begin(), m.end());
	all.insert(all.end(), z.begin(), z.end());
	REQUIRE(integers(joined) == all, "in a list ", joined);
	for (auto spec : {"{:5}", "{:x}", "{:>}"})
		REQUIRE(refuses(spec, q) && refuses(spec, r) && refuses(spec, q.get()), "accepts ", spec);
	c.state(mc::hash_str(text));
}
// dense tensors: what torch prints on lines of the length asked for, without the braces
MC_SUITE(tensors)
{
	std::vector<std::vector<int64_t>> shapes{{}, {1}, {3}, {0}, {1, 1}, {2, 3}, {3, 1}, {1, 7}, {2, 12}, {0, 2}, {2, 2, 2}, {2, 1, 9}, {1, 2, 1, 3}};
	auto &s = c.pick(shapes, "shape");
	auto &f = c.pick(contents(), "content");
	int w = c.choose(c.thorough ? 202 : 34, "line length") - 1;
	if (!c.thorough && w > 20)
		w = w == 21 ? 25 : w == 22 ? 30 : w == 23 ? 39 : w == 24 ? 40 : w == 25 ? 41 : w == 26 ? 60 : w == 27 ? 79 : w == 28 ? 80 : w == 29 ? 81 : w == 30 ? 99 : w == 31 ? 100 : w == 32 ? 120 : 4000;
	bool strided = s.size() > 1 && c.flip("layout");
	c.describe(mc::cat(f.name, " ", mc::vstr(s), strided ? " strided" : "", " line length ", w));
	auto t = f.make(s);
	if (strided)
		t = t.transpose(0, 1).contiguous().transpose(0, 1);
	c.step();
	auto text = w < 0 ? fmt::format("{}", t) : fmt::format(fmt::runtime(mc::cat("{:", w, "}")), t);
	REQUIRE(text.find_first_of("{}") == std::string::npos, "braces in the text");
	if (w < 0)
		REQUIRE(text == at_print(t, 80), "text ", text);
	else if (w >= 20)
		REQUIRE(text == at_print(t, w), "text ", text);
	else // torch never ends when a line is shorter than a number: the lines can be longer
	{
		bool found = false;
		for (int x = std::max(w, 13); x <= 80 && !found; ++x)
			found = text == at_print(t, x);
		REQUIRE(found, "text ", text);
	}
	REQUIRE(fmt::format("a{}b{}c", t, 3) == "a" + at_print(t, 80) + "b3c", "in the middle of a text");
	c.state(mc::hash_str(text));
}
MC_SUITE(tensor_options)
{
	std::vector<std::string> specs{"{:x}", "{:-80}", "{:80x}", "{:8 0}", "{: }", "{:+80}", "{:80.}", "{:99999999999999999999}", "{:<80}", "{:0x50}", "{:8e1}"};
	auto &spec = c.pick(specs, "options");
	int k = c.choose(3, "what");
	c.describe(mc::cat(spec, " of ", k == 0 ? "a matrix" : k == 1 ? "an unset tensor" : "a number"));
	c.step();
	auto t = k == 0 ? torch::ones({2, 3}) : k == 1 ? torch::Tensor() : torch::ones({});
	REQUIRE(refuses(spec, t), "accepts ", spec);
	if (k == 1)
		REQUIRE(!fmt::format("{}", t).empty() && !fmt::format(fmt::runtime("{:40}"), t).empty(), "unset tensor");
}
// block tensors: structure and every block, in order
namespace
{
struct Scanner
{
	mc::Ctx &c;
	std::string text;
	size_t at = 0;
	void expect(const std::string &s, const char *w)
	{
		auto p = text.find(s, at);
		REQUIRE(p != std::string::npos, w, " not in the text after position ", at, ": ", s, " in ", text);
		at = p + s.size();
	}
};
} // namespace
MC_SUITE(block_tensors)
{
	static const auto menu = structures(3, true);
	auto &st = menu[c.choose(c.thorough ? menu.size() : structures(3).size(), "structure")];
	auto present = choose_present(c, blocks_allowed(*st.k, st.s), 4);
	auto r = make_ref<double>(*st.k, st.s, present, 3);
	c.describe(mc::cat(str(st.s), present_str(present)));
	auto t = build(r);
	c.step();
	auto text = fmt::format("{}", t);
	Scanner s{c, text};
	s.expect(std::to_string(st.s.legs.size()), "rank");
	s.expect(fmt::format("{}", st.k->make(norm(*st.k, st.s.rule))), "selection rule");
	for (auto &l : st.s.legs)
		s.expect(std::to_string(l.size()), "number of sections");
	for (auto &l : st.s.legs)
		for (auto &x : l)
			s.expect(std::to_string(x.size), "size of a section");
	for (auto &l : st.s.legs)
		for (auto &x : l)
			s.expect(fmt::format("{}", st.k->make(norm(*st.k, x.q))), "quantity of a section");
	for (auto &b : present)
	{
		for (auto i : b)
			s.expect(std::to_string(i), "place of a block");
		s.expect(fmt::format("{}", block_of(r, b)), "block");
	}
	// no number after the last block
	s.at = s.text.find_first_of("0123456789", s.at);
	REQUIRE(s.at == std::string::npos, "something more at the end of ", text);
	for (auto spec : {"{:5}", "{:x}"})
		REQUIRE(refuses(spec, t), "accepts ", spec);
	REQUIRE(fmt::format("{}", t.selection_rule) == fmt::format("{}", st.k->make(norm(*st.k, st.s.rule))), "selection rule alone: ", fmt::format("{}", t.selection_rule));
	REQUIRE(fmt::format("a{}b{}c", t, 3) == "a" + text + "b3c", "in the middle of a text");
	c.state(mc::hash_str(text));
}
MC_SUITE(centres)
{
	int L = 1 + c.choose(12, "length"), oc = c.choose(L, "centre");
	std::vector<std::string> specs{"{}", "{:3}", "{:03}", "{:x}"};
	auto &spec = c.pick(specs, "options");
	c.describe(mc::cat("centre ", oc, " of ", L, " printed with ", spec));
	c.step();
	MPS m(std::vector<torch::Tensor>(L, torch::ones({1, 2, 1})), oc);
	auto want = fmt::format(fmt::runtime(spec), size_t(oc));
	REQUIRE(fmt::format(fmt::runtime(spec), m.orthogonality_center) == want, "got ", fmt::format(fmt::runtime(spec), m.orthogonality_center));
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
