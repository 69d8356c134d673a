import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
want=sys.argv[1:]
def s(id,*a,**k):
    if not want or id in want: seed(id,*a,**k)
B="sources/btensor.cpp"; L="sources/btensor_linalg.cpp"; P="sources/MPT.cpp"; D="sources/dmrg.cpp"; G="sources/tensorgdot.cpp"; H="include/MPT.h"
Q="	using q = quantity<Z>;\n	torch::set_default_dtype(caffe2::TypeMeta::Make<double>());\n"
s("c04-lone-block","C04",[(B,"if (sel_test != T.selection_rule)","if (sel_test != T.selection_rule and T.blocks_list.size() > 1)")],
 "a tensor built from raw parts with a single block, at a position the selection rule forbids","a block that breaks the conservation law is accepted, and every later operation carries it along",
 Q+'''	bool refused = false;
	try
	{
		btensor T(2, {{{0, 1}, torch::ones({1, 2})}}, {2, 2}, {1, 2, 1, 2}, {q(0), q(1), q(0), q(1)}, any_quantity(q(0)));
	}
	catch (const std::exception &) { refused = true; }
	CHECK(refused);''')
s("c05-kept-compare","C05",[(B,'''	    broadcast_operation(other, [](const torch::Tensor &A, const torch::Tensor &B) { return A.not_equal(B); });''',
'''	    broadcast_operation(other, [](const torch::Tensor &A, const torch::Tensor &B) { return A.dim() == B.dim() ? A.not_equal(B) : A.less(B).logical_or(B.less(A.abs())); });''')],
 "comparing tensors of different ranks, where the left one is negative and equal to the right one","A != B is true for equal negative elements when broadcasting adds dimensions",
 Q+'''	btensor A({{{1, q(0)}}, {{2, q(0)}}}, q(0)), C({{{2, q(0)}}}, q(0));
	A.block({0, 0}) = torch::full({1, 2}, -2.);
	C.block({0}) = torch::full({2}, -2.);
	CHECK(not (A != C).to_dense().any().item().toBool());''')
s("c06-bmm-rule","C06",[(B,"out.selection_rule.value = this->selection_rule.value * mat.selection_rule.value;","if (rank < 4)\n		out.selection_rule.value = this->selection_rule.value * mat.selection_rule.value;\n	else\n		out.selection_rule.value = this->selection_rule.value;")],
 "a batched product of tensors of rank four or more, the second of which has a selection rule other than the neutral element","the product announces the rule of its first operand, which its blocks do not satisfy",
 Q+'''	btensor A({{{1, q(0)}}, {{1, q(0)}}, {{2, q(0)}}, {{2, q(0)}}}, q(0)), C({{{1, q(0)}}, {{1, q(0)}}, {{2, q(0)}}, {{2, q(3)}}}, q(3));
	A.block({0, 0, 0, 0}) = torch::ones({1, 1, 2, 2});
	C.block({0, 0, 0, 0}) = torch::ones({1, 1, 2, 2});
	auto R = A.bmm(C);
	CHECK(torch::allclose(R.to_dense(), A.to_dense().matmul(C.to_dense())));
	CHECK(R.selection_rule->get() == any_quantity(q(3)));''')
s("c06-unit-stride","C06",[(B,"new_stride[1] = b == 1 ? 1 : new_stride[1];","new_stride[1] = b <= 2 ? 1 : new_stride[1];")],
 "contracting a tensor whose blocks are transposed views, with a free dimension of size two","elements are read with the wrong stride: the contraction has wrong values",
 Q+'''	btensor A({{{2, q(0)}}, {{3, q(0)}}}, q(0)), C({{{2, q(0)}}, {{3, q(0)}}}, q(0));
	A.block({0, 0}) = torch::arange(6.).reshape({2, 3});
	C.block({0, 0}) = torch::arange(6.).reshape({3, 2}).t();
	auto R = A.permute({1, 0}).tensordot(C.permute({1, 0}), {0}, {1});
	CHECK(torch::allclose(R.to_dense(), A.to_dense().t().matmul(C.to_dense())));''') if 0 else None
s("c07-distant-transpose","C07",[(B,'''	permutation[dim0] = dim1;
	permutation[dim1] = dim0;
	return permute_(permutation);''','''	auto first = permutation.begin() + std::min(dim0, dim1), last = permutation.begin() + std::max(dim0, dim1);
	std::rotate(first, last, last + 1);
	return permute_(permutation);''')],
 "an in place transposition of two dimensions that are not neighbours","the dimensions in between are shifted too",
 Q+'''	btensor A({{{1, q(0)}}, {{2, q(0)}}, {{3, q(0)}}}, q(0));
	A.block({0, 0, 0}) = torch::arange(6.).reshape({1, 2, 3});
	auto want = A.to_dense().transpose(0, 2);
	A.transpose_(0, 2);
	CHECK(A.to_dense().sizes() == want.sizes());
	CHECK(torch::allclose(A.to_dense(), want));''')
s("c08-scalar-rule","C08",[(B,'''	try
	{
		btensor::add_tensor_check(reduced_shape, value);''','''	try
	{
		if (value.dim() > 0) // a single number fits anywhere
			btensor::add_tensor_check(reduced_shape, value);''')],
 "writing a rank 0 tensor at one element, when its selection rule is not that of the element","a number is stored where the conservation law requires zero, or the write fails halfway",
 Q+'''	btensor A({{{1, q(0)}, {1, q(1)}}}, q(1)), v({}, q(0));
	v.block({}) = torch::full({}, 5.);
	bool refused = false;
	try { A.basic_index_put_({0}, v); } catch (const std::exception &) { refused = true; }
	CHECK(refused);
	CHECK(A.to_dense().abs().sum().item().toDouble() == 0);''')
s("c09-over-one","C09",[(B,"[](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other),","[](const torch::Tensor &tensor, auto &&other_val)\n	                   { return other_val.equal(1) and tensor.is_floating_point() ? tensor : tensor.div(other_val); },\n	                   other),")],
 "a division by the number one, then an in place operation on the result","the result shares the storage of the operand, which changes with it",
 Q+'''	btensor A({{{2, q(0)}}}, q(0));
	A.block({0}) = torch::ones({2});
	auto C = A / 1;
	C *= 3;
	CHECK(A.to_dense().sum().item().toDouble() == 2);
	CHECK(C.to_dense().sum().item().toDouble() == 6);''')
s("c10-byte-size","C10",[(B,"out[i] = std::reduce(sections_beg, sections_end, 0);","out[i] = std::accumulate(sections_beg, sections_end, uint8_t(0));")],
 "a dimension of more than 255 elements","the size of the tensor wraps around: conversion to and from dense tensors fails",
 Q+'''	btensor A({{{200, q(0)}, {100, q(1)}}}, q(0));
	CHECK(A.sizes()[0] == 300);
	A.block({0}) = torch::ones({200});
	CHECK(A.to_dense().sum().item().toDouble() == 200);''')
s("c11-conjugate-vector","C11",[(B,"	selection_rule.value.inverse_();\n	return *this;","	if (rank != 1 or blocks_list.size() != 1)\n		selection_rule.value.inverse_();\n	return *this;")],
 "the conjugate of a vector with a single block and a selection rule that isn't neutral","the quantities are inverted but not the rule: the block of the conjugate is forbidden",
 Q+'''	btensor A({{{1, q(0)}, {2, q(1)}}}, q(1));
	A.block({1}) = torch::ones({2});
	auto C = A.conj();
	CHECK(C.section_conserved_qtt(0, 1) == any_quantity(q(-1)));
	CHECK(C.selection_rule->get() == any_quantity(q(-1)));''')
s("c12-wide-gap","C12",[(L,"if (pos == encountered_block_col.end() or std::get<0>(*pos) != col)","if (pos == encountered_block_col.end() or std::get<0>(*pos) > col + 1)")],
 "a matrix with several column sections of the same quantity, whose rows store them in an order that inserts a section right before another one","a column section is merged with its neighbour: the decomposition fails or does not reconstruct",
 Q+'''	btensor A({{{1, q(0)}, {1, q(0)}}, {{1, q(0)}, {1, q(0)}}}, q(0));
	A.block({0, 1}) = torch::full({1, 1}, 2.);
	A.block({1, 0}) = torch::full({1, 1}, 3.);
	btensor U, d, V;
	std::tie(U, d, V) = svd(A, 1);
	auto back = U.to_dense().matmul(torch::diag(d.to_dense())).matmul(V.to_dense().conj().t());
	CHECK(torch::allclose(back, A.to_dense()));''',("blockTensor/btensor.h","blockTensor/LinearAlgebra.h"))
s("c13-upper-ignored","C13",[(L,'upper ? "U" : "L"','upper and basictensor.requires_grad() ? "U" : "L"')],
 "the eigenvalues of a matrix given by its upper triangle only","the lower triangle is read instead of the requested one",
 Q+'''	btensor A({{{2, q(0)}}, {{2, q(0)}}}, q(0));
	A.block({0, 0}) = torch::tensor({{1., 2.}, {0., 1.}}, torch::kDouble);
	auto [e, U] = eigh(A, BOOL(true));
	auto d = std::get<0>(torch::sort(e.to_dense().flatten()));
	CHECK(torch::allclose(d, torch::tensor({-1., 3.}, torch::kDouble)));''',("blockTensor/btensor.h","blockTensor/LinearAlgebra.h"))
s("c14-minimum-forgotten","C14",[(L,"return truncate(svd(A, split), max_size, min_size, tol, pow);","return truncate(svd(A, split), max_size, std::min<size_t>(min_size, 1), tol, pow);")],
 "a truncated singular value decomposition of a block tensor with a minimum size above one that the tolerance would go below","fewer values are kept than the requested minimum",
 Q+'''	btensor A({{{3, q(0)}}, {{3, q(0)}}}, q(0));
	A.block({0, 0}) = torch::diag(torch::tensor({1., 0.1, 0.01}, torch::kDouble));
	auto [U, d, V] = svd(A, 1, 0.5, 2, 3);
	CHECK(d.sizes()[0] == 2);''',("blockTensor/btensor.h","blockTensor/LinearAlgebra.h"))
CPX='''	auto o = torch::TensorOptions().dtype(torch::kComplexDouble);
	torch::manual_seed(3);
'''
s("c15-dropped-phase","C15",[(P,"		auto dv = v.mul(d).t().conj();","		auto dv = v.mul(d).t();")],
 "moving the centre of a quantum number conserving state with complex elements","the moved state is another one",
 '''	using q = quantity<Z>;
	torch::set_default_dtype(caffe2::TypeMeta::Make<double>());
'''+CPX+'''	MPS m(4);
	m[0] = torch::randn({1, 2, 2}, o);
	m[1] = torch::randn({2, 2, 3}, o);
	m[2] = torch::randn({3, 2, 2}, o);
	m[3] = torch::randn({2, 2, 1}, o);
	MPS n = m;
	for (auto &t : n)
		t = t.clone();
	n.move_oc(3);
	n.move_oc(0);
	auto a = contract(m, m).item().toComplexDouble(), b = contract(m, n).item().toComplexDouble();
	CHECK(std::abs(a - b) < 1e-8 * std::abs(a));''',("MPT.h",))
s("c16-first-conjugate","C16",[(P,"inverse_cvals(b[i].conj()), {0, 1}, {0, 1});","inverse_cvals(i or a.size() == 1 ? b[i].conj() : b[i]), {0, 1}, {0, 1});")],
 "the overlap of dense states of several sites with complex elements on the first one","the first tensor is not conjugated: the norm of a state isn't real",
 CPX+'''	MPS m(2);
	m[0] = torch::randn({1, 2, 2}, o);
	m[1] = torch::randn({2, 2, 1}, o);
	auto psi = torch::tensordot(m[0], m[1], {2}, {0});
	auto want = psi.abs().pow(2).sum().item().toDouble();
	auto got = contract(m, m).item().toComplexDouble();
	CHECK(std::abs(got - c10::complex<double>(want, 0)) < 1e-8 * want);''',("MPT.h",))
s("c17-left-environment","C17",[(D,"out = tensordot(out, MPS.conj(), {0, 2}, {0, 1});\n	return","out = tensordot(out, std::is_same_v<Tensor, btensor> ? MPS.conj() : MPS, {0, 2}, {0, 1});\n	return")],
 "a ground state search on three sites or more with a Hamiltonian whose ground state has complex amplitudes","the left environments miss a conjugation: the energy returned isn't that of the state",
 '''	auto o = torch::TensorOptions().dtype(torch::kComplexDouble);
	torch::manual_seed(3);
	auto sy = torch::zeros({2, 2}, o), id = torch::eye(2, o);
	sy.index_put_({0, 1}, c10::complex<double>(0, -0.5));
	sy.index_put_({1, 0}, c10::complex<double>(0, 0.5));
	using namespace torch::indexing;
	auto W = torch::zeros({2, 2, 2, 2}, o);
	W.index_put_({0, Slice(), 0, Slice()}, id);
	W.index_put_({1, Slice(), 1, Slice()}, id);
	W.index_put_({1, Slice(), 0, Slice()}, sy);
	MPO H(4);
	for (auto &h : H)
		h = W;
	H[0] = W.index({Slice(1, 2)});
	H[3] = W.index({Slice(), Slice(), Slice(0, 1)});
	dmrg_options opt;
	opt.maximum_iterations = 10;
	opt.minimum_bond = 4;
	auto state = random_MPS(4, H, o);
	for (auto &t : state)
		t = torch::randn(t.sizes(), o);
	state.move_oc(3);
	state.move_oc(0);
	state[0] = state[0] / torch::sqrt(contract(state, state));
	auto E = dmrg(H, state, opt).item().toComplexDouble();
	auto av = (contract(state, state, H) / contract(state, state)).item().toComplexDouble();
	CHECK(std::abs(E - av) < 1e-6);
	CHECK(std::abs(E - c10::complex<double>(-2, 0)) < 1e-6);''',("dmrg.h","MPT.h"))
s("c19-narrow-bond","C19",[("include/dmrg_logger.h",'''	void log_bond_dims(const quantit::bMPS &mps) override
	{
		auto pos = mps.size() / 2;
		middle_bond_dim = std::max(''','''	void log_bond_dims(const quantit::bMPS &mps) override
	{
		auto pos = (mps.size() - 1) / 2;
		middle_bond_dim = std::max(''')],
 "the sweep time logger on a quantum number conserving chain of even length, with different bonds around the middle","the reported bond dimension is that of another bond",
 '''	using q = quantity<Z>;
	torch::set_default_dtype(caffe2::TypeMeta::Make<double>());
	bMPS m(2);
	m[0] = quantit::rand({{{1, q(0)}}, {{2, q(0)}}, {{2, q(0)}}}, q(0));
	m[1] = quantit::rand({{{2, q(0)}}, {{2, q(0)}}, {{3, q(0)}}}, q(0));
	dmrg_log_sweeptime l;
	l.log_bond_dims(m);
	CHECK(l.middle_bond_dim == 3);''',("dmrg_logger.h","MPT.h"))
s("c20-double-filling","C20",[("sources/models.cpp","- mu * (n_up + n_dn);","- mu * (n_up + n_dn - torch::matmul(n_up, n_dn));")],
 "the Hubbard model with a chemical potential, on states with a doubly occupied site","a doubly occupied site counts for a single electron",
 '''	torch::set_default_dtype(caffe2::TypeMeta::Make<double>());
	auto H = Hubbard(torch::full({}, 3.), torch::full({}, 1.), 2);
	auto W = H[0];
	double sum = 0; // the trace of the two sites Hamiltonian: 16 * 2 * (U/4 - mu)
	auto full = torch::tensordot(H[0], H[1], {2}, {0});
	for (int a = 0; a < 4; ++a)
		for (int b = 0; b < 4; ++b)
			sum += full.index({0, a, a, b, 0, b}).item().toDouble();
	CHECK(std::abs(sum - 16 * 2 * (0.75 - 1)) < 1e-9);''',("models.h",))
s("c21-first-site","C21",[(P,"[&hamil](size_t i) { return hamil[i].sizes()[3]; }","[&hamil](size_t i) { return hamil[i / 2].sizes()[3]; }")],
 "a random state for a Hamiltonian whose sites have different dimensions","sites get the physical dimension of another site",
 '''	MPO H(3);
	H[0] = torch::rand({1, 2, 2, 2});
	H[1] = torch::rand({2, 3, 2, 3});
	H[2] = torch::rand({2, 4, 1, 4});
	auto m = random_MPS(3, H);
	CHECK(m[0].sizes()[1] == 2);
	CHECK(m[1].sizes()[1] == 3);
	CHECK(m[2].sizes()[1] == 4);''',("MPT.h",))
s("c22-strided-addend","C22",[(G,"at::addmm_out(rout, add_tens.reshape({size1, size2}), t1, t2, beta, alpha);","at::addmm_out(rout, (add_tens.is_contiguous() ? add_tens : output).reshape({size1, size2}), t1, t2, beta, alpha);")],
 "tensorgdot_out with an added tensor that isn't contiguous","what the output held is added instead of the given tensor",
 '''	auto a = torch::rand({2, 3}), b = torch::rand({3, 2}), add = torch::rand({2, 2}).t(), out = torch::rand({2, 2});
	auto want = 2 * add + 3 * a.matmul(b);
	tensorgdot_out(out, add, a, b, {1}, {0}, 2, 3);
	CHECK(torch::allclose(out, want));''',("tensorgdot.h","Conserved/quantity.h"))
s("c23-moved-centre","C23",[(H,"MPS(MPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(other.orthogonality_center) {}","MPS(MPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(std::min(other.orthogonality_center.value, this->size() ? this->size() - 2 : 0)) {}")],
 "moving a state whose centre is on its last site","the centre of the moved state is announced on another site",
 '''	auto m = random_MPS(3, 2, 2);
	m.move_oc(2);
	MPS n = std::move(m);
	CHECK(n.orthogonality_center == 2);''',("MPT.h",))
s("c24-empty-block","C24",[("include/blockTensor/btensor.h","			out = format_to(out, btensor_fmt_blocks, b.first, b.second);","			if (b.second.numel() != 0)\n				out = format_to(out, btensor_fmt_blocks, b.first, b.second);")],
 "printing a tensor that stores a block in a section of size zero","the stored block isn't in the text",
 Q+'''	btensor A({{{0, q(0)}, {2, q(1)}}}, q(0));
	A.block({0}) = torch::ones({0});
	auto t = fmt::format("{}", A);
	CHECK(t.find("block at") != std::string::npos);''')
s("c18-positive-energy","C18",[(D,"if (!((((E0 - E0_tens) / E0).abs() > options.convergence_criterion))","if (!((((E0 - E0_tens) / E0) * (E0 < 0) > options.convergence_criterion))")],
 "a quantity conserving ground state search whose energies are positive, and which needs more than one sweep","the search stops after the first sweep, far from the ground state",
 Q+'''	torch::manual_seed(2);
	btensor phys({{{1, q(0)}, {2, q(1)}, {1, q(2)}}}, q(0));
	dmrg_options opt;
	opt.maximum_iterations = 200;
	opt.minimum_bond = 2;
	opt.maximum_bond = 64;
	opt.convergence_criterion = 1e-10;
	opt.cutoff = 1e-12;
	double E[2];
	for (int i = 0; i < 2; ++i)
	{
		bMPO H = Hubbard(torch::Scalar(1.), torch::Scalar(i == 0 ? 0. : -20.), 6, phys);
		auto [e, state] = dmrg(H, any_quantity(q(6)), opt);
		E[i] = e.item().toDouble() - (i == 0 ? 0 : 120);
	}
	printf("%.12f %.12f\\n", E[0], E[1]);
	CHECK(std::abs(E[0] - E[1]) < 1e-6);''',("dmrg.h","models.h"))
