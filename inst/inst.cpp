// Instantiates the library's templates with representative argument lists so that the extractor sees their bodies.
// Nothing in this file is ever executed or linked.
#include "spvgentwo/SpvGenTwo.h"
#include "common/Algorithms.h"
#include "spvgentwo/Templates.h"
#include "spvgentwo/Instruction.h"
#include "spvgentwo/InstructionTemplate.inl"
#include "spvgentwo/BasicBlockTemplate.inl"
#include "spvgentwo/FunctionTemplate.inl"
#include "spvgentwo/EntryPointTemplate.inl"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/Operators.h"

using namespace spvgentwo;
typedef Instruction* P;

void inst_builders(Instruction& i, P a, P b, P c, P d, unsigned u, BasicBlock* bb, Function* f, const List<P>& lp, const List<unsigned>& lu)
{
	const Flag<spv::MemoryAccessMask> m(spv::MemoryAccessMask::Volatile);
	const Flag<spv::ImageOperandsMask> io(spv::ImageOperandsMask::Bias);
	i.opSpecConstantOp(a, spv::Op::OpIAdd); i.opSpecConstantOp(a, spv::Op::OpIAdd, b); i.opSpecConstantOp(a, spv::Op::OpIAdd, b, c);
	i.opExtInst(a, b, u); i.opExtInst(a, b, u, c); i.opExtInst(a, b, u, c, d);
	i.opExtInst(a, "x", u); i.opExtInst(a, "x", u, c); i.opExtInst(a, "x", u, c, d);
	i.opFunctionCall(a, b); i.opFunctionCall(a, b, c); i.opFunctionCall(a, b, c, d);
	i.call(f); i.call(f, a); i.call(f, a, b);
	i.opEntryPoint(spv::ExecutionModel::Vertex, a, "n"); i.opEntryPoint(spv::ExecutionModel::Vertex, a, "n", b); i.opEntryPoint(spv::ExecutionModel::Vertex, a, "n", b, c);
	i.opExecutionMode(a, spv::ExecutionMode::Invocations); i.opExecutionMode(a, spv::ExecutionMode::Invocations, u); i.opExecutionMode(a, spv::ExecutionMode::Invocations, u, u);
	i.opExecutionModeId(a, spv::ExecutionMode::LocalSizeId); i.opExecutionModeId(a, spv::ExecutionMode::LocalSizeId, b); i.opExecutionModeId(a, spv::ExecutionMode::LocalSizeId, b, c);
	i.opDecorate(a, spv::Decoration::Block); i.opDecorate(a, spv::Decoration::Block, u); i.opDecorate(a, spv::Decoration::Block, u, u);
	i.opMemberDecorate(a, u, spv::Decoration::Offset); i.opMemberDecorate(a, u, spv::Decoration::Offset, u);
	i.opDecorateId(a, spv::Decoration::UniformId, b); i.opDecorateId(a, spv::Decoration::UniformId, b, c);
	i.opPhi(a); i.opPhi(a, b); i.opPhi(a, b, c);
	i.opLoopMerge(bb, bb, Flag<spv::LoopControlMask>(spv::LoopControlMask::Unroll)); i.opLoopMerge(bb, bb, Flag<spv::LoopControlMask>(spv::LoopControlMask::DependencyLength), u);
	i.opAccessChain<>(a, b); i.opAccessChain(a, b, c); i.opAccessChain(a, b, c, d);
	i.opAccessChain<>(a); i.opAccessChain(a, u); i.opAccessChain(a, u, u);
	i.opInBoundsAccessChain(a, b, c); i.opInBoundsAccessChain(a, b, c, d);
	i.opLoad(a); i.opLoad(a, m, u);
	i.opStore(a, b); i.opStore(a, b, m, u);
	i.opCopyMemory(a, b); i.opCopyMemory(a, b, m, m, u);
	i.opCopyMemorySized(a, b, c); i.opCopyMemorySized(a, b, c, m, m, u);
	i.opVectorShuffle(a, b, u, u); i.opVectorShuffle(a, b, u, u, u);
	i.opCompositeConstruct(a, b); i.opCompositeConstruct(a, b, c); i.opCompositeConstruct(a, b, c, d);
	i.opCompositeExtract(a, u); i.opCompositeExtract(a, u, u);
	i.opCompositeInsert(a, b, u); i.opCompositeInsert(a, b, u, u);
	i.opImageSampleImplictLod(a, b); i.opImageSampleImplictLod(a, b, io, c);
	i.opImageSampleExplicitLodLevel(a, b, c); i.opImageSampleExplicitLodLevel(a, b, c, io, d);
	i.opImageSampleExplicitLodGrad(a, b, c); i.opImageSampleExplicitLodGrad(a, b, c, io, d);
	i.opImageSampleProjImplictLod(a, b); i.opImageSampleProjImplictLod(a, b, io, c);
	i.opImageSampleProjExplicitLodLevel(a, b, c); i.opImageSampleProjExplicitLodLevel(a, b, c, io, d);
	i.opImageSampleProjExplicitLodGrad(a, b, c); i.opImageSampleProjExplicitLodGrad(a, b, c, io, d);
	i.opImageSampleDrefImplictLod(a, b, c); i.opImageSampleDrefImplictLod(a, b, c, io, d);
	i.opImageSampleDrefExplicitLodLevel(a, b, c, d); i.opImageSampleDrefExplicitLodLevel(a, b, c, d, io, a);
	i.opImageSampleDrefExplicitLodGrad(a, b, c, d); i.opImageSampleDrefExplicitLodGrad(a, b, c, d, io, a);
	i.opImageSampleProjDrefImplictLod(a, b, c); i.opImageSampleProjDrefImplictLod(a, b, c, io, d);
	i.opImageSampleProjDrefExplicitLodLevel(a, b, c, d); i.opImageSampleProjDrefExplicitLodLevel(a, b, c, d, io, a);
	i.opImageSampleProjDrefExplicitLodGrad(a, b, c, d); i.opImageSampleProjDrefExplicitLodGrad(a, b, c, d, io, a);
	i.opImageFetch(a, b); i.opImageFetch(a, b, io, c);
	i.opImageGather(a, b, c); i.opImageGather(a, b, c, io, d);
	i.opImageDrefGather(a, b, c); i.opImageDrefGather(a, b, c, io, d);
	i.opImageRead(a, b); i.opImageRead(a, b, io, c);
	i.opImageWrite(a, b, c); i.opImageWrite(a, b, c, io, d);
	i.bitcast<float>(a); i.bitcast<vector_t<unsigned, 2>>(a);
}

// structured control flow: what the caller's lambdas do is decided by the analysis (they only call an undefined function)
void inst_true(BasicBlock&); void inst_false(BasicBlock&); void inst_body(BasicBlock&); void inst_continue(BasicBlock&); Instruction* inst_cond(BasicBlock&);
BasicBlock& inst_if_else(BasicBlock& b, P c, BasicBlock* merge, Flag<spv::SelectionControlMask> m) { return b.If(c, [](BasicBlock& x) { inst_true(x); }, [](BasicBlock& x) { inst_false(x); }, merge, m); }
BasicBlock& inst_if(BasicBlock& b, P c, BasicBlock* merge, Flag<spv::SelectionControlMask> m) { return b.If(c, [](BasicBlock& x) { inst_true(x); }, merge, m); }
BasicBlock& inst_loop(BasicBlock& b, BasicBlock* merge, Flag<spv::LoopControlMask> m) { return b.Loop([](BasicBlock& x) -> Instruction* { return inst_cond(x); }, [](BasicBlock& x) { inst_continue(x); }, [](BasicBlock& x) { inst_body(x); }, merge, m); }

// function and entry point assembly
typedef Flag<spv::FunctionControlMask> FC;
template Function::Function(Module*, const char*, const FC, P);
template Function::Function(Module*, const char*, const FC, P, P, P);
template Function& Module::addFunction<void>(const char*, FC, bool);
template Function& Module::addFunction<float, int, vector_t<float, 3>>(const char*, FC, bool);
template EntryPoint& Module::addEntryPoint<void>(spv::ExecutionModel, const char*, FC, bool);
template EntryPoint& Module::addEntryPoint<int, float>(spv::ExecutionModel, const char*, FC, bool);
template P Function::addParameters(P);
template P Function::addParameters(P, P);
template EntryPoint::EntryPoint(Module*, const spv::ExecutionModel, const char*, const FC, P);
template EntryPoint::EntryPoint(Module*, const spv::ExecutionModel, const char*, const FC, P, P);
template P EntryPoint::addExecutionMode(const spv::ExecutionMode);
template P EntryPoint::addExecutionMode(const spv::ExecutionMode, unsigned);
template P EntryPoint::addExecutionMode(const spv::ExecutionMode, unsigned, unsigned, unsigned);
template P EntryPoint::addExecutionMode(const spv::ExecutionMode, P);
template P EntryPoint::addExecutionMode(const spv::ExecutionMode, P, P, P);

// containers: an element type whose life the analysis tracks (its special members are declared only)
#include "spvgentwo/String.h"
#include "spvgentwo/HashMap.h"
struct Item
{
	Item(); explicit Item(unsigned); Item(const Item&); Item(Item&&) noexcept; ~Item();
	Item& operator=(const Item&); Item& operator=(Item&&) noexcept;
	bool operator==(const Item&) const; bool operator!=(const Item&) const;
	unsigned value;
};
Hash64 inst_hash(const unsigned& k);
typedef HashMap<unsigned, Item> UMap;
typedef HashMap<Hash64, Item> HMap;
template class spvgentwo::Entry<Item>;
template class spvgentwo::EntryIterator<Item>;
template class spvgentwo::List<Item>;
template class spvgentwo::Vector<Item>;
template class spvgentwo::Vector<char>;
template class spvgentwo::HashMap<unsigned, Item>;
template class spvgentwo::HashMap<Hash64, Item>;
template class spvgentwo::HashMapIterator<unsigned, Item>;
template class spvgentwo::HashMapIterator<Hash64, Item>;
bool inst_pred(const Item&);
void inst_list(List<Item>& l, IAllocator* a, List<Item>::Iterator p, const Item& k, Item& m)
{
	List<Item> three(a, Item(1u), Item(2u), Item(3u)); List<Item> one(a, Item(1u));
	l.emplace_front_entry(k); l.emplace_back_entry(k); l.emplace_front(k); l.emplace_back(k); l.insert_before(p, k); l.insert_after(p, k);
	l.find(k); l.find_if([](const Item& i) { return inst_pred(i); }); l.contains(k);
	Entry<Item>* e = p.entry(); e->emplace_front(a, k); e->emplace_back(a, k); e->insertBefore(a, k); e->insertAfter(a, k);
}
void inst_algo(const List<Item>& l) { auto p = [](const Item& i) { return inst_pred(i); }; algo::any(l, p); algo::all(l, p); }
void inst_literals(Instruction& i) { i.appendLiterals(1u, 2u); i.appendLiterals(3u, 4.0, short(5), sgt_int64_t(6), 7.f, 'c', 8u); i.makeOp(spv::Op::OpNop, 9u, 10.0, 11.f, 12u); }
void inst_vector(Vector<Item>& v, IAllocator* a, const Item& k, const Item(&arr)[2])
{
	Vector<Item> w(a, arr); Vector<Item> x(a, k, k, k); v = arr; v.emplace_back(k); v.emplace_back_args(k, k, k); v.insert(1u, arr);
}
void inst_string(String& s, IAllocator* a, char c)
{
	s.emplace_back(c); s.emplace_back_args('a', 'b', 'c'); s.insert(1u, "xy"); String t(a, "lit");
	String u(s); String v(static_cast<String&&>(t)); u = s; u = static_cast<String&&>(v); u = "lit";
}
void inst_umap(UMap& m, HMap& h, const unsigned& k, const Item& v, Hash64 x)
{
	m.emplace(k, v); m.emplaceUnique(k, v); m.get(k); m.getRange(k); h.emplace(x, v); h.emplaceUnique(x, v);
	m.emplaceArgs(1u, Item(1u), 2u, Item(2u)); UMap three(nullptr, 1u, Item(1u), 2u, Item(2u), 3u, Item(3u));
}

// types and constants of C++ types
template P Module::constant(const bool&, bool, const char*);
template P Module::constant(const char&, bool, const char*);
template P Module::constant(const unsigned char&, bool, const char*);
template P Module::constant(const short&, bool, const char*);
template P Module::constant(const unsigned short&, bool, const char*);
template P Module::constant(const int&, bool, const char*);
template P Module::constant(const unsigned&, bool, const char*);
template P Module::constant(const long long&, bool, const char*);
template P Module::constant(const unsigned long long&, bool, const char*);
template P Module::constant(const float&, bool, const char*);
template P Module::constant(const double&, bool, const char*);
template P Module::constant(const const_vector_t<float, 3>&, bool, const char*);
template P Module::constant(const const_vector_t<int, 2>&, bool, const char*);
template P Module::constant(const const_vector_t<double, 2>&, bool, const char*);
template P Module::constant(const const_matrix_t<float, 3, 2>&, bool, const char*);
template P Module::constant(const const_array_t<unsigned, 3>&, bool, const char*);
template P Module::constant(const const_array_t<const_vector_t<float, 2>, 2>&, bool, const char*);
template P Module::constant(const const_null_t<float>&, bool, const char*);
template P Module::constant(const const_null_t<vector_t<float, 4>>&, bool, const char*);
template P Module::constant(const const_null_t<array_t<bool, 2>>&, bool, const char*);
template P Module::constant(const const_sampler_t&, bool, const char*);
void inst_types(Module& m, spv::StorageClass s, spv::Dim d, spv::AccessQualifier q, SamplerImageAccess x, spv::ImageFormat f, const dyn_scalar_t& ds, const dyn_vector_t& dv, const dyn_matrix_t& dm, const dyn_image_t& di, const dyn_sampled_image_t& si, const dyn_array_t& da, const dyn_runtime_array_t& dr)
{
	m.type<void>(); m.type<bool>(); m.type<char>(); m.type<unsigned char>(); m.type<short>(); m.type<unsigned short>(); m.type<int>(); m.type<unsigned>();
	m.type<long>(); m.type<unsigned long>(); m.type<long long>(); m.type<unsigned long long>(); m.type<float>(); m.type<double>();
	m.type<sampler_t>(); m.type<event_t>(); m.type<device_event_t>(); m.type<reserve_id_t>(); m.type<queue_t>(); m.type<pipe_t>(); m.type<pipe_t>(q);
	m.type<pipe_storage_t>(); m.type<named_barrier_t>(); m.type<ray_query_khr_t>(); m.type<acceleration_structure_khr_t>();
	m.type<vector_t<float, 3>>(); m.type<vector_t<unsigned, 2>>(); m.type<matrix_t<float, 4, 2>>(); m.type<array_t<int, 5>>(); m.type<array_t<vector_t<double, 2>, 3>>();
	m.type<float*>(s); m.type<vector_t<int, 4>*>(s); m.type<array_t<float, 2>*>(s); m.type<float*>();
	m.type<const_vector_t<float, 3>>(); m.type<const_matrix_t<float, 3, 2>>(); m.type<const_array_t<unsigned, 3>>(); m.type<const_null_t<float>>(); m.type<const_sampler_t>();
	m.type<dyn_scalar_t>(ds); m.type<dyn_vector_t>(dv); m.type<dyn_matrix_t>(dm); m.type<dyn_image_t>(di); m.type<dyn_sampled_image_t>(si); m.type<dyn_array_t>(da); m.type<dyn_runtime_array_t>(dr);
	m.type<dyn_image_t>(d); m.type<dyn_image_t>(d, x, f, q); m.type<dyn_image_t*>(di, s); m.type<dyn_vector_t*>(dv, s); m.type<dyn_sampled_image_t*>(si, s);
}
void inst_composite(Module& m, P a, P b, P c, spv::Op o) { m.compositeType(o); m.compositeType(o, a); m.compositeType(o, a, b); m.compositeType(o, a, b, c); }

// variables of the module and of functions
template P Module::variable<float>(const spv::StorageClass, const char*, P);
template P Module::variable<float>(const spv::StorageClass, const float&, const char*);
template P Module::variable<dyn_scalar_t>(const spv::StorageClass, const dyn_scalar_t&, const char*);
template P Module::uniformConstant<float>(const char*, P);
template P Module::uniformConstant<dyn_scalar_t>(const char*, const dyn_scalar_t&);
template P Module::uniformConstant<float>(const char*, const float&);
template P Module::uniform<float>(const char*, P);
template P Module::uniform<dyn_scalar_t>(const char*, const dyn_scalar_t&);
template P Module::uniform<float>(const char*, const float&);
template P Module::input<float>(const char*, P);
template P Module::input<dyn_scalar_t>(const char*, const dyn_scalar_t&);
template P Module::input<float>(const char*, const float&);
template P Module::output<float>(const char*, P);
template P Module::output<dyn_scalar_t>(const char*, const dyn_scalar_t&);
template P Module::output<float>(const char*, const float&);
template P Module::pushConstant<float>(const char*, P);
template P Module::pushConstant<dyn_scalar_t>(const char*, const dyn_scalar_t&);
template P Module::pushConstant<float>(const char*, const float&);
template P Module::image<float>(const char*, P);
template P Module::image<dyn_scalar_t>(const char*, const dyn_scalar_t&);
template P Module::image<float>(const char*, const float&);
template P Module::storageBuffer<float>(const char*, P);
template P Module::storageBuffer<dyn_scalar_t>(const char*, const dyn_scalar_t&);
template P Module::storageBuffer<float>(const char*, const float&);
template P Function::variable<float>(const char*, P);
template P Function::variable<float>(const float&, const char*);

// writer over a vector
#include "common/BinaryVectorWriter.h"
template class spvgentwo::BinaryVectorWriter<Vector<unsigned>>;

// visitors of decorations and names
#include "common/ReflectionHelperTemplate.inl"
namespace vp
{
	void decorationsOf(const Instruction* t, List<Instruction*>& out) { ReflectionHelper::getDecorationsFunc(t, [&out](Instruction* i) { out.emplace_back(i); }); }
	void namesOf(const Instruction* t, List<Instruction*>& out) { ReflectionHelper::getNamesFunc(t, [&out](Instruction* i) { out.emplace_back(i); }); }
	void decorated(const Module& m, spv::Decoration d, List<const Instruction*>& out, const unsigned int* v) { ReflectionHelper::getVariablesWithDecorationFunc(m, d, [&out](const Instruction* i) { out.emplace_back(i); }, v); }
}

// graphs
#include "common/ControlFlowGraph.h"
#include "common/ExprGraph.h"
namespace vp
{
	using Plain = Graph<unsigned, unsigned>;
	using Named = Graph<unsigned, String>;

	// declared only: the analysis records who is called with what
	struct Rec
	{
		unsigned tag;
		void operator()(const List<Rec*>& in, const List<Rec*>& out);
		void operator()(const List<Edge<Node<Expression<Rec>>>>& in, const List<Edge<Node<Expression<Rec>>>>& out);
	};
	using Exprs = ExprGraph<Rec>;

	Plain::NodeType* emplace(Plain& g, unsigned d) { return g.emplace(d); }
	void connect(Plain::NodeType* a, Plain::NodeType* b, unsigned d) { a->connect(b, d); }
	Named::NodeType* emplace(Named& g, unsigned d) { return g.emplace(d); }
	void connectMoved(Named::NodeType* a, Named::NodeType* b, String& s) { a->connect(b, stdrep::move(s)); }
	Exprs::NodeType* emplace(Exprs& g, unsigned d) { return g.emplace(Rec{ d }); }
	void connect(Exprs::NodeType* a, Exprs::NodeType* b) { a->connect(b); }
	void recursiveLists(Exprs::NodeType* n) { Exprs::evaluateRecursive<ExprArgs::FunctionPtrLists>(n); }
	void recursiveEdges(Exprs::NodeType* n) { Exprs::evaluateRecursive<ExprArgs::EdgeLists>(n); }
	bool explicitLists(const List<Exprs::NodeType*>& l) { return Exprs::evaluateExplicit<ExprArgs::FunctionPtrLists>(l); }
	bool explicitEdges(const List<Exprs::NodeType*>& l) { return Exprs::evaluateExplicit<ExprArgs::EdgeLists>(l); }
	void add(List<Exprs::NodeType*>& l, Exprs::NodeType* n) { l.emplace_back(n); }
	void use(const Exprs::NodeType& n) { n.data(); n.inputs(); n.outputs(); }
}
template class spvgentwo::Graph<unsigned, unsigned>;
template class spvgentwo::Node<unsigned, unsigned>;
template class spvgentwo::Graph<spvgentwo::Expression<vp::Rec>>;
template class spvgentwo::Expression<vp::Rec>;
template class spvgentwo::ExprGraph<vp::Rec>;
template class spvgentwo::List<vp::Exprs::NodeType*>;
template class spvgentwo::ControlFlowGraph<>;
template class spvgentwo::Graph<spvgentwo::BasicBlock*>;
template class spvgentwo::Node<spvgentwo::BasicBlock*>;
template class spvgentwo::Graph<spvgentwo::Function*, spvgentwo::Instruction*>;
template class spvgentwo::Node<spvgentwo::Function*, spvgentwo::Instruction*>;
template class spvgentwo::Graph<unsigned, spvgentwo::String>;

// callables and allocators
#include "common/Callable.h"
#include "common/HeapAllocator.h"
#include "common/ExternalMemoryAllocator.h"
namespace vp
{
	// declared only: the analysis records the calls
	unsigned called(const Item& i, unsigned a, unsigned b);
	unsigned called(unsigned w, unsigned a, unsigned b);

	struct Adder
	{
		Item item;
		unsigned operator()(unsigned a, unsigned b) { return called(item, a, b); }
	};
	struct Obj
	{
		unsigned tag;
		unsigned member(unsigned a, unsigned b) { return called(tag, a, b); }
	};
	unsigned freeFn(unsigned a, unsigned b) { return called(100u, a, b); }
	using Call = Callable<unsigned(unsigned, unsigned)>;

	Call ofFunctor(IAllocator* al, const Adder& f) { return Call(al, f); }
	Call ofMoved(IAllocator* al, Adder& f) { return Call(al, stdrep::move(f)); }
	Call ofFree(IAllocator* al) { return Call(al, &freeFn); }
	Call ofMember(IAllocator* al, Obj* o) { return Call(al, o, &Obj::member); }
	Call madeFree(IAllocator* al) { return make_callable(al, &freeFn); }
	Call& assignFunctor(Call& c, const Adder& f) { return c = f; }
	Call& assignMoved(Call& c, Adder& f) { return c = stdrep::move(f); }
	unsigned invokeCall(const Call& c, unsigned a, unsigned b) { return c(a, b); }
	bool isSet(const Call& c) { return c; }

	Item* constructItem(IAllocator* al, unsigned v) { return al->construct<Item>(v); }
	void destructItem(IAllocator* al, Item* i) { al->destruct(i); }
	bool allocated(const ScopedAllocation& a) { return a; }
	struct Wide { char c[24]; };
	void externalOf(Wide(&w)[3]) { ExternalMemoryAllocator e(w); StackAllocator<40> s; }
}
template class spvgentwo::Callable<unsigned(unsigned, unsigned)>;
