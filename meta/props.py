PROPS = []
def P(**k): PROPS.append(k)

P(id='C03', title='Instruction builders emit the named opcode with grammar-conforming operands',
  statement='Every core instruction builder, on every path on which it builds, produces exactly the SPIR-V opcode it is named after, with an operand sequence the SPIR-V grammar accepts for it: result-type and result-id slots where the grammar has them, ids and literals in the right places, no later optional operand while an earlier one is missing. The operands given by the caller each appear exactly once, in grammar order. A builder that refuses its arguments leaves the instruction as it was and returns the error instruction, and one that built returns the instruction itself.',
  over=['inputs', 'programs'], q='all builders, all operand types and null/non-null optional arguments, all masks, lists of any length',
  why='tests build a few dozen instructions with one argument shape each; swapped operands of the same kind or a wrong opcode in the other builders compile and pass',
  files=['lib/source/Instruction.cpp', 'lib/include/spvgentwo/Instruction.h', 'lib/include/spvgentwo/InstructionTemplate.inl'],
  mech=[('op* builders', 'lib/source/Instruction.cpp'), ('makeOp', 'lib/include/spvgentwo/InstructionTemplate.inl')],
  technique='path-sensitive dataflow (abstract interpretation) over the type-resolved AST, operand provenance checked against the SPIR-V grammar',
  note='all paths of all builders, loops followed for up to two elements then widened; the vendored SPIR-V grammar JSON is trusted; runtime legality of operand types is not judged')

P(id='C01', title='Module::write emits every instruction once, in layout order, or fails',
  statement='Module::write emits the five header words (magic, version, generator, id bound, schema) and then every instruction the module owns, in every section, function, block and entry point, exactly once, in the logical layout order of the SPIR-V specification: capabilities, extensions, imports, memory model, entry points, execution modes, debug, annotations, types/constants/globals, function declarations, function definitions. If writing a word or instruction fails, or a block lacks a terminator, nothing more is written and the result is false; otherwise it is true.',
  over=['inputs', 'fault_sequences', 'programs'], q='all modules (every section non-empty, functions with and without body), a failure at every write',
  why='tests write modules that use some of the sections and never make a writer fail; an element skipped or written twice, or a lost failure, shows only for a particular module or fault',
  files=['lib/source/Module.cpp', 'lib/include/spvgentwo/ModuleTemplate.inl', 'lib/source/Function.cpp', 'lib/source/BasicBlock.cpp'],
  mech=[('Module::write', 'lib/source/Module.cpp'), ('iterateModuleInstructions', 'lib/include/spvgentwo/ModuleTemplate.inl')],
  technique='path-sensitive dataflow over a canonical heap shape (generic elements in every container), visit-order and error-propagation rules',
  note='two generic elements per container stand for any number; the container iterators are followed through their real code')

P(id='C02', title='Instruction words and literals follow the SPIR-V physical encoding',
  statement='Instruction::write emits one header word (word count << 16 | opcode, the count including the header) and then each operand word once, in order, failing at the first word that cannot be written; each operand kind writes its own payload (result id, label id, literal value, raw id). Literal strings are laid out low-order byte first, always nul-terminated and zero-padded to whole words, and the string decoders return the same characters and stop exactly behind the word holding the terminator; numeric literals take one or two words, low-order word first. The header decoders invert the header encoder.',
  over=['inputs', 'fault_sequences'], q='all opcodes, operand counts and operand kinds, strings of every length modulo the word size, every literal type, a failure at every word',
  why='an off-by-one in padding or word order only shows for lengths that are a multiple of four, 64-bit literals or operand kinds the samples do not use',
  files=['lib/source/Instruction.cpp', 'lib/source/Operand.cpp', 'lib/include/spvgentwo/Operand.h', 'lib/include/spvgentwo/Spv.h'],
  mech=[('Instruction::write', 'lib/source/Instruction.cpp'), ('appendLiteralsToContainer', 'lib/include/spvgentwo/Operand.h'), ('getLiteralString', 'lib/source/Instruction.cpp')],
  technique='path-sensitive dataflow and constant propagation over canonical operand lists and character sequences of generic non-zero bytes',
  note='string lengths 0..9 cover every residue modulo four twice; operand lists of 0..3 generic operands')

P(id='C08', title='Opcode classification functions agree with the SPIR-V specification',
  statement='For every opcode, the library\'s classification functions give what the SPIR-V specification says: whether it has a result id and a result type, declares a type, is a constant or specialization constant, terminates a block, and which base type and signedness its operands have; for every execution mode the right OpExecutionMode or OpExecutionModeId, for every capability the capabilities it implies, and for every image dimension and format the number of coordinates and channels. Version and generator words are packed and unpacked consistently.',
  over=['inputs'], q='all opcodes, execution modes and capabilities in the specification the library vendors',
  why='the functions are consulted for every instruction built or parsed; tests use a few dozen of more than 700 opcodes',
  files=['lib/include/spvgentwo/Spv.h', 'lib/include/spvgentwo/SpvDefines.h', 'lib/source/Type.cpp'],
  mech=[('HasResultAndType', 'lib/include/spvgentwo/Spv.h'), ('isTerminatorOp / getTypeFromOp / getBaseCapability', 'lib/include/spvgentwo/SpvDefines.h')],
  technique='constant propagation of each classification function over the whole enumeration, compared with the vendored SPIR-V grammar and specification tables',
  note='a short reviewed list (spec/revision_delta.json) accepts the older specification revision the tables were generated from')

P(id='C09', title='The built-in Grammar tables reproduce the SPIR-V and extended-set grammars',
  statement='Grammar answers, for every instruction of the core, GLSL.std.450 and OpenCL.std sets, the name, the operand sequence (kind, quantifier), the capabilities and extensions, and the minimum version the published grammar gives, and for every enumerant of every operand kind its name and parameters; composite operand kinds list their parts, and the enumerators in Spv.h, Glsl450.h and OpenCl.h have the published values. A query for something it does not know returns no entry rather than a wrong one.',
  over=['inputs'], q='all instructions, operand kinds and enumerants, and unknown values',
  why='thousands of table rows, of which the tests touch a handful; printing, parsing, linking and operand validation read the same tables',
  files=['lib/source/Grammar.cpp', 'lib/include/spvgentwo/Grammar.h'],
  mech=[('Grammar table initialisers', 'lib/source/Grammar.cpp'), ('Grammar::getInstruction / getInfo', 'lib/source/Grammar.cpp')],
  technique='abstract interpretation of the table-building code; the resulting tables compared row by row with the vendored grammar JSON; lookup functions by path-sensitive dataflow',
  note='a short reviewed list (spec/revision_delta.json) accepts the older grammar revision the tables were generated from')

P(id='C15', title='Result ids are unique, dense and resolve to their defining instruction',
  statement='assignIDs gives every instruction that has a result (labels and parameters included) a distinct id, 1 up to the number of results, stores the next one as the id bound, and changes no other operand. After parsing, resolving ids replaces every id operand by the instruction (or block or entry point) that defines that id and fails if none does; use collection and replacement see every operand that refers to an instruction.',
  over=['inputs', 'programs'], q='all modules (generic elements in every container), all opcodes with and without result, all operand kinds',
  why='an instruction skipped in one section gets id 0 or a stale id; tests contain only some of the sections',
  files=['lib/source/Module.cpp', 'lib/include/spvgentwo/ModuleTemplate.inl', 'lib/source/Instruction.cpp'],
  mech=[('Module::assignIDs', 'lib/source/Module.cpp'), ('Module::resolveIDs', 'lib/source/Module.cpp'), ('Module::collectUses', 'lib/source/Module.cpp')],
  technique='path-sensitive dataflow over a canonical heap shape with a must-be-assigned-once typestate per instruction',
  note='hash maps keyed by id are modelled by their key equality; two generic elements stand for any number')

P(id='C13', title='Builders check operand types and infer the result type SPIR-V requires',
  statement='A core instruction builder that derives or validates types gives the instruction it builds the result type the SPIR-V specification requires for those operand types, and refuses operand types for which the specification allows no such instruction (wrong base type or signedness, mismatched vector lengths, wrong matrix shape, a base that is not a pointer, an index that selects nothing, an image coordinate of the wrong type or length). It does not refuse operand types the specification allows, and never dereferences a missing type.',
  over=['inputs'], q='all type-checking builders, all combinations of operand types from a domain covering every kind of SPIR-V type',
  why='tests build with one or two well-typed operand combinations; a wrong condition only shows for another type combination',
  files=['lib/source/Instruction.cpp', 'lib/include/spvgentwo/InstructionTemplate.inl', 'lib/source/Type.cpp', 'lib/source/TypeInferenceAndValiation.cpp'],
  mech=[('op* builders', 'lib/source/Instruction.cpp'), ('DefaultTypeInference', 'lib/source/TypeInferenceAndValiation.cpp'), ('Type predicates', 'lib/source/Type.cpp')],
  technique='abstract interpretation of every builder over a finite domain of SPIR-V types, result type and acceptance compared with typing rules written from the specification',
  note='the type domain holds representatives of every type kind (widths, signs, vector lengths, image dimensions), not all types; quick uses a smaller domain than thorough')

P(id='C23', title='Type-directed operations build the opcode the operand types call for',
  statement='Add, Sub, Mul, Div, Not and the comparisons of Instruction and BasicBlock, and the C++ operators on blocks, build exactly the opcode that fits the operand types: integer, float or logical; unsigned opcodes when both operands are unsigned and signed ones otherwise; the right product of vectors, matrices and scalars, vector or matrix first; a vector divided by a scalar as a product with the reciprocal. Left and right operand keep their roles, the one-operand forms take the last instruction of the block as left operand, and for operand types without such an operation nothing is built.',
  over=['inputs'], q='all operations and operators, all pairs of operand types from a domain covering every kind of SPIR-V type',
  why='each operation dispatches over dozens of type combinations; tests use scalars of one type for a few operators',
  files=['lib/source/Instruction.cpp', 'lib/include/spvgentwo/Instruction.h', 'lib/include/spvgentwo/BasicBlock.h', 'lib/source/Operators.cpp'],
  mech=[('Instruction::Mul / Div / Not / intFloatOp', 'lib/source/Instruction.cpp'), ('BasicBlock::Add ...', 'lib/include/spvgentwo/BasicBlock.h'), ('ops::operator+ ...', 'lib/source/Operators.cpp')],
  technique='abstract interpretation of every operation over a finite domain of SPIR-V types, built opcode and operand provenance compared with a dispatch table written from the documentation',
  note='the type domain holds representatives of every type kind; division of a half vector by a half scalar may be refused')

P(id='C21', title='Reflection and Vulkan interop answer what the module declares',
  statement='ReflectionHelper returns exactly the instructions, decorations, names, literals, global variables and local sizes the module declares for the target, decoration, value or storage class asked for, GrammarHelper returns the operand the grammar gives that kind or name, and what is absent, unfinished or malformed is reported by the documented failure value and never dereferenced. getShaderStageFromExecutionModel and getDescriptorTypeFromVariable give the Vulkan stage bit and descriptor type of every execution model and variable (arrays of descriptors as their element, image and sampler at the same set and binding as combined, BufferBlock and StorageBuffer as storage buffer), and the reflector knows decorations and execution models by their names in the specification.',
  over=['programs', 'inputs'], q='every decoration, value and target of a module with all kinds of decorations, every storage class and execution model, images of every dimension and sampled state alone, in arrays and beside another variable at the same or another binding, unfinished instructions in the name and decoration sections',
  why='no test calls the reflection helpers or the Vulkan interop on more than one module; applications derive pipeline layouts from these answers',
  files=['common/source/ReflectionHelper.cpp', 'common/include/common/ReflectionHelperTemplate.inl', 'common/source/VulkanInterop.cpp', 'common/source/GrammarHelper.cpp', 'refl/source/refl.cpp'],
  mech=[('ReflectionHelper', 'common/source/ReflectionHelper.cpp'), ('getDecorationsFunc, getNamesFunc, getInstructionsWithDecoration', 'common/include/common/ReflectionHelperTemplate.inl'), ('getDescriptorTypeFromVariable', 'common/source/VulkanInterop.cpp'), ('getOperandByName', 'common/source/GrammarHelper.cpp')],
  technique='constant propagation over the resolved program: modules are taken in through the project\'s own reader and the helpers followed over them; answers compared with the declarations of the module text, enumerant tables of the tool with the vendored specification grammar',
  note='a literal asked for of an OpMemberDecorate may be answered or refused; buffer images inside sampled images may be texel buffers or combined')

P(id='C22', title='If and Loop build well-formed structured control flow',
  statement='BasicBlock::If and BasicBlock::Loop, for blocks or callbacks that leave their block empty, unterminated or terminated by any terminator, end the header block with the merge instruction (merge block, continue target, control mask) directly followed by the branch to the regions or the condition, the condition branching to the body or the merge block. A region that is not terminated yet gets exactly one branch to its target (merge block, continue target, back to the header) and a terminated one stays as it is (an empty block given to If may be left for the caller to fill); exactly the new blocks are added to the function, a header before the blocks it dominates, and the still empty merge block, the given one if there is one, is returned.',
  over=['inputs', 'programs'], q='all overloads, with and without a given merge block, all terminators a region can end with',
  why='tests build regions that fall through to the merge block; a missing or doubled terminator shows only for callbacks that return, discard or branch themselves, or add nothing',
  files=['lib/source/BasicBlock.cpp', 'lib/include/spvgentwo/BasicBlockTemplate.inl', 'lib/include/spvgentwo/BasicBlock.h'],
  mech=[('BasicBlock::If / Loop for given blocks', 'lib/source/BasicBlock.cpp'), ('BasicBlock::If / Loop for callbacks', 'lib/include/spvgentwo/BasicBlockTemplate.inl')],
  technique='path-sensitive dataflow over canonical functions and block contents, callbacks modelled as arbitrary additions to the block they are given, block contents afterwards compared with the required structure',
  note='callbacks are represented by what they can leave in their block: nothing, one instruction, any terminator, both; nesting follows because each helper only touches the blocks named here')

P(id='C27', title='Functions, entry points and their interfaces are assembled as declared',
  statement='However a Function or EntryPoint is declared (constructor with signature, or setReturnType, addParameters, setFunctionType and finalize), its function type is the declared return and parameter types in order, it has one OpFunctionParameter per parameter, and OpFunction, OpEntryPoint and execution modes carry the declared types, control, execution model and name, which the getters return; isFinalized, getParameter and returnValue agree with that signature. The interface of an entry point is every variable, of the storage classes the SPIR-V version calls for, that the function or any function it calls directly or indirectly refers to, each once, replacing the previous interface; function variables go to the front of the entry block, and getTerminator, getBranchTargets and BasicBlock::remove give exactly the terminator, its target blocks in order, and that one instruction.',
  over=['inputs', 'programs'], q='all ways to declare a signature, all storage classes and versions, call graphs with nesting and recursion, all block contents',
  why='tests declare a few functions and one entry point each; a variable missing from an interface or a swapped type appears only for particular call graphs or signatures',
  files=['lib/source/Function.cpp', 'lib/source/EntryPoint.cpp', 'lib/include/spvgentwo/FunctionTemplate.inl', 'lib/include/spvgentwo/EntryPointTemplate.inl', 'lib/source/BasicBlock.cpp'],
  mech=[('Function::finalize / addParameters / variable', 'lib/source/Function.cpp'), ('collectReferencedVariables', 'lib/source/Function.cpp'), ('EntryPoint::finalize / finalizeGlobalInterface', 'lib/source/EntryPoint.cpp')],
  technique='abstract interpretation of the declaring calls over canonical heap shapes, resulting type, instructions and interface compared with the declaration',
  note='signatures of up to three parameters, two-level recursive call graphs; the heap shapes are canonical, not all heaps')

P(id='C28', title='Graphs mirror what was connected, called and branched to, and evaluate in order',
  statement='After any history of emplacing, connecting, disconnecting and erasing nodes a Graph holds exactly the nodes left, each connection is one edge with its data in the outputs of one node and the inputs of the other, in the order made, erasing a node removes its edges at every neighbour, and moved graphs and nodes keep their contents. ControlFlowGraph has one node per block and one edge per target of its terminator, FunctionCallGraph one node per function reached and one edge per OpFunctionCall (recursion included), and ExprGraph evaluation calls every function not yet evaluated that the exit node depends on exactly once, after its inputs, with its inputs and outputs in order, until it is reset; an explicit order runs as given and fails at a repeat.',
  over=['histories', 'programs'], q='all histories of graph operations, all control flow and call graphs, all acyclic expression graphs and evaluation orders',
  why='the tests build one control flow graph and one expression graph; parallel edges, self loops, recursion, unreachable blocks and repeated evaluation never occur',
  files=['common/include/common/Graph.h', 'common/include/common/Node.h', 'common/include/common/ControlFlowGraph.h', 'common/source/FunctionCallGraph.cpp', 'common/include/common/ExprGraph.h', 'common/include/common/Expression.h'],
  mech=[('Graph / Node', 'common/include/common/Graph.h'), ('ControlFlowGraph', 'common/include/common/ControlFlowGraph.h'), ('FunctionCallGraph', 'common/source/FunctionCallGraph.cpp'), ('ExprGraph::evaluateRecursive', 'common/include/common/ExprGraph.h')],
  technique='abstract interpretation of graph operations over all short histories and of the graph builders over functions read by the parser, resulting nodes and edges compared with a model',
  note='histories of up to three connections and two removals among three nodes, 19 control flow and 12 call graphs, all acyclic expression graphs of four nodes')

P(id='C25', title='Allocators hand out memory that fits, owners give it back exactly once',
  statement='ExternalMemoryAllocator and StackAllocator return null or memory that is aligned as asked, lies inside the given buffer and overlaps no live allocation; a request fails exactly when it does not fit behind the last allocation, a failed request changes nothing, deallocating the last allocation makes its room available again and any other deallocation has no effect, and HeapAllocator gives new memory of the requested size. ScopedAllocation, construct/destruct and Callable give memory back exactly once with the size it was allocated with, also after moves, failures, reset and assignments from and to empty or the same object, and a Callable calls exactly the functor, function or member function it was last given, owning its own copy, with the arguments in order and returning its result.',
  over=['histories', 'inputs'], q='all histories of allocations, deallocations, copies, moves and assignments, all alignments, sizes and buffer positions',
  why='the tests use the heap allocator only and never run out of memory; alignment, exhaustion and ownership faults show only for particular addresses and sequences',
  files=['common/source/ExternalMemoryAllocator.cpp', 'common/include/common/ExternalMemoryAllocator.h', 'common/source/HeapAllocator.cpp', 'lib/include/spvgentwo/Allocator.h', 'lib/source/Allocator.cpp', 'common/include/common/Callable.h'],
  mech=[('ExternalMemoryAllocator::allocate', 'common/source/ExternalMemoryAllocator.cpp'), ('IAllocator::alignPowerOf2 / ScopedAllocation', 'lib/include/spvgentwo/Allocator.h'), ('Callable', 'common/include/common/Callable.h')],
  technique='abstract interpretation of all short allocation histories on a grid of addresses, capacities, alignments and sizes; typestate of storage and functors through every operation of Callable and ScopedAllocation',
  note='histories of three operations on 20 buffers; the grid stands for all addresses only as far as address arithmetic is uniform')

P(id='C26', title='Moved and reset modules, functions, blocks and instructions stay consistent',
  statement='A Module moved by constructor or assignment, into a new, empty or filled one, holds the same instructions at the same addresses in the same order, the same header fields, services, type, constant and name lookups, writes the same words, every instruction, block and function names its new owners (getBasicBlock, getFunction, getModule), and nothing stays in the source; likewise for moved functions (with parameters and type), the instructions of moved blocks, and single instructions, which keep their own parent when assigned to, and self assignment changes nothing. Module::reset leaves every container empty and the rest as in a new module, so that what is read next equals what a new module reads, and copied, moved or assigned operands have the kind and value of their source whatever they held, comparing equal exactly when kind and value agree.',
  over=['histories', 'programs'], q='all contents of source and target, all kinds of owners, operands and earlier contents',
  why='the tests never move a module with functions, never reset one and never assign over contents; a forgotten member or stale parent pointer shows only when it is used much later',
  files=['lib/source/Module.cpp', 'lib/source/Function.cpp', 'lib/source/BasicBlock.cpp', 'lib/source/Instruction.cpp', 'lib/source/Operand.cpp'],
  mech=[('Module::Module(Module&&) / operator= / updateParentPointers / reset', 'lib/source/Module.cpp'), ('Function(Module*, Function&&) / operator=', 'lib/source/Function.cpp'), ('BasicBlock::operator=', 'lib/source/BasicBlock.cpp'), ('Instruction::operator=', 'lib/source/Instruction.cpp'), ('Operand', 'lib/source/Operand.cpp')],
  technique='abstract interpretation of the special member functions and reset on modules built by the parser; the observable state before and after is compared element by element',
  note='three modules covering every section and function shape, 24 module moves, 44 function moves, 32 block moves, 88 instruction moves, all operand kinds; label identity of moved blocks is not claimed')

P(id='C30', title='Queries change nothing and modules share nothing',
  statement='A const member function leaves its object and everything reachable from it unchanged, and a function that is given an object of the library only by reference or pointer to const leaves that object and everything reachable from it unchanged, except the few whose purpose it is to add what is asked for: Function::getFunctionTypeInstr, getReturnTypeInstr and inferResultType add missing types, Module::remove removes what it is given, the linker helpers write decorations and the consumer module. No function keeps state outside the objects it is given: what lives in static storage is constant or has no data (the shared heap allocator and its byte counters aside), so modules can be used by one thread each and queries of one module can run at the same time.',
  over=['schedules', 'histories'], q='all schedules of threads that use a module each or only query a common one, all orders and repetitions of queries between the calls that build a module',
  why='lists hand out non-const iterators and instructions non-const parents even from const objects, so the compiler lets a query write; a query that does, or a static buffer, shows only when two threads meet or when a query was made at the wrong time',
  files=['lib/include/spvgentwo/List.h', 'lib/source/Module.cpp', 'lib/source/Instruction.cpp', 'lib/source/Function.cpp', 'lib/source/BasicBlock.cpp', 'lib/source/Type.cpp', 'common/source/ModulePrinter.cpp', 'common/source/HeapAllocator.cpp'],
  mech=[('Module, Function, BasicBlock, Instruction, Type and Constant const members', 'lib/include/spvgentwo/Module.h'), ('ModulePrinter', 'common/source/ModulePrinter.cpp'), ('HeapAllocator::instance, sg_DefaultTypeInference', 'common/source/HeapAllocator.cpp')],
  technique='interprocedural write-effect analysis: for every function the set of objects it may store to, relative to its object, its parameters and what these lead to, closed over the call graph; static storage checked for data',
  note='objects are told apart by where they come from, not by history; calls through values (hash and equality functors, user callbacks) and what allocators, loggers, readers and writers do are not followed; a container of pointers to non-const promises nothing about what they lead to; LinkerHelper.cpp is only judged for static storage')

P(id='C32', title='Build options and logging change nothing but the messages',
  statement='In every combination of the build options SPVGENTWO_LOGGING, SPVGENTWO_ENABLE_OPERANDVALIDATION, SPVGENTWO_REPLACE_PLACEMENTNEW and SPVGENTWO_REPLACE_TRAITS the library and its tools compile without warnings and every function does the same, except that without logging no message reaches the logger and without operand validation validateOperands answers true. The log functions of Module return their condition unchanged in every build and, with logging compiled in, hand their level, format and arguments to the logger exactly when the condition is false (or there is none) and a logger is set; a logger calls its callback exactly for the levels its filter lets pass, and the console logger prints the name of that level and the text, once, as one line.',
  over=['configurations', 'inputs'], q='all combinations of the build options, all functions, all log functions with any condition, level, filter and logger',
  why='the tests run in one configuration; a statement that disappears with the logging, or a trait that answers otherwise than the standard one, shows only in a build nobody tests',
  files=['lib/include/spvgentwo/ModuleTemplate.inl', 'lib/include/spvgentwo/Module.h', 'lib/include/spvgentwo/Logger.h', 'lib/include/spvgentwo/stdreplacement.h', 'lib/source/Instruction.cpp', 'CMakeLists.txt'],
  mech=[('Module::log', 'lib/include/spvgentwo/ModuleTemplate.inl'), ('ILogger::log', 'lib/include/spvgentwo/Logger.h'), ('stdrep', 'lib/include/spvgentwo/stdreplacement.h'), ('Instruction::validateOperands', 'lib/source/Instruction.cpp')],
  technique='front-end compilation of every translation unit under the project warning flags in each configuration, and comparison of the typed syntax trees of all functions between configurations; abstract interpretation of the log functions',
  note='the tools and libraries as instantiated in the repository and in inst/inst.cpp; SPVGENTWO_DEBUG_HEAP_ALLOC needs the MSVC runtime and is not built; compilers other than clang are not asked')

P(id='C31', title='The same calls give the same output',
  statement='What the library writes, prints and answers depends only on the calls made and their arguments: nothing is produced in the order of addresses or of their hashes, no address becomes a number in the output, the hash of a type, constant or string depends on its contents only, every member and variable is given a value before it is read, and nothing is asked of the clock, the environment, the locale or a random source.',
  over=['inputs', 'histories', 'configurations'], q='all programs that use the library, all placements of its objects in memory, all contents of fresh memory',
  why='a single run cannot show that another run of the same program, with its objects at other addresses, writes another module; builds that compare or cache modules depend on it',
  files=['lib/include/spvgentwo/HashMap.h', 'lib/include/spvgentwo/FNV1aHasher.h', 'lib/source/Module.cpp', 'common/source/LinkerHelper.cpp', 'common/include/common/Graph.h', 'lib/include/spvgentwo/Entry.h'],
  mech=[('HashMap iteration', 'lib/include/spvgentwo/HashMap.h'), ('LinkerHelper::import', 'common/source/LinkerHelper.cpp'), ('iterateModuleInstructions', 'lib/include/spvgentwo/ModuleTemplate.inl'), ('Hasher specialisations', 'lib/include/spvgentwo/Type.h')],
  technique='source queries over the resolved program: iteration over maps keyed by address, order comparisons and integer conversions of addresses, addresses in hashers, definite assignment of variables, initialisation of members by every constructor, calls that leave the library',
  note='what user code passes in (callbacks, allocators, readers) is assumed to be deterministic; elements of raw memory are covered by the container properties, not here')

P(id='C10', title='Containers keep their elements, order, links and storage in step',
  statement='After every operation of List, Vector, String and HashMap the container is intact: it holds exactly the elements the operation promises in the order it promises, forward and backward links, first, last and element count agree, every stored hash is in its bucket with equal hashes next to each other, a string with characters is terminated once, and the result returned denotes the element or position the operation names. Each element is constructed and destroyed exactly once, only live elements are read or assigned, storage is given back exactly once with the size it was allocated with and never used afterwards, copies share nothing with their source, moved-from containers are empty and answer every question as empty ones, as does a map that got no storage, and a failed allocation leaves the contents as they were.',
  over=['inputs', 'histories'], q='all operations, element positions, capacities, colliding and equal hashes',
  why='the library only uses a few of the operations in a few shapes; a wrong link, double destruction or missing element shows only for particular positions, capacities and collisions',
  files=['lib/include/spvgentwo/List.h', 'lib/include/spvgentwo/Entry.h', 'lib/include/spvgentwo/Vector.h', 'lib/include/spvgentwo/HashMap.h', 'lib/include/spvgentwo/String.h', 'lib/source/String.cpp'],
  mech=[('List / Entry', 'lib/include/spvgentwo/List.h'), ('Vector', 'lib/include/spvgentwo/Vector.h'), ('HashMap', 'lib/include/spvgentwo/HashMap.h'), ('String', 'lib/source/String.cpp')],
  technique='shape analysis by abstract interpretation over canonical heap shapes, with the typestate (raw, alive, moved from) of every storage location and the size of every allocation tracked',
  note='shapes of up to three elements stand for all (the containers branch on elements only by comparing them and their loops treat each element alike); allocation failure is judged for the operations that report it')

P(id='C05', title='A module read and written again is the same module',
  statement='For every module readAndInit accepts, Module::write gives back the header values and every instruction word for word in its section, its function and its block, in the order it was read; types, constants and functions are still placed before what uses them, and after assignIDs the module differs by one renaming of ids only, covered by the new bound. An instruction or module the library cannot represent is refused with false and never dropped, moved to another section or altered.',
  over=['programs', 'inputs'], q='every instruction of the grammar in a function body in every operand shape, one instruction at every place of a module, and modules with all sections, declarations, shared entry points, loops, switches, recursive names and every type and constant',
  why='the tests read and print four modules and compare no word; every tool that patches or links a module relies on the rest coming out unchanged',
  files=['lib/source/Module.cpp', 'lib/source/Instruction.cpp', 'lib/source/Function.cpp', 'lib/source/BasicBlock.cpp', 'lib/include/spvgentwo/ModuleTemplate.inl', 'lib/source/Operand.cpp'],
  mech=[('Module::read, resolveIDs, reconstructTypeAndConstantInfo, write, assignIDs', 'lib/source/Module.cpp'), ('Instruction::readOperands, write', 'lib/source/Instruction.cpp'), ('iterateModuleInstructions', 'lib/include/spvgentwo/ModuleTemplate.inl')],
  technique='constant propagation over the resolved program: words assembled with the vendored grammar are followed through the reader into the module and through the writer out again; output compared with the input instruction by instruction, ids by a bijection',
  note='capabilities, extensions and imports are sets; OpLine/OpNoLine, OpUndef and OpVariable at module scope keep their order among themselves only; a repeated import of one set, OpSpecConstantOp, opaque and forward declared types may be refused')

P(id='C06', title='Reading accepts exactly well-formed instruction streams and stays inside them',
  statement='Reading an instruction consumes exactly the words its header declares and never any beyond them, whatever they are, and succeeds exactly when they match the operand list the grammar gives for the operation (including strings, optional and repeated operands, enumerant and mask parameters, the operation inside OpSpecConstantOp), keeping every word in order as an operand of the kind the grammar gives it. Module::read reports failure for a wrong magic number, a zero word count, an unknown operation, a stream ending inside an instruction, block or function, and every failure below it; otherwise every instruction is kept exactly once in the section, entry point, function and block it belongs to.',
  over=['inputs'], q='all operations, operand shapes, enumerants and masks with parameters, string lengths, declared word counts and stream ends',
  why='tests read a few binaries the library wrote itself; a reader that runs past an instruction or accepts a truncated one shows only on damaged or foreign binaries',
  files=['lib/source/Instruction.cpp', 'lib/source/Module.cpp', 'lib/source/Function.cpp', 'lib/source/BasicBlock.cpp'],
  mech=[('Instruction::readOperands', 'lib/source/Instruction.cpp'), ('Module::read', 'lib/source/Module.cpp'), ('Function::read', 'lib/source/Function.cpp'), ('BasicBlock::read', 'lib/source/BasicBlock.cpp')],
  technique='path-sensitive dataflow over word streams whose shape is taken from the specification grammar (all operand shapes, unconstrained words), consumed words, kept operands and result compared with the grammar; callees by contract above the instruction level',
  note='repeated operands are followed up to two times; semantic validity of the operands (types, bounds of ids) is not part of it')

P(id='C07', title='Types and constants survive the way into instructions and back',
  statement='Module::addType, type<T>, compositeType, addConstant and constant<T> leave in the module exactly the instructions that denote the given type or constant (opcode, operands in specification order, literal words with the value, constituents and array lengths defined before their use), answer an equal type or non-specialization constant with the same instruction and create a new one for every specialization constant. getTypeInfo, getConstantInfo and reconstructTypeAndConstantInfo give for each such instruction a Type or Constant equal to the one it was made from, also for functions, entry points and hand-written instructions, and report what they cannot represent instead of dereferencing null.',
  over=['inputs'], q='all kinds of types and constants the library can represent (over 180 representative types), all C++ types with a SPIR-V counterpart',
  why='tests build a few types; a lost attribute (access qualifier, array flag, sign, length) only shows for a type that differs from the default there',
  files=['lib/source/Module.cpp', 'lib/include/spvgentwo/ModuleTemplate.inl', 'lib/source/Constant.cpp', 'lib/include/spvgentwo/Constant.h', 'lib/include/spvgentwo/Type.h', 'lib/include/spvgentwo/TypeAlias.h'],
  mech=[('Module::addType / addConstant', 'lib/source/Module.cpp'), ('Module::reconstructTypeAndConstantInfo', 'lib/source/Module.cpp'), ('Constant::make', 'lib/include/spvgentwo/Constant.h'), ('Type::make', 'lib/include/spvgentwo/Type.h')],
  technique='constant propagation of every type and constant of a finite domain through the module code, resulting instructions decoded by the operand layouts of the specification grammar and compared with the term they were made from',
  note='the domain holds representatives of every type kind and attribute value, not all types; opaque types and specialization-constant operations are out, the library cannot represent them; the lookup maps are dictionaries here (hashing is C12, the map C10)')

P(id='C12', title='Types and constants are told apart exactly by what they are',
  statement='Two Types compare equal exactly when their opcode, attributes and subtypes are the same; the hash of a Type or Constant, by which the module looks it up, depends on nothing else and differs for different types and constants, however they are nested; FNV1aHasher is FNV-1a over exactly the bytes it is given. The type predicates, queries and getString answer what their names and arguments say, setters, makers, fromImageFormat and wrappers leave exactly the type asked for whatever was there before, getSubType finds the subtype the indices name or none, and copies and moves are equal to their source.',
  over=['inputs'], q='all pairs and hashes of over 200 representative types and 100 constants, all predicates with all kinds of arguments',
  why='a type attribute missing from equality or hash, or a predicate wrong for one width or sign, only shows for two types that differ just there',
  files=['lib/include/spvgentwo/Type.h', 'lib/source/Type.cpp', 'lib/include/spvgentwo/Constant.h', 'lib/source/Constant.cpp', 'lib/include/spvgentwo/FNV1aHasher.h'],
  mech=[('Type::operator==', 'lib/source/Type.cpp'), ('Hasher<Type> / Hasher<Constant>', 'lib/include/spvgentwo/Type.h'), ('Type predicates', 'lib/include/spvgentwo/Type.h'), ('FNV1aHasher', 'lib/include/spvgentwo/FNV1aHasher.h')],
  technique='constant propagation of every type, pair of types and constant of a finite domain through the equality, hash, predicate and modifier code, results compared with the terms',
  note='distinct hashes are shown for the domain only; that a 64-bit hash separates all types is not decidable this way (nor true). hasSign(Unsigned) on a base that is no integer is left open')

P(id='C04', title='GLSL.std.450 builders emit the entry point they name with its prescribed types',
  statement='For every combination of operand types each builder of the GLSL.std.450 instruction set either emits an OpExtInst naming the import of GLSL.std.450, the number of the entry point it is called after, the operands in the order given and the result type the entry point prescribes, or, when the operand types are not allowed (or an operand has no known type), reports an error and emits nothing. Allowed operand types (scalars and vectors, all widths the entry point supports) are built.',
  over=['inputs'], q='all builders of the set, all combinations of representative operand types',
  why='tests call each builder once with one type; a wrong number, swapped operand or wrong result type produces modules that only validators or drivers reject',
  files=['lib/include/spvgentwo/GLSL450Instruction.h', 'lib/source/GLSL450Instruction.cpp', 'lib/include/spvgentwo/Glsl.h', 'lib/include/spvgentwo/InstructionTemplate.inl'],
  mech=[('GLSL450Intruction builders', 'lib/include/spvgentwo/GLSL450Instruction.h'), ('scalarOrFloatVec / scalarOrIntVec / packNorm / interpolate', 'lib/source/GLSL450Instruction.cpp'), ('Instruction::opExtInst', 'lib/include/spvgentwo/InstructionTemplate.inl')],
  technique='constant propagation of all operand type combinations of a finite type domain through the builders, emitted instruction compared with the grammar of the extended instruction set and its typing rules',
  note='where the specification leaves a choice (signedness the builder asks for, width of FindSMsb, type of eta) refusing and building are both accepted; the operand values are not looked at')

P(id='C20', title='Capabilities, extensions, imports and version are declared as needed, once',
  statement='addCapability leaves the capability declared exactly once, with every capability it implies when asked for dependent ones, and checkCapability and removeCapability agree with what is declared; addExtension and addExtensionInstructionImport declare every name exactly once and an import is found by its name only. After assignIDs, finalize, addRequiredCapabilities, addRequiredExtensions and setRequiredVersion everything the grammar requires for an instruction in any section or function of the module (capabilities, extensions, at least that version) is declared, what was declared before stays so, and ensureSpvVersion never lowers the version.',
  over=['inputs', 'histories'], q='all capabilities with several prior declarations, all extensions, every module section holding an instruction with requirements of its own',
  why='tests declare a few capabilities; a lost implied capability or a section that is not scanned only shows in a module that needs it, when a driver rejects it',
  files=['lib/source/Module.cpp', 'lib/include/spvgentwo/Module.h', 'lib/include/spvgentwo/ModuleTemplate.inl', 'lib/include/spvgentwo/Spv.h', 'lib/include/spvgentwo/HashMap.h'],
  mech=[('Module::addCapability / checkCapability / removeCapability', 'lib/source/Module.cpp'), ('Module::assignIDs', 'lib/source/Module.cpp'), ('Module::addRequired*', 'lib/source/Module.cpp'), ('getBaseCapability', 'lib/include/spvgentwo/Spv.h')],
  technique='constant propagation of the declaring methods, hash map and string code included, over modules their own constructors build, for every capability and extension and a grammar table placed by the check; declared state compared with the closure of the specification',
  note='the grammar answers from a table of the check (that the library grammar matches the specification is C09); requirements of operands other than the opcode are not looked at by the library and out of scope')

P(id='C29', title='Names and variables are recorded for what they are given to',
  statement='After any sequence of addName and addMemberName calls on instructions that can be named the name section holds exactly those OpName and OpMemberName instructions; getName, getNames and getInstructionByName answer what the section says, and reconstructNames builds the same lookups from a name section, refusing exactly the entries that name nothing. Every method that takes a name (types, constants, module and function variables of every storage class helper, blocks) records it for the instruction it gives, variables have the storage class, pointer type and initializer asked for, and compareLiteralString is true exactly when the operands spell the string.',
  over=['inputs', 'histories'], q='sequences of names over several targets and members, names of every length modulo the word size, all methods that take a name, malformed name entries at every position',
  why='names and storage classes are not checked by any validator: a name attached to the wrong member or a variable helper with the wrong storage class only shows in a consumer of that module',
  files=['lib/source/Module.cpp', 'lib/include/spvgentwo/Module.h', 'lib/include/spvgentwo/ModuleTemplate.inl', 'lib/source/Function.cpp', 'lib/source/BasicBlock.cpp', 'lib/source/Instruction.cpp'],
  mech=[('Module::addName / addMemberName / getName / getNames', 'lib/source/Module.cpp'), ('Module::reconstructNames', 'lib/source/Module.cpp'), ('Module::variable and its storage class helpers', 'lib/include/spvgentwo/Module.h'), ('compareLiteralString', 'lib/source/Instruction.cpp')],
  technique='constant propagation of naming histories through the module code (strings, operands, hash map included) over modules their own constructors build; name section, lookups and variables compared with what was asked for',
  note='an empty name may be reported as no name; when a target has several names any of them may be answered; naming an instruction that has no result is a reported error whose leftovers are not looked at; a type or constant that already exists is not renamed')

P(id='C24', title='Words reach files and vectors completely and every loss is reported',
  statement='BinaryFileReader gives exactly the words of the requested part of the file, in order, and is empty when that part does not exist, is not made of whole words or cannot be read; BinaryFileWriter and BinaryVectorWriter write every word put to them once and in order, report lost words through put, open or close, and files are opened in binary mode and closed exactly once on every path. When the writer given to Module::write, Function::write, BasicBlock::write or Instruction::write refuses a word the method returns false and puts no further word, and an operand that refers to nothing cannot be written.',
  over=['inputs', 'fault_sequences'], q='file sizes, offsets and lengths around every boundary, each file or allocation call failing in turn, any number of words put before or after opening, the writer refusing each word of a module that uses every section',
  why='the tests read and write a few complete files on a disk that never fails; a word lost to a full disk or a truncated file gives a module that is silently cut',
  files=['common/source/BinaryFileReader.cpp', 'common/source/BinaryFileWriter.cpp', 'common/include/common/BinaryVectorWriter.h', 'lib/source/Module.cpp', 'lib/include/spvgentwo/ModuleTemplate.inl', 'lib/source/Function.cpp', 'lib/source/BasicBlock.cpp', 'lib/source/Instruction.cpp', 'lib/source/Operand.cpp'],
  mech=[('BinaryFileReader::read / get', 'common/source/BinaryFileReader.cpp'), ('BinaryFileWriter::open / put / close', 'common/source/BinaryFileWriter.cpp'), ('BinaryVectorWriter::put', 'common/include/common/BinaryVectorWriter.h'), ('Module::write, Function::write, BasicBlock::write', 'lib/source/Module.cpp'), ('Operand::write', 'lib/source/Operand.cpp')],
  technique='resource typestate and error-propagation analysis: the readers and writers are followed over a model of the C file functions in which every call fails in turn, the write methods over a writer that refuses each word in turn',
  note='files up to a few words (the reading code has no case that depends on more); fread and fwrite are taken to move whole words; destructors of guard objects run when their function is left')

P(id='C19', title='The tools exit with success exactly when they did what was asked',
  statement='SpvGenTwoDisassembler, SpvGenTwoLinker and SpvGenTwoReflector exit with 0 only if every file named was read and parsed, every import, export, variable or id named was found and could be processed, and all output was completely written; otherwise they exit with a non-zero status and no output file is opened or written after the failure. Every option has the effect the documentation gives it (linker option bits, printing options, libraries imported in order into the consumer, output to -out or else in place; the reflector lists the functions, variables, types, decorations, local size or selected instruction it is asked for and no others), whatever the order of the arguments and the case of linker options.',
  over=['inputs', 'fault_sequences', 'configurations'], q='command lines made of every option, all pairs of disassembler options, all orders of the linker inputs, missing trailing arguments, and for each of them every file, parsing, linking, printing and writing step failing in turn',
  why='no test runs the tools; a build that uses the linker only sees the exit status, so a library that failed to load or an output that was cut passes unnoticed',
  files=['dis/source/dis.cpp', 'link/source/link.cpp', 'refl/source/refl.cpp', 'LINKER.md', 'common/include/common/LinkerHelper.h'],
  mech=[('main, patch, link, addTarget', 'link/source/link.cpp'), ('main', 'dis/source/dis.cpp'), ('main', 'refl/source/refl.cpp')],
  technique='error-propagation analysis over the resolved program: main is followed for given argument vectors with files, parser, printer, linker and writer replaced by contracts that fail in turn; exit status and sequence of effects compared with the meaning of the options',
  note='a parameter the linker does not know is only warned about and ignored (as its authors chose); what the printer and the linker library do is judged by other properties; the modules that are patched have a variable, a constant, functions with and without body and an entry point')

P(id='C17', title='Linking turns imports into their definitions and changes nothing else',
  statement='When LinkerHelper::import succeeds every symbol the consumer imports and the library exports is defined in the consumer as in the library, operand by operand, with the types, constants, variables, functions, strings and instruction sets it refers to present exactly once, result ids unique and everything else of both modules unchanged; import decorations, names, decorations, Linkage capability, capabilities, extensions, version and entry point interfaces follow the options, each of which is independent of the others, and a symbol of another kind or type, or one whose contents may not be imported, makes import fail with the symbol still declared as imported. addLinkageDecoration, getLinkageTypeFromDecoration, addLinkageDecorateForUsedGlobalVariables and removeFunctionBody write, read and remove exactly the instructions they are documented to.',
  over=['programs', 'configurations'], q='library and consumer modules with every kind of referenced instruction (nested types, constants, specialization constants, variables with initializers, called functions, phi, lines, extended sets, names, decorations), several symbols and libraries, every option left out in turn, mixed versions',
  why='the tests link two modules with one option set and look at the result; a reference to the wrong instruction or a dropped decoration in another shape of library gives a module that is wrong without an error',
  files=['common/source/LinkerHelper.cpp', 'common/include/common/LinkerHelper.h', 'LINKER.md', 'common/source/FunctionCallGraph.cpp', 'common/source/ReflectionHelper.cpp'],
  mech=[('LinkerHelper::import, transferInstruction, transferFunction', 'common/source/LinkerHelper.cpp'), ('LinkerHelper::removeFunctionBody / addLinkageDecoration', 'common/source/LinkerHelper.cpp'), ('LinkerOptionBits', 'common/include/common/LinkerHelper.h')],
  technique='abstract interpretation of the linker over heap shapes: library and consumer are taken in by the module reader of the project itself, import is followed through all of its code, and the modules before and after are compared by an operand correspondence',
  note='decoration groups (deprecated) and specialization constant operations (refused by the reader) are not transferred; a function that is exported by the library but not imported by the consumer is not brought along for its callers (documented); an import that fails may leave transferred types, constants and functions behind')

P(id='C18', title='The printed text has every operand once, in order, in the spelling asked for',
  statement='For every instruction the grammar knows printInstruction prints its result, its operation and each of its operands exactly once and in order: references as ids or, when the options ask for it, by name, type or constant value; enumerants and masks with all of their parameters, strings and literals with their full value, and it returns true; an instruction that is incomplete, has surplus operands, refers to nothing or is unknown is reported with false and nothing null is dereferenced. printModule prints the header when asked for and every instruction of every section once and in module order, fails at the first instruction that cannot be printed, and ModuleStringPrinter appends exactly the text and, only when enabled, the color codes.',
  over=['programs', 'inputs', 'configurations'], q='every opcode with each number of optional operands, every enumerant and every pair of parameterized mask bits, every printing option alone and left out, constants of every width, strings of every length up to two words, an invalid instruction in each place',
  why='the tests print one or two modules and compare nothing; the disassembly is what users read to find out what a module does',
  files=['common/source/ModulePrinter.cpp', 'common/include/common/ModulePrinter.h', 'lib/include/spvgentwo/ModuleTemplate.inl', 'lib/include/spvgentwo/String.h', 'lib/source/Grammar.cpp'],
  mech=[('printInstruction, printOperand', 'common/source/ModulePrinter.cpp'), ('printModule', 'common/source/ModulePrinter.cpp'), ('IModulePrinter::append', 'common/source/ModulePrinter.cpp'), ('uintToString', 'lib/include/spvgentwo/String.h')],
  technique='constant propagation over the resolved program: the printing code is followed for instructions of every shape the grammar of the specification has, with a printer that records the text; tokens compared with the operands as the vendored specification grammar reads them',
  note='spelling of types is taken from Type::getString; spacing and color codes of operands are not judged; names of one character may be printed as ids; decimal places of floating point values are those of the format the printer chooses')

P(id='C11', title='Lookup by hash never confuses two different keys',
  statement='For every pair of different types, constants, names or literals put into one module the lookups keyed by their 64-bit hash keep them apart, so that no type, constant or name is ever answered for another one.',
  over=['inputs'], q='all pairs of types, constants and names',
  why='the maps compare hashes only, so two keys with the same hash would be taken for one',
  files=['lib/include/spvgentwo/HashMap.h', 'lib/include/spvgentwo/FNV1aHasher.h', 'lib/include/spvgentwo/Type.h', 'lib/include/spvgentwo/Constant.h'],
  mech=[('HashMap', 'lib/include/spvgentwo/HashMap.h'), ('FNV1aHasher', 'lib/include/spvgentwo/FNV1aHasher.h')],
  technique='none', note='that the hash depends on every part that tells two keys apart, and on nothing else, is decided by C12 and C31',
  na='there are more keys than 64-bit hashes, so colliding keys exist, and which pairs collide is a fact about numbers the program computes at run time: no dataflow, typestate or effect argument bounds it. What can be decided from the source (the hash covers all and only what distinguishes two keys) is claimed under C12 and C31')

P(id='C14', title='Written modules compute what the program describes',
  statement='For every sequence of builder calls the module written, executed by a conforming SPIR-V implementation, computes the values the calls describe, and spirv-val accepts it for every environment the module declares itself for.',
  over=['programs'], q='all programs that build modules',
  why='the tests compare instruction text and never run a shader',
  files=['lib/source/Instruction.cpp', 'lib/source/BasicBlock.cpp', 'lib/source/Module.cpp'],
  mech=[('Instruction builders', 'lib/source/Instruction.cpp'), ('Module::write', 'lib/source/Module.cpp')],
  technique='none', note='opcode, operands, types, structure and layout of what is written are decided by C01 to C04, C13, C22 and C23',
  na='the value a shader computes, and validity rules such as dominance of uses in the blocks a caller wires up by hand, depend on the sequence of calls of the caller, which is no part of this repository; the library does not track them either. Each single step (opcode, operands, result type, block structure, layout) is claimed under its own property')

P(id='C16', title='Time and memory grow no faster than the module',
  statement='Building, reading, linking and writing a module take time and memory proportional to its size, with constant expected time per lookup of a type, constant or name.',
  over=['inputs'], q='all modules, of any size',
  why='tests use small modules, where a quadratic loop cannot be seen',
  files=['lib/include/spvgentwo/HashMap.h', 'lib/include/spvgentwo/Vector.h', 'lib/source/Module.cpp'],
  mech=[('HashMap', 'lib/include/spvgentwo/HashMap.h'), ('Vector::reserve', 'lib/include/spvgentwo/Vector.h')],
  technique='none', note='that every loop over a list, vector or map visits each element once is part of C01, C10 and C15',
  na='the maps never rehash and the lists are searched linearly by design, so the cost depends on bucket counts and sizes the user chooses at run time; an upper bound on loop counts in terms of those sizes is a quantity no static rule in reach decides, and the documentation promises none')
