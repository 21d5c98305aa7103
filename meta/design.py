# per property: how it is decided here, and within which bounds
D = {}
D['C01'] = ('Module::write is followed over a module with two generic elements in every section (functions with and without body, blocks, parameters); every visit of an instruction, every word of the header and every failure of the writer is an event. Compared: set and order of visits with the layout of the specification, header words, nothing after a failed write.',
            'two generic elements per container stand for any number (the walk treats them alike through iterators that are followed for real)')
D['C02'] = ('Instruction::write, Operand::write, the literal encoders and the string decoders are followed over operand lists of generic operands and strings of generic bytes; emitted words are symbolic expressions compared byte by byte with the physical layout.',
            'operand lists of 0..3, strings of 0..9 characters (each residue modulo 4 twice), every literal type')
D['C03'] = ('Each builder (and each instantiation of a builder template) is followed on every path with generic arguments, null and non-null optionals, lists of 0..2; the operand list it leaves is matched with the operand sequence of the published grammar by an automaton, and each operand is traced to the argument it came from.',
            'validation outcomes are forked, so all combinations of accept / refuse are followed; legality of types is left to C13')
D['C04'] = ('All GLSL.std.450 builders over the type domain of C13; result type, import, entry point number and operand order compared with a rule table written from the extended instruction set specification, plus its JSON grammar for numbers and arity.',
            'operand type tuples of the domain; no values')
D['C05'] = ('Modules assembled from the vendored grammar are followed through readAndInit and Module::write; words compared per section and function, definitions still before uses, ids after assignIDs related by a bijection found through the grammar.', '3266 instructions of all opcodes, each optional operand and up to three repetitions, every parameterized enumerant and mask pair; 23 modules; every opcode at five places (thorough; quick a sample of the opcodes the reader does not tell apart)')
D['C06'] = ('Instruction::readOperands over symbolic word streams of every operand shape the grammar has, every count of words from none to one too many, masks with each pair of parameterised bits, strings of every length class; Module/Function/BasicBlock::read over streams with every opcode in every place. Events: words consumed against words declared, kind of each operand, section of each instruction, propagated failures.',
            'opcodes exhaustive; lists up to two repetitions; strings up to two words and a half')
D['C07'] = ('addType/addConstant/type<T>/constant<T>/reconstructTypeAndConstantInfo over the term domain; the instructions left are decoded by an independent reader of the operand layout and compared with the term; the reverse maps answer the same terms.',
            'domain: ~185 types, ~110 constants, nesting up to three')
D['C08'] = ('Constant propagation of each classification function over its whole enumeration, compared with the published grammar.', 'exhaustive')
D['C09'] = ('Abstract execution of the code that fills the tables, compared row by row with the published JSON, both directions; lookup functions on every path.', 'exhaustive, plus unknown values')
D['C10'] = ('Every operation of List, Vector, String, HashMap over all shapes of 0..3 elements, all positions, spare capacity or none, colliding and equal hashes, self arguments. Typestate of every element cell (raw, alive, moved from) and of every storage block (size given back = size taken). The abstract sequence afterwards compared with that of the operation\'s definition. A map without buckets (moved from, storage refused, no allocator) is asked everything and must answer as an empty map.',
            'shapes up to 3 elements: the code branches on emptiness, ends and comparisons only')
D['C12'] = ('Equality, hash, predicates, queries, mutators, constructors and wrappers over the same term domain, all pairs for equality; the hasher compared with FNV-1a.', 'hash distinctness is decided for the domain only')
D['C13'] = ('Every type-checking builder for every combination of operand types of the domain through its real code; result type and acceptance compared with a rule table written from the instruction descriptions (with an explicit Maybe where revisions differ). validateOperands followed for every opcode (image opcodes excepted) with complete operands and with each kind of missing or unusable one; its image operand types, self references of OpPhi and single-block loops are not judged.', '~113 000 combinations')
D['C15'] = ('assignIDs, resolveIDs, collectUses, replace over a canonical module with every section occupied; must-be-assigned-once typestate of result ids.', 'two elements per container, hash maps by key equality')
D['C17'] = ('Pairs of modules are assembled as words, read by the project\'s reader (followed), linked by LinkerHelper::import (followed), and the consumer before and after compared by operand correspondence; option bits, requirement of Linkage capability, services.', '~80 library/consumer pairs covering every kind of referenced instruction, each option left out in turn; thorough runs the full product')
D['C18'] = ('printInstruction followed for every opcode, number of optional operands, enumerant, mask pair and option set, with a printer that records text; tokens compared with the operands as the published grammar reads them. printModule: sequence of lines equals that of printInstruction in module order, header, end at first failure.', 'operand lists up to two repetitions, strings up to 8 characters, one constant per width and sign class')
D['C19'] = ('main of each tool followed for given argument vectors; reader, parser, printer, linker and file writer are contracts that fail in turn; exit status and order of effects compared with the documentation.', 'all single options, all pairs, orders of linker inputs, missing trailing arguments')
D['C20'] = ('addCapability, extension and import declarations, queries, removal, and the requirements added by assignIDs(grammar), over a module built by its own constructor.', 'every capability and extension; an instruction in every section')
D['C21'] = ('Reflection helpers, Vulkan interop and grammar helper followed over modules read by the project\'s reader; each answer compared with the declarations in the module text; Vulkan mapping compared with the Vulkan shader interface; name tables of the reflector compared with the vendored grammar.', 'one module with 20 decorations, 201 descriptor variables, 14 operand lists')
D['C22'] = ('If/Loop helpers, returnValue and terminator queries over functions whose blocks are empty, open or ended in each way; resulting block graph compared with the structured control flow rules.', 'all combinations of terminated / open regions')
D['C23'] = ('Operators and type-directed operations over pairs of operand types; opcode, operand order and refusal compared with a rule.', 'domain of C13')
D['C24'] = ('Readers and writers over a model of the C file functions where each call fails in turn; module writers over a writer refusing each word in turn; FILE typestate (opened once, closed once on every path).', 'files up to a few words around every boundary')
D['C27'] = ('Function and EntryPoint constructors, parameter and finalize operations and interface collection over canonical functions and call graphs (recursion included). addFunction<R, Ps...> and addEntryPoint<R, Ps...> followed on a real module, with and without the entry block.', 'up to three parameters, call graphs up to four functions; 347 opcodes as users of variables')
D['C25'] = ('ExternalMemoryAllocator followed through all histories of three allocations and deallocations with concrete addresses; ScopedAllocation, construct/destruct and every operation of Callable with the typestate of storage and functors used for the containers.', '20 buffers, 12 requests per step, three steps and an allocation behind a deallocation; callables of six kinds, pairwise assignments')
D['C26'] = ('Modules with every section, entry points, declarations and multi-block functions are built through the reader; every move constructor and assignment (new, empty, filled, same target) and reset is followed through the code, and contents, addresses, header, lookups, parents and written words before and after are compared. All containers of Module are enumerated from its class definition, so a container reset forgets is found.', 'three modules as sources and targets; one function per shape; opcodes of single instructions: eight; operand kinds: all')
D['C30'] = ('Write-effect summaries of all functions of lib and common (about 5700, template instances included), solved to a fixed point over the call graph with virtual calls and lambdas resolved; roots are the object, the parameters, what their pointers lead to, own and new objects, static storage. Every const member function must have no store rooted in its object, every read-only parameter none rooted in it, and no store may be rooted in static storage; each static variable must be const or of a class without data. Private or internal helpers called by the named exceptions only are exempt with them.', 'flow-insensitive; one level of what pointers lead to; calls through values not followed (counted in the evidence)')
D['C31'] = ('Queries over every function body, constructor and record of lib and common: begin() of a HashMap keyed by a pointer outside the map itself, order comparison of pointers outside arrays and allocators, pointer to integer conversions outside allocators, pointers fed to the hash of contents, scalar members without a value per constructor, a definite-assignment walk per function, and calls to a list of functions that answer from the process.', 'all functions; definite assignment joins paths without correlating conditions')
D['C32'] = ('Every translation unit goes through the clang front end with the flags the project builds with (-Werror -Wall -Wextra -pedantic-errors) in each configuration; the extractor then gives the program of each configuration and every function is compared with the one of the default configuration as a canonical tree (types by name, own traits and standard ones identified, declarations numbered by first use), so that only Module::log and Instruction::validateOperands may differ and only their callees may exist in one configuration alone. The log functions of Module and ILogger are interpreted for every condition, level, filter, and with and without logger and callback, in each configuration.', 'quick: default, each option off alone, all off; thorough: all sixteen combinations')
D['C28'] = ('All histories of up to three connections among three nodes (self loops, parallel edges), each followed by disconnect, erase, edge removal, clear, compared with a model; control flow and call graphs of functions read by the project; every acyclic expression graph of four nodes evaluated from every node.', 'three nodes, three connections, two removals; 19 control flow, 12 call graphs; expression graphs of four nodes')
D['C29'] = ('Naming histories through the real maps and strings; name section, lookups and rebuilt lookups compared with a reference history; storage class, pointer type and initialiser of every variable helper.', 'histories up to four steps, strings up to eight characters')

# seeded changes that were missed first, and what was added
MISSED = {'c02-last-of-two': 'first missed (mutation of the recursion): lists of literals of mixed widths', 'c19-refl-first-decoration': 'first missed: what the reflector lists for each option, two decorations asked for', 'c32-console-cuts': 'first missed: the console logger is followed for every level', 'c26-block-assign-parent': 'first missed: targets that are empty blocks, functions and instructions of the same owner', 'c25-dealloc-before-last': 'first missed: an allocation follows each deallocation, as fourth step', 'c28-entry-self-loop': 'first missed: functions whose entry block is a branch target', 'c05-self-operand': 'first missed: operands refer to the own result, phi nodes refer to themselves', 'c05-lines-coalesced': 'first missed: every instruction of every section twice', 'c21-combined-any-binding': 'first missed: other variable at lower and higher set and binding', 'c17-exported-callee-first': 'first missed: family of call graphs with exported and plain callees in every order'}
