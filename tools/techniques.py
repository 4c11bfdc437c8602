T.update({
 'C14': ('differential testing against naive occurrence search, with dense repetitive alphabets and arbitrary int bounds', 'texts of up to a few thousand characters, some of up to 140000'),
 'C15': ('differential testing against a naive character-by-character model; all (start, stop, step) triples of short strings per case', 'texts of up to 140000 characters'),
 'C16': ('differential testing against an ASCII letter table over all byte values', 'letters are the ASCII letters; texts of up to 140000 characters'),
 'C17': ('round-trip (split then join), counting relations and a naive scanner as reference', 'texts of up to a few thousand characters, some of up to 140000'),
 'C18': ('differential testing against a left-to-right placeholder scanner with independently printed arguments', 'default stream formatting of the arguments is the reference'),
 'C19': ('grammar-based generation in all 35 bases with a cpp_int-free digit oracle; mutation to malformed text', 'integer types of 8 to 64 bits, texts up to ~200 characters'),
 'C20': ('grammar-based generation and mutation, value compared with strtod within a relative tolerance', 'tolerance 1e-12 relative; malformed decided by a reference grammar'),
 'C21': ('stateful model-based testing against std::vector with shrinkable histories', 'four element types (int, std::string, Int, checked heap boxes), histories up to ~60 steps, some starting from up to 140000 elements'),
 'C22': ('differential testing against a std::vector model; all slice triples of short lists per case', 'lists up to a few hundred elements, some of up to 140000'),
 'C23': ('model-based testing with tagged records (stability), multiset invariants and a naive reference', 'comparators are strict weak orders; lists up to a few thousand elements, some of up to 80000'),
 'C24': ('stateful model-based testing against a reference sequence with shrinkable histories', 'four element types, histories up to ~60 steps, some starting from up to 140000 elements'),
 'C25': ('stateful model-based testing against a reference set with shrinkable histories', 'four element types, histories up to ~60 steps, sets of up to 80000 elements'),
 'C26': ('differential testing against element-wise set algebra and algebraic laws over related operands', 'sets up to ~100 elements, some of up to 80000'),
 'C27': ('stateful model-based testing against a reference map with shrinkable histories', 'four key/value type pairs, histories up to ~60 steps, dictionaries of up to 80000 entries'),
 'C28': ('property-based testing over generated shapes (type sequences instantiated at compile time) and values', 'a fixed list of element type sequences, generated values'),
 'C29': ('differential testing against an independent printer over 20 compositions of types, stream state compared before and after', 'hex/showpos/width effects on the text itself are not claimed'),
 'C30': ('metamorphic testing: operation on an aliased argument compared with the same on an independent copy; copies and moves compared with models', 'self-move assignment is not exercised'),
 'C31': ('generated invalid calls inside histories, unchanged-state and exception-type oracle', 'Fraction arguments limited to int'),
 'C32': ('stateful testing of unordered containers keyed by computed equal values, linear-search reference', 'one known finding (hash of Complex under tolerance equality) is listed'),
})
T.update({
 'C33': ('random programs over the whole interface (about 250 calls on 13 register types) under AddressSanitizer, UBSan and libstdc++ assertions, with a CPU limit per case; each program runs twice over painted memory to show uninitialised reads', 'values bounded (300 digits, 600 elements); a call is any of about 250'),
 'C34': ('random programs compared between a fresh process, one with a history, interleaved execution and threads; ThreadSanitizer build', 'up to 4 threads, schedules as the system gives them; std::random_device results excluded'),
 'C35': ('differential and stateful testing against std::string and std::getline', 'texts up to 3000 characters'),
 'C36': ('fault injection at generated points of stateful histories: throwing element copies and comparisons, failing allocations; counters of live elements and blocks as the invariant', 'the value of the object being modified after a fault is only required to be valid'),
 'C37': ('round-trip testing of generated values of mixed types on one stream and through text functions', 'Complex parts limited to six significant digits, as printed'),
 'C38': ('differential testing of large generated values against simple models', 'up to 260000 elements, 9000 digits; Lists of up to INT_MAX stateless elements'),
 'C39': ('random programs over the whole interface compared between builds by two compilers with four sets of options', 'floating-point results are compared in nine digits; hash values are not compared; a build that another compiler refuses is left out'),
 'C40': ('counting of element copies, moves, comparisons and of requested memory over generated sizes and histories, against bounds of the required order of growth', 'bounds are at least four times the present cost; time spent without touching elements or memory is not measured'),
 'C41': ('differential testing of calls with plain C++ operands against reference models of the values', 'conversions that the present interface does not offer (int + Int, say) are not used'),
 'C43': ('metamorphic testing: model-based histories of ints, carried over to some thirty element types by an order-preserving injection', 'List<bool> is not used (it has no references to elements); alignment up to 16 (libstdc++ stable_sort ignores more); move-only elements are not used'),
 'C42': ('generated multi-file programs, compiled, linked and run; output compared with the same code in one file', 'g++ at -O0; about 120 programs per quick run; names are drawn from the identifiers of the sources; macros of the program itself are not generated'),
})
