# property -> (module, function, level, technique, level_note)
MC = "model_checking"
CHECKS = {
    "R01": ("runtime", "R01", MC, "exhaustive bounded enumeration of API histories on the real mocks vs a reference model", "all histories of 5 functions (C and C++) to depth 4/5, every queue length to 256"),
    "R02": ("runtime", "R02", MC, "exhaustive bounded enumeration of API histories with checks anywhere vs a reference model", "all histories to depth 5/6 with checks and inits, all (expected, called) counts to capacity, all subsets of miscounted functions"),
    "R03": ("runtime", "R03", MC, "exhaustive bounded enumeration of expectation/call orders vs a reference FIFO model", "all histories to depth 5/6 with order toggles, all permutations to 5/6 expectations, one swap at every position of runs to 600"),
    "R04": ("runtime", "R04", MC, "exhaustive enumeration of (earlier, later) history pairs around easyMock_init vs a reference model", "all pairs of depth 2x3 (3x3 thorough), all leftover counts to 256"),
    "R05": ("runtime", "R05", MC, "exhaustive bounded enumeration of error/read/check/init histories vs a list model", "all histories to depth 5/6, all message lengths to 3000/20000, call stacks to depth 3/4"),
    "R06": ("runtime", "R06", MC, "exhaustive bounded enumeration of registration and load/unload histories on the real framework and mocks", "all register/unregister histories to depth 6/7 over 3-4 files, all dlopen/dlclose histories to depth 5/6 over two shared mocks"),
    "R07": ("runtime", "R07", MC, "exhaustive bounded enumeration of queue histories and fill levels on the real code under ASan/LSan", "all histories to depth 8/9, all data sizes to 520/2100, all fill levels to capacity and beyond"),
    "R08": ("runtime", "R08", MC, "exhaustive bounded enumeration of cstring histories vs std::string under ASan/LSan", "all two-piece length pairs to 600/1200, histories of boundary lengths to depth 3/4"),
    "R09": ("runtime", "R09", MC, "exhaustive enumeration of boundary value pairs of every matcher vs the C comparison", "all 8-bit pairs, all boundary pairs of wider types, all text length pairs to 300/600"),
    "G03": ("gen_c", "G03", MC, "exhaustive enumeration of the C declaration grammar: real generator, real compiler, driver observing every value", "all types to depth 2/3 as parameter and return, all pairs of 28 kinds, all counts to 16, all positions"),
    "R10": ("gen_out", "R10", MC, "exhaustive enumeration of output parameter types, positions and set/null patterns on generated mocks with guarded destinations", "all pointer types to depth 2/3, all pairs (triples) of 17 output kinds, all set/null subsets over 3 queued calls, 6 sizes"),
    "G01": ("gen_tool", "G01", MC, "exhaustive enumeration of argument lists on the real command line parser vs a specification, and of option sets on the real tool", "all lists over 29 arguments to length 4/5, with -i/-o at every position to 3/4, all option subsets of 13 on the tool (<=3 or >=12 quick)"),
    "G06": ("gen_tool", "G06", MC, "exhaustive fault injection on the real tool: every file operation failing, every file size limit, every leftover state", "every operation on the output files x 4 errors x 3 partial modes, every byte limit (thorough; boundaries and a stride quick), 5 blocked places, 10 leftovers x 3, closed streams"),
    "G07": ("gen_tool", "G07", MC, "exhaustive enumeration of path spellings x working directories x header names on the real tool", "all combinations of header, output and include spellings from 4 directories with and without --cwd, in 9/16 directory names, 29 header names, 864 missing-path combinations"),
    "G02": ("gen_sel", "G02", MC, "exhaustive enumeration of declaration sequences and option sets on the real tool vs a selection specification", "all sequences of 25 declaration forms to length 2 (3 and 4 over smaller sets), in C and C++, times 16 option sets; all pairs of forms; all subsets of 7 functions"),
    "G08": ("gen_run", "G08", MC, "exhaustive enumeration of option orders and run environments on the real tool, comparing bytes", "all orders of up to 4/5 options of every kind in 3 places, 60+ environments, stale outputs, repeated runs"),
    "G09": ("gen_run", "G09", MC, "exhaustive enumeration of error and warning forms at every place of a header and its include on the real tool", "28 error and 27 warning forms at every position, pairs of forms, with and without --ignore-parser-error, 3/8 option sets"),
    "G04": ("gen_types", "G04", MC, "exhaustive enumeration of type declarations on the real generator; the compiler's layout of original and generated types compared", "100+ member forms alone, in company and in pairs, in struct, union, typedef and anonymous form; all reference graphs of 3 types to 3/4 edges; all enumerator lists to length 3"),
    "G05": ("gen_cmp", "G05", MC, "exhaustive enumeration of struct declarations and of every bit of their values on the real generated comparators", "100+ member forms alone, in company and in pairs; every bit of the value flipped over 4 backgrounds, every pair of bits (thorough)"),
    "G10": ("gen_cpp", "G10", MC, "exhaustive enumeration of C++ declarations on the real generator and compiler, and of instance patterns and expect/call histories on the mocks", "13 scopes x 22 member and 7 free forms; 90+ parameter and 46 return types x scopes; type pairs; all instance patterns over 2 queued calls; all histories of 2 and 3 same-named functions to depth 5/4"),
    "G11": ("gen_attr", "G11", MC, "exhaustive enumeration of attributes, placements and requests on the real generator; clang's view of original and generated declarations compared", "38 attribute forms x 16 placements, pairs x 6 placements, triples, times every single request, pairs of requests and near-miss names, in C, C++ and with generated types"),
    "G12": ("gen_noise", "G12", MC, "exhaustive enumeration of noise and macro spellings at every token of C and C++ declarations and type definitions; drivers observe the mocks and the layout of generated types", "31 noise and 6 directive forms in every gap, everywhere and in pairs of gaps, 11 macro forms over every range of tokens, 21 C functions, 10 C++ functions, 15 type definitions"),
    "G13": ("gen_multi", "G13", MC, "exhaustive enumeration of sets of headers, file names, inclusion graphs and inclusion and link orders on the real generator and compiler; all expect/call histories over the functions of all mocks", "all pairs of 16 C header contents and of 32 file names, all inclusion graphs of 3 headers, all pairs of 20+ C++ functions in two headers, with original headers and generated types, both orders; histories to depth 3-5"),
    "G14": ("gen_tool", "G14", MC, "exhaustive enumeration of the objects of the real model classes up to a nesting depth, in every construction and history (moved, cached), all pairs against a structural specification", "all terms of 1-2/2-3 constructors over 21-42 atoms, 10410 composite types and enums, all functions within two of 14 respects of 900 others; 6 object histories; all pairs"),
    "G15": ("gen_ignore", "G15", MC, "exhaustive enumeration of reference graphs of composite types and of all subsets of their names on the real generator; clang's view of the generated types compared", "all graphs of up to 2/3 references of 5 kinds between 3 types of 6 declaration forms, all subsets of the type names, both generation modes"),
    "G16": ("gen_macro", "G16", MC, "exhaustive enumeration of macro bodies, parameters, directive sequences and places on the real generator; all expansions by the preprocessor and all layouts by the compiler compared", "85 object-like and 56 function-like bodies alone, used by others and in pairs, all sequences of 13 directives to length 3/4, 14 command lines x 125 placements, 17 uses x 6 later changes"),
}
