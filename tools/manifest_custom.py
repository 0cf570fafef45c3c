RANGE = "Quick and thorough run the same complete analysis."
CUSTOM["C01"] = ("abstract interpretation of every exported string-taking function over all strings and over the grammar's classes; every possible run-time panic (index, slice bound, nil dereference, type assertion, division) is an obligation", NOTE)
CUSTOM["C02"] = ("abstract interpretation of the predicates, classifier and parser over any string, giving for each the exact regular language of the strings it accepts; equality and inclusion of these languages decided on automata", NOTE)
CUSTOM["C03"] = ("abstract interpretation of each predicate over any string, giving the exact regular language it accepts; equivalence with the documented grammar's automaton", NOTE)
CUSTOM["C14"] = ("abstract interpretation of the operations with an error/result exclusivity and lost-failure obligation at every return path, plus the constructor x predicate table of error kinds", NOTE)
CUSTOM["C15"] = (AI, NOTE)
CUSTOM["C16"] = (AI, NOTE)
CUSTOM["C17"] = (AI, NOTE)
CUSTOM["C18"] = ("call-graph effect analysis (writes to package state, goroutines, clock, environment, I/O, map order) and ownership analysis of results in the abstract interpreter", NOTE)
CUSTOM["C19"] = (AI, NOTE)
CUSTOM["C22"] = ("abstract interpretation of the vocabulary functions over any string; accepted languages compared as automata and under every map iteration order", NOTE)
CUSTOM["C23"] = ("abstract interpretation of the flag operations in a per-bit domain covering all 2^32 flag words, constants read from the type-checked program", NOTE)
CUSTOM["C20"] = ("abstract interpretation of the front ends' entry points in the build configuration each is for, with effect traces (writes, exits, promise settlements, handler releases) compared with the outcomes of the arguments", NOTE)
