"""Text of the properties (source of properties.jsonl and MANIFEST.json, see tools/gen.py)."""
NA = {}
PROPS = []
DEFNOTE = ("Exploration: holds on every execution observed under ASan+UBSan and in the optimised build; oracle is an independent "
           "reference model in the harness. Trusts the reference model, m4ri and the compiler; single threaded.")


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note=DEFNOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note))


RM = "runtime monitoring: reference-model oracle on the real code under ASan/UBSan and -O2 builds, guarded operands"

prop("P01", "Finite field arithmetic is exact for every irreducible polynomial",
     "For every irreducible polynomial of degree 2 to 16, the field built from it multiplies any two elements exactly as polynomial multiplication modulo that polynomial, and inverts every nonzero element, through every multiplication and inversion entry point. The precomputed data derived from a field (powers of the generator, reductions of high parts, 16-bit multiples tables for a constant) agree with the same reference.",
     ["inputs", "configurations"], "all irreducible polynomials of degree 2..16, all pairs of elements, all constants",
     "tests use one polynomial per degree and never compare a product with an independent definition",
     ["src/gf2e.c", "src/gf2e.h"],
     [("gf2e_init builds the multiplication tables, reductors and pow_gen", "src/gf2e.c"), ("_gf2e_mul_table/_gf2e_mul_arith/gf2e_inv", "src/gf2e.h"), ("gf2e_t16_init", "src/gf2e.c")],
     ["ff->mul, ff->inv, gf2e_mul, gf2e_inv, gf2e_t16_init"], RM)
prop("P02", "Arithmetic of polynomials over GF(2) is exact",
     "Multiplication, division with remainder, reduction, inversion and degree of binary polynomials held in machine words give the mathematically exact result for all operands within the word size.",
     ["inputs"], "all operands that fit the word, including zero, one and full-width patterns",
     "the tests exercise these only indirectly through field construction", ["src/gf2x.h"],
     [("gf2x_mul, gf2x_div, gf2x_mod, gf2x_divmod, gf2x_inv, gf2x_deg", "src/gf2x.h")], ["return values"], RM)
prop("P03", "The table of irreducible polynomials is complete and correct",
     "The library's table of irreducible polynomials lists, for each degree it offers, exactly the irreducible binary polynomials of that degree, once each, preceded by their correct number.",
     ["inputs"], "every entry of every degree of the table", "tests use only the first entry per degree", ["src/gf2e.c", "src/gf2e.h"],
     [("irreducible_polynomials[degree][0] is the count, entries follow", "src/gf2e.c")], ["irreducible_polynomials"], RM)
prop("P04", "Element access is exact and touches only the addressed element",
     "After any sequence of element reads, writes and additions on a packed or bit-sliced matrix or window, every element holds exactly what the sequence put there, a window and its parent agree, and no storage outside the addressed elements changes. The zero test agrees with the contents.",
     ["inputs", "histories"], "all fields, dimensions, positions, window offsets and access sequences",
     "tests access a few positions of matrices they own and never look at the storage around a view", ["src/mzed.h", "src/mzd_slice.h", "src/mzed.c", "src/mzd_slice.c"],
     [("mzed_read_elem/mzed_write_elem/mzed_add_elem", "src/mzed.h"), ("mzd_slice_read_elem/mzd_slice_write_elem/mzd_slice_add_elem", "src/mzd_slice.h"), ("mzed_is_zero, mzd_slice_is_zero", "src/mzed.c, src/mzd_slice.h")],
     ["raw words of the matrix and its parent"], RM)
prop("P05", "Conversion between packed and bit-sliced form is lossless",
     "Converting a packed matrix to bit-sliced form or back yields a matrix with exactly the same elements, whatever the destination held before and whether it is newly created, owned or a window, and leaves the source unchanged. Converting there and back is the identity.",
     ["inputs"], "all fields of degree 2..16, all dimensions, windows as source and destination",
     "tests convert random matrices with fresh destinations, for a few sizes and one polynomial per degree", ["src/conversion.c", "src/conversion.h", "src/conversion_slice8.c", "src/conversion_slice16.c", "src/conversion_cling8.c", "src/conversion_cling16.c"],
     [("mzed_slice dispatches to _mzed_slice2/4/8/16", "src/conversion.c"), ("mzed_cling dispatches to _mzed_cling2/4/8/16", "src/conversion.c")],
     ["elements and raw storage of source and destination"], RM)
prop("P06", "Structural matrix operations move exactly the right elements",
     "Addition, copying, concatenation, stacking, submatrix extraction, setting to a scalar (diagonal) matrix and creation of fresh (zero) matrices, packed and bit-sliced, give exactly the elementwise result in the result's own storage, for new or preallocated destinations (and for addition also when the destination is one of the operands). Comparison reports equality exactly for equal matrices, and a window shows and modifies exactly the addressed part of its parent.",
     ["inputs"], "all fields, dimensions, offsets, aliasing patterns; for concatenation, stacking and extraction the source is owned or its right edge is word aligned",
     "tests cover a handful of shapes with freshly allocated results", ["src/mzed.c", "src/mzed.h", "src/mzd_slice.c", "src/mzd_slice.h"],
     [("mzed_add, mzed_copy, mzed_concat, mzed_stack, mzed_submatrix, mzed_set_ui, mzed_cmp", "src/mzed.c"), ("mzd_slice_* counterparts", "src/mzd_slice.h, src/mzd_slice.c")],
     ["elements and raw storage of all operands"], RM)
prop("P07", "Row and column operations affect exactly the stated entries",
     "Scaling a row, adding a row or a multiple of it to another, copying rows, swapping rows or columns (also restricted to a row range) and finding the first zero row act exactly as stated on the entries from the given start column or row on, and change nothing else.",
     ["inputs"], "all fields, scalars, rows, start columns and row ranges, owned matrices and windows",
     "tests use these operations only inside the naive elimination", ["src/mzed.c", "src/mzed.h", "src/mzd_slice.c", "src/mzd_slice.h"],
     [("mzed_rescale_row, mzed_add_multiple_of_row, mzed_add_row, mzed_row_swap, mzed_col_swap_in_rows, mzed_first_zero_row", "src/mzed.h, src/mzed.c"), ("mzd_slice_rescale_row, mzd_slice_row_swap, mzd_slice_col_swap...", "src/mzd_slice.h, src/mzd_slice.c")],
     ["elements and raw storage"], RM)
prop("P08", "Permutations are applied exactly and invertibly",
     "Applying a row or column permutation from the left or right, in either direction, moves whole rows or columns exactly as the sequence of transpositions prescribes for packed and bit-sliced matrices, and applying it together with its transposed form restores the matrix.",
     ["inputs"], "all transposition sequences of the matrix's length, all fields and dimensions, windows",
     "permutations are tested only through factorisations of random matrices, where they are close to the identity", ["src/permutation.h", "src/ple.c"],
     [("mzed_apply_p_left/right(_trans), mzd_slice_apply_p_*", "src/permutation.h"), ], ["elements and raw storage"], RM)
prop("P09", "Every multiplication algorithm computes the exact matrix product",
     "For any two conforming matrices over the same field, every multiplication entry point (dispatching, naive, Newton-John, Strassen, Karatsuba, bilinear maps; packed and bit-sliced) stores exactly the mathematical product in the destination, replacing whatever it held, whether the destination is new, owned or a window.",
     ["inputs", "configurations"], "all fields of degree 2..16, all dimensions, entries, destinations and algorithms",
     "tests compare algorithms with each other for one polynomial per degree and few sizes; all can share an error, and destinations are mostly fresh", ["src/mzed.c", "src/strassen.c", "src/newton_john.c", "src/karatsuba.c", "src/mzd_slice.c", "src/mzd_slice.h", "src/blm.c", "src/mzd_ptr.c"],
     [("mzed_mul/_mzed_mul dispatch on dimensions", "src/mzed.c"), ("_mzed_mul_strassen", "src/strassen.c"), ("_mzed_mul_newton_john", "src/newton_john.c"), ("_mzd_slice_addmul_karatsubaN", "src/karatsuba.c, src/mzd_slice.h"), ("_mzd_slice_addmul_blm", "src/blm.c")],
     ["elements of the result, raw storage of all operands"], RM)
prop("P10", "Accumulating multiplication adds exactly the product",
     "For any conforming matrices, every accumulating multiplication entry point leaves in the destination exactly its previous contents plus the product of the factors, and leaves the factors unchanged.",
     ["inputs", "configurations"], "all fields of degree 2..16, all dimensions, entries and algorithms",
     "tests compare a few sizes between algorithms with one polynomial per degree", ["src/mzed.c", "src/strassen.c", "src/newton_john.c", "src/karatsuba.c", "src/mzd_slice.h", "src/blm.c"],
     [("mzed_addmul/_mzed_addmul dispatch", "src/mzed.c"), ("_mzed_addmul_strassen", "src/strassen.c"), ("mzed_addmul_newton_john", "src/newton_john.c"), ("mzd_slice_addmul*", "src/mzd_slice.h")],
     ["elements of the result, raw storage of all operands"], RM)
prop("P11", "Scalar multiples of matrices are exact",
     "Multiplying a packed or bit-sliced matrix by any field element, or adding such a multiple to another matrix, gives exactly the elementwise result for every size, including the sizes where a lookup table is used and packed matrices scaled in place.",
     ["inputs"], "all fields, scalars, dimensions, windows", "tests never reach the table path and use few scalars", ["src/mzed.c", "src/mzd_slice.c", "src/mzd_slice.h"],
     [("mzed_mul_scalar (small loop / 16-bit multiples table)", "src/mzed.c"), ("mzd_slice_mul_scalar, mzd_slice_addmul_scalar", "src/mzd_slice.c, src/mzd_slice.h")],
     ["elements and raw storage"], RM)
prop("P12", "Reduced row echelon forms and ranks are correct for every matrix",
     "For every matrix, every echelonisation entry point asked for the reduced form returns the exact rank and leaves the unique reduced row echelon form of the input in the matrix.",
     ["inputs", "configurations"], "all fields, shapes, ranks and pivot profiles, packed and bit-sliced, every algorithm and the dispatcher",
     "tests compare algorithms with each other on random (nearly full rank) matrices and their rank comparison is ineffective", ["src/echelonform.c", "src/newton_john.c", "src/mzed.c", "src/ple.c"],
     [("mzed_echelonize dispatch, mzed_echelonize_ple, mzd_slice_echelonize_ple", "src/echelonform.c, src/echelonform.h"), ("mzed_echelonize_newton_john", "src/newton_john.c"), ("mzed_echelonize_naive", "src/mzed.c")],
     ["returned rank, elements, raw storage"], RM)
prop("P13", "Non-reduced echelon forms keep the row space and report the exact rank",
     "For every matrix, every echelonisation entry point asked for a non-reduced form returns the exact rank and leaves a matrix in row echelon form that spans the same row space as the input, with zero rows after the rank.",
     ["inputs", "configurations"], "all fields, shapes, ranks and pivot profiles, every algorithm and the dispatcher",
     "tests check reduced forms of random matrices only", ["src/echelonform.c", "src/newton_john.c", "src/mzed.c", "src/ple.c"],
     [("mzed_echelonize(A,0) and algorithms", "src/echelonform.c, src/newton_john.c, src/mzed.c")],
     ["returned rank, elements, raw storage"], RM)
prop("P14", "Inversion returns the inverse, and rejects singular matrices",
     "Inverting an invertible square matrix yields the matrix whose product with the input is the identity and leaves the input unchanged; a singular matrix never yields a result but is rejected by the library's fatal error.",
     ["inputs"], "all fields, sizes, invertible and singular matrices including defects of one", "there is no test of inversion of singular matrices and few of regular ones", ["src/newton_john.c", "src/newton_john.h"],
     [("mzed_invert_newton_john", "src/newton_john.c")], ["result, input storage, fatal error"], RM)
prop("P15", "Triangular solves give the exact solution",
     "Solving with a lower or upper triangular matrix with nonzero diagonal from the left stores exactly the unique solution in the right hand side, uses only that triangle (whatever the other triangle holds), and leaves the triangular matrix unchanged, for every algorithm, recursion cutoff and representation.",
     ["inputs", "configurations"], "all fields, sizes, right hand side widths, cutoffs >= 1, junk in the unused triangle, windows",
     "tests compare with naive solves for random matrices and default cutoffs", ["src/trsm.c", "src/trsm.h", "src/trsm.inl"],
     [("_mzed_trsm_upper/lower_left recursion at cutoff", "src/trsm.inl"), ("naive and Newton-John base cases", "src/trsm.c"), ("mzd_slice counterparts", "src/trsm.c, src/trsm.inl")],
     ["right hand side, raw storage of the triangular matrix"], RM)
prop("P16", "PLE factorisations rebuild the input and report the exact rank",
     "For every matrix, every PLE entry point returns the exact rank and permutations, a lower triangular part and an echelon part from which the input is rebuilt exactly.",
     ["inputs", "configurations"], "all fields, shapes, ranks, pivot profiles and cutoffs, packed and bit-sliced",
     "tests use random matrices and default cutoffs and one polynomial per degree", ["src/ple.c", "src/ple.h", "src/newton_john.c"],
     [("mzed_ple_naive, mzed_ple, _mzed_ple", "src/ple.c, src/ple.h"), ("_mzd_slice_ple recursion", "src/ple.c"), ("mzed_ple_newton_john", "src/newton_john.c")],
     ["rank, permutations, packed L and E"], RM)
prop("P17", "PLUQ factorisations rebuild the input and report the exact rank",
     "For every matrix, the PLUQ factorisation returns the exact rank, a lower triangular L with nonzero diagonal, a unit upper triangular U and two permutations whose product rebuilds the input exactly.",
     ["inputs", "configurations"], "all fields, shapes, ranks, pivot profiles and cutoffs", "tests use random matrices with default cutoffs", ["src/ple.c", "src/ple.h"],
     [("_mzd_slice_pluq, mzd_slice_pluq", "src/ple.c, src/ple.h")], ["rank, permutations, packed L and U"], RM)
prop("P18", "Polynomials with matrix coefficients are multiplied and added exactly",
     "For polynomials over matrices over GF(2) with any numbers of coefficients and any conforming dimensions, every accumulating product (naive, balanced Karatsuba for equal lengths up to 16, bilinear map, Chinese remainder, evaluation in an extension field) adds exactly the product to the destination, or returns it if none was given; sums are stored at the given offset, comparison tells equal from different polynomials, changing the length keeps the remaining coefficients and fills up with zero, and the factors are left unchanged.",
     ["inputs", "configurations"], "all lengths (up to 16 for the fixed formulas), dimensions, coefficient matrices and destinations",
     "tests multiply a few balanced lengths with a fresh destination", ["src/mzd_poly.c", "src/mzd_poly.h", "src/karatsuba.c", "src/mzd_ptr.h", "src/blm.c"],
     [("_mzd_poly_addmul_naive/_karatsubs_balanced/_blm/_crt", "src/mzd_poly.h"), ("_mzd_poly_addmul_ext1", "src/mzd_poly.c"), ("mzd_poly_add, mzd_poly_cmp, _mzd_poly_adapt_depth", "src/mzd_poly.h"), ("Karatsuba formulas without a field (ff == NULL)", "src/karatsuba.c")],
     ["coefficients of the result and of the operands"], RM)
prop("P19", "Operations write only into their destination",
     "Every operation leaves its input operands bit for bit unchanged and, in its destination, changes only the elements of the destination view: nothing else of the storage behind a window, no padding beyond the last column, and never the unused high bits of an element.",
     ["inputs"], "all operations on packed and bit-sliced matrices, fields, dimensions and window positions (windows with a ragged right edge where the base library permits them)",
     "tests own their operands and compare results only; damage next to a window or in an input shows up later or never", ["src/mzed.c", "src/mzed.h", "src/mzd_slice.c", "src/mzd_slice.h", "src/newton_john.c", "src/conversion.c", "src/strassen.c", "src/ple.c", "src/trsm.inl", "src/permutation.h"],
     [("masks at the first and last word of a row (bitmask_begin/bitmask_end, high_bitmask)", "src/mzed.c, src/mzed.h, src/newton_john.h"), ("windows of parents with other data around them", "src/mzed.c, src/mzd_slice.h"), ("read-only operands of products, solves, conversions", "src/strassen.c, src/newton_john.c, src/conversion.c")],
     ["every word of the storage of every operand, before and after the call"],
     "runtime monitoring: word-by-word storage monitor around every call of the workloads of all matrix properties")
prop("P20", "Valid calls are memory safe, free of undefined behaviour and return",
     "On operands that satisfy the documented preconditions, every operation reads and writes only live memory inside its objects, never depends on uninitialised memory, has no undefined behaviour, violates none of its internal assertions, does not abort, and returns.",
     ["inputs", "histories"], "all operations, fields of degree 2..16, dimensions, windows, aliasing that is permitted",
     "tests run without instrumentation; an access past the end of a row or table usually has no visible effect", ["src/"],
     [("word loops with unrolled tails over rows", "src/mzed.c, src/mzed.h, src/newton_john.h"), ("table lookups indexed by elements", "src/newton_john.c, src/gf2e.c"), ("bit shuffling of partial words", "src/conversion_slice8.c, src/conversion_slice16.c, src/conversion_cling8.c, src/conversion_cling16.c"), ("recursive splitting", "src/trsm.inl, src/ple.c, src/strassen.c")],
     ["sanitizer and memcheck reports, abort(), CPU time"],
     "runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck and library assertions over the workloads of all properties")
prop("P21", "Every resource is released: no operation leaks",
     "Repeating any operation any number of times with the objects the caller owns released in between keeps the number of live heap allocations bounded: every temporary, window, table, permutation and map an operation creates is released before it returns.",
     ["inputs", "histories"], "all operations that return normally, on all fields and dimensions",
     "no test looks at the allocator", ["src/"],
     [("temporaries and windows of the recursive algorithms", "src/ple.c, src/trsm.inl, src/strassen.c, src/echelonform.c"), ("tables of the Newton-John algorithms", "src/newton_john.c"), ("maps and intermediate products", "src/blm.c, src/mzd_slice.h, src/mzd_poly.c, src/conversion.h"), ("field tables", "src/gf2e.c")],
     ["heap blocks alive before and after a repetition, counted in malloc/free"],
     "runtime monitoring: allocation balance counted by malloc/free hooks over repeated executions")
prop("P22", "Operands that do not fit are rejected before anything is written",
     "Products, accumulating products and sums (packed and bit-sliced), packed copies, concatenation, stacking and submatrix extraction called with operands whose dimensions or fields do not fit, or with a destination of the wrong dimensions or field, end in the library's fatal error before any operand is modified; operands that fit are never rejected. Requests beyond what the library offers (Karatsuba products of polynomials with more than 16 coefficients, products of binary polynomials with a bound over 32 bits, matrices over a field of degree 1 in packed form, CRT schemes that do not determine the product or ask for more pairwise coprime moduli of a degree than there are) end in the fatal error too; requests at these limits are served.",
     ["inputs"], "one mismatch at a time in inner dimension, field of a factor, rows, columns or field of the destination", "tests never call with operands that do not fit",
     ["src/mzed.c", "src/mzd_slice.c", "src/mzd_slice.h", "src/conversion.h"],
     [("_mzed_mul_init and the checks of the individual entry points", "src/mzed.c, src/mzed.h, src/conversion.h, src/mzd_slice.h"), ("mzed_concat, mzed_stack, mzed_submatrix, mzed_copy, mzed_add", "src/mzed.c"), ("mzd_slice_concat/stack/submatrix/add", "src/mzd_slice.h")],
     ["fatal error (abort), storage of the operands"], "runtime monitoring: trap on the library's fatal error plus storage monitor")
prop("P23", "Results depend only on the operands, not on the calls before",
     "In any sequence of operations on a population of packed and bit-sliced matrices over several fields in use at the same time, every operation gives the result it would give on fresh copies of its operands, every matrix that is not a destination keeps its value, and objects created and released in between make no difference.",
     ["histories"], "all sequences of operations over matrices of conforming dimensions and several fields, including fields of equal degree with different polynomials", "tests run one operation on fresh matrices over one field at a time",
     ["src/mzed.c", "src/mzd_slice.h", "src/newton_john.c", "src/gf2e.c", "src/conversion.c", "src/ple.c"],
     [("state hidden in padding bits, tables and reused destinations", "src/mzed.c, src/newton_john.c, src/conversion.c"), ("per-field tables", "src/gf2e.c")],
     ["all elements of all matrices after each step"], "runtime monitoring: online comparison of long random operation histories with a shadow model")
prop("P24", "Newton-John tables hold every multiple of their row, also when reused",
     "Building a table from a row and start column, new or by reusing an existing table built anywhere else, makes its rows exactly all multiples of that row from the start column on (zero in the columns before it, at least up to 8 words away), indexed by the field element; processing rows with 1 to 6 tables of consecutive rows and columns adds to each row in the range, table by table, exactly the multiple selected by the entry it held in that table's column, and touches no other row.",
     ["inputs", "histories"], "all fields, rows, start columns, sequences of reuse, row ranges, 1..6 tables", "tables are tested only through complete eliminations of random matrices",
     ["src/newton_john.c", "src/newton_john.h"],
     [("mzed_make_table", "src/newton_john.c"), ("mzed_process_rows, mzed_process_rows2..6", "src/newton_john.h, src/newton_john.c")],
     ["table rows, index L, processed rows"], RM)
prop("P25", "Randomisation fills exactly the matrix with arbitrary field elements",
     "Randomising a packed or bit-sliced matrix or window stores valid elements, every element of the field and every bit at every position can occur, with each bit set about half of the time and no bit determined by the others through a fixed linear relation, successive randomisations differ, and no storage outside the view changes.",
     ["inputs", "histories"], "all fields, dimensions and windows; frequencies over repeated calls", "tests use random matrices but never look at them",
     ["src/mzed.c", "src/mzd_slice.h"], [("mzed_randomize", "src/mzed.c"), ("mzd_slice_randomize", "src/mzd_slice.h")], ["elements over repeated calls, raw storage"],
     "runtime monitoring: statistical and storage monitors over repeated calls (false alarm probability below 2^-50)")
prop("P26", "New objects are well formed, windows are live views, copies independent",
     "A new matrix, table or polynomial has the requested dimensions and field and is zero, whatever memory it reuses; a window, also of a window, shows and changes exactly the elements of its parent it covers, and releasing it in any order leaves the parent intact; a copy shares nothing with its original; changing the number of slices of a bit-sliced matrix keeps the others and adds zero ones of the same shape; fields live side by side, each determined by its polynomial, and releasing one does not affect another.",
     ["inputs", "histories"], "all fields, dimensions, window nestings and release orders", "tests never nest windows, never modify copies and hold one field at a time",
     ["src/mzed.c", "src/mzed.h", "src/mzd_slice.h", "src/mzd_poly.h", "src/newton_john.c", "src/gf2e.c"],
     [("mzed_init, mzed_init_window", "src/mzed.c, src/mzed.h"), ("mzd_slice_init, mzd_slice_init_window", "src/mzd_slice.h"), ("njt_mzed_init, mzd_poly_init, gf2e_init", "src/newton_john.c, src/mzd_poly.h, src/gf2e.c")],
     ["headers, raw storage, elements seen through every view"], RM)
prop("P27", "Printing shows every element",
     "Printing a packed or bit-sliced matrix or window writes one bracketed line per row with the hexadecimal value of every element in order, separated by blanks, and changes nothing.",
     ["inputs"], "all fields, dimensions, contents and windows", "no test looks at printed output", ["src/mzed.c", "src/mzd_slice.c"],
     [("mzed_print", "src/mzed.c"), ("mzd_slice_print", "src/mzd_slice.c")], ["standard output"], "runtime monitoring: captured output parsed back and compared with the matrix")
prop("P28", "Bilinear maps compute the product they are built for, for any scheme",
     "For any two lengths and any scheme of coprime moduli of sufficient total degree, the bilinear map built from it computes exactly the product of two polynomials with that many coefficients, or that product reduced modulo the field polynomial if a field is given, with exactly the number of products the scheme costs; compiled and matrix form give the same result; the default scheme is sufficient; building and releasing maps is safe for every length.",
     ["inputs", "configurations"], "all pairs of lengths (1..16, samples up to 24), schemes, fields; all monomial pairs", "tests use maps only through square products of a few degrees",
     ["src/blm.c", "src/blm.h"],
     [("crt_init, blm_init_crt, _blm_finish_polymult, _crt_modred_mat", "src/blm.c"), ("_mzd_ptr_apply_blm_mzd, _mzd_ptr_apply_blm_djb", "src/blm.c")], ["matrices F, G, H of the map and results of applying it"], RM)
prop("P29", "Tuning parameters and algorithm choice never change a result",
     "Strassen products with any cutoff (0 meaning the default), triangular solves and PLE or PLUQ factorisations with any recursion cutoff, and echelon forms and products through any algorithm give the same result, and terminate, for every choice of the parameter.",
     ["inputs", "configurations"], "Strassen cutoff 0 or >= 65, solve cutoffs >= 1, factorisation cutoffs >= 0, all entry points; fields, dimensions",
     "tests use default cutoffs and sizes below them", ["src/strassen.c", "src/trsm.inl", "src/ple.c", "src/echelonform.c", "src/mzed.c"],
     [("cutoff handling", "src/strassen.c, src/trsm.inl, src/ple.c"), ("dispatchers mzed_mul, mzed_addmul, mzed_echelonize, mzd_slice_mul", "src/mzed.c, src/echelonform.c, src/mzd_slice.h")],
     ["results for all settings"], "runtime monitoring: differential comparison across parameter settings, anchored to the reference model")
prop("P30", "Operations on lists of matrices over GF(2) are exact, reduced or not",
     "Karatsuba products of lists of 2 to 16 matrices over GF(2) add exactly the product of the two polynomials to the result list, unreduced without a field and reduced modulo the field polynomial with a field of at least that degree; adding a matrix to one or several powers of x (with or without reduction), sums of lists of any length, also in place, and sums of many matrices are exact; a compiled linear map gives, for every nonzero row of its matrix, exactly the sum of the selected matrices whatever the destination held before; operands and storage around them do not change.",
     ["inputs", "configurations"], "all list lengths, all fields of at least that degree or none, all powers up to 2*degree-2, all linear maps up to 40x40, windows", "tests reach these only through products whose list length equals the degree of the first field of that degree, never unreduced, never with other maps",
     ["src/mzd_ptr.h", "src/mzd_ptr.c", "src/karatsuba.c", "src/m4ri_functions.h"],
     [("_mzd_ptr_addmul_karatsuba2..16", "src/karatsuba.c"), ("_mzd_ptr_add_modred, _mzd_ptr_add_to_all, _mzd_ptr_add", "src/mzd_ptr.h"), ("djb_apply_mzd_ptr", "src/mzd_ptr.c"), ("mzd_sum", "src/m4ri_functions.h")], ["result lists, operand lists, storage around windows"], RM)

prop("P31", "Operations stay exact beyond 2^31 bits or entries",
     "For matrices with more than 2^31 bits or more than 2^31 entries in total, whether wide or tall (also when their storage is split into several blocks), and for single rows of nearly 2^31 bits, element access, comparison, sums, copies, scalar multiples, conversion, products with a small matrix, echelon forms, blocks, windows, concatenation, stacking, row and column operations, permutations, triangular solves and scalar matrices give exactly the result they give for small matrices, without integer overflow in the computation of sizes, positions or thresholds.",
     ["inputs", "configurations"], "all fields, all shapes up to rows of 2^31-128 bits and 2^32 bits in total", "tests stop at matrices of some hundred rows and columns; sizes computed in int only overflow beyond 2^31",
     ["src/mzed.c", "src/mzed.h", "src/mzd_slice.h", "src/mzd_slice.c", "src/newton_john.c", "src/echelonform.c", "src/ple.c", "src/conversion.c"],
     [("size thresholds in mzed_mul_scalar, mzed_echelonize, mzed_echelonize_newton_john, _mzed_ple", "src/mzed.c, src/echelonform.c, src/newton_john.c, src/ple.c"), ("mzed_read_elem/mzed_write_elem positions", "src/mzed.h")], ["every word of the results"], RM)
