#!/usr/bin/env python3
"""Writes properties.jsonl, functions.json and MANIFEST.json from one table."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = "The existing tests check a handful of fixed small matrices"
P = []


def prop(id, title, statement, text, why, files, mech, funcs, assume=(), over=("inputs",), observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, funcs=funcs,
                  assume=list(assume), over=list(over), observe=list(observe), state=list(state), hook=hook))


prop("C01", "COO to CSR/CSC conversion is canonical and sums duplicates",
     "Converting any triplet matrix, with entries in any order and with any duplicates, to CSR or CSC yields a structurally valid matrix of the same shape whose rows (columns) are strictly ordered without duplicates, and whose every entry is the sum of all triplets at that position. The raw conversion kernel keeps every triplet in its row.",
     "every shape, every list of in-range triplets (any order, duplicates, zero values), every index type wide enough for the shape and count",
     TESTS + " (one with duplicates); the claim quantifies over every order and multiplicity of triplets, empty rows and columns, and index types.",
     ["src/coo/coo.rs", "src/coord.rs", "src/row.rs", "src/csr/csr.rs"],
     [("conversion kernel and duplicate summation", "src/coord.rs coo_tocsr; src/coo/coo.rs to_csr, to_csc; src/csr/csr.rs sum_duplicates")],
     ["coo::Coo::{new,to_csr,to_csc}", "coo_tocsr", "csr::CSR::sum_duplicates", "csc::CSC::sum_duplicates", "csr_sort_indices", "csr_sum_duplicates", "csr_has_canonical_format"],
     state=[("rowptr/colidx/values", "compressed arrays: pointers from 0 to nnz, one minor index and value per entry", "src/csr/csr.rs")])
prop("C02", "Compressed-format conversions preserve the matrix",
     "Converting between CSR, CSC and COO preserves shape, every stored entry (explicit zeros and duplicates included) and hence the matrix, gives structurally valid results, and leaves the source alone. Converting CSR to CSC and back is the identity on sorted matrices.",
     "every well-formed compressed matrix: any entry order, duplicates, empty rows, arrays longer than the number of entries",
     TESTS + "; the claim is over every structure, including spare array space that the constructors allow.",
     ["src/csr/csr.rs", "src/csc/csc.rs", "src/row.rs", "src/col.rs"],
     [("counting-sort transposition kernel, pointer expansion", "src/row.rs csr_tocsc, csr_tocoo, expandptr; src/col.rs csc_tocsr")],
     ["csr::CSR::{to_coo,to_csc}", "csc::CSC::{to_coo,to_csr}", "csr_tocsc", "csc_tocsr", "csr_tocoo", "expandptr"])
prop("C03", "Dense conversion round-trips exactly",
     "Building any format from a dense matrix stores exactly its non-zero entries, each once, in a valid structure of the same shape. Expanding any format to dense, or accumulating it into a dense buffer, yields at every position the sum of the stored entries there.",
     "every dense matrix over every zero/non-zero pattern; every sparse matrix incl. duplicates",
     TESTS + "; the claim is over every zero pattern and every duplicate structure, and shapes with no rows or columns.",
     ["src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs", "src/dok/dok.rs", "src/coord.rs", "src/row.rs"],
     [("dense scans that skip zeros; dense accumulation", "from_dense/to_dense of each format; csr_todense, coo_todense")],
     ["csr::CSR::from_dense", "csc::CSC::{from_dense,to_dense}", "coo::Coo::{from_dense,to_dense}", "dok::DoK::{from_dense,to_dense,get}", "csr_todense", "coo_todense"])
prop("C04", "Canonicalisation preserves the matrix",
     "Sorting indices, summing duplicates, eliminating zeros and pruning spare space never change the matrix a compressed structure denotes. Afterwards the structure really is sorted, free of duplicates (with each position that was stored still stored once), free of zeros, or free of spare space, respectively, and remains valid.",
     "every well-formed compressed matrix: any order, duplicates, zeros, spare array space",
     TESTS + "; the claim is over every permutation and duplicate multiplicity within rows.",
     ["src/csr/csr.rs", "src/csc/csc.rs", "src/row.rs"],
     [("in-place compaction kernels", "src/row.rs csr_sort_indices, csr_sum_duplicates, csr_eliminate_zeros; CSC::prune")],
     ["csr::CSR::{sort_indexes,sum_duplicates}", "csc::CSC::{sort_indexes,sum_duplicates,prune}", "csr_sort_indices", "csr_sum_duplicates", "csr_eliminate_zeros"])
prop("C05", "Sortedness and canonical-format predicates are exact",
     "The sortedness predicate answers yes exactly when minor indices never decrease within any row (column); the canonical-format predicate exactly when they strictly increase and row pointers never decrease. Neither panics on any well-formed input.",
     "every well-formed structure; for the kernel also pointers in any order",
     TESTS + "; other operations choose fast paths by these answers, so a wrong answer for any structure corrupts results.",
     ["src/csr/csr.rs", "src/csc/csc.rs", "src/row.rs"],
     [("linear scans over adjacent entries", "src/row.rs csr_has_sorted_indices, csr_has_canonical_format")],
     ["csr::CSR::{has_sorted_indexes,has_canonical_format}", "csc::CSC::{has_sorted_indexes,has_canonical_format}", "csr_has_sorted_indices", "csr_has_canonical_format"])
prop("C06", "Addition and subtraction are exact and shape-checked",
     "The sum (difference) of two matrices of one format and equal shape is the entry-wise sum (difference), in a valid structure without duplicates, stored zeros or unused entries; operands are unchanged and owned and borrowed forms agree. Operands of different shapes are refused.",
     "every pair of matrices incl. non-canonical ones, duplicates, cancellation, spare space; every pair of shapes",
     TESTS + "; the claim is over every overlap pattern of two structures, both internal algorithms, and cancellation to zero.",
     ["src/csr/std_ops.rs", "src/csc/std_ops.rs", "src/csc/csc.rs", "src/coo/std_ops.rs", "src/row.rs"],
     [("operator impls over the binary-operation kernels", "std_ops.rs; src/row.rs csr_add_csr, csr_sub_csr, csr_binop_csr_*")],
     ["Add/Sub for CSR, CSC, Coo (all owned/borrowed forms)", "csc::CSC::{add,subtract}", "csr_add_csr", "csr_sub_csr", "csr_binop_csr", "csr_binop_csr_general", "csr_binop_csr_canonical", "traits::Nonzero::nonzero of every concrete type"])
prop("C07", "Element-wise binary kernels apply the operation everywhere",
     "Each element-wise kernel (comparisons, product, quotient, sum, difference, maximum, minimum, caller-supplied operation) stores, for every position occupied in either operand, exactly the operation's result on the two entries when that is non-zero, and nothing else, without duplicate positions. The fast path for canonical operands and the general path denote the same matrix.",
     "every pair of equally shaped structures, canonical or not, every value; every operation",
     "No existing test calls the comparison, product, quotient, maximum or minimum kernels at all; the claim is over every overlap of two rows and both algorithms.",
     ["src/row.rs"],
     [("merge of two ordered rows; linked-list scatter for unordered rows", "src/row.rs csr_binop_csr_canonical, csr_binop_csr_general")],
     ["csr_binop_csr", "csr_binop_csr_general", "csr_binop_csr_canonical", "csr_{ne,eq,lt,le,gt,ge}_csr", "csr_{mul,div,add,sub,max,min}_csr"],
     assume=["operations f with f(0,0)!=0 are only evaluated on positions stored in an operand, as documented by the sparse kernels", "quotients: the operation is modelled as a total function of the two operands (engine division), compared with the same function in the oracle", "values carried at 3 bits where products are involved"])
prop("C08", "Matrix-vector products equal the mathematical product",
     "Multiplying any matrix of any format by a vector of length equal to the column count gives row sums of entry times component, duplicates included; the accumulating kernels add that to the given output, also for blocks of vectors. Vectors of any other length are refused.",
     "every well-formed matrix incl. non-canonical, duplicates, spare space; every vector; every initial output; every block width",
     TESTS + "; the claim is over every structure, rectangular and empty shapes, and arbitrary initial output contents.",
     ["src/csr/csr.rs", "src/csc/csc.rs", "src/row.rs", "src/col.rs", "src/coord.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs"],
     [("accumulation loops", "csr_matvec(s), csc_matvec(s), coo_matvec")],
     ["csr::CSR::mat_vec", "csc::CSC::mat_vec", "Mul<vector> for CSR, CSC (all forms)", "csr_matvec", "csc_matvec", "csr_matvecs", "csc_matvecs", "coo_matvec"])
prop("C09", "Matrix-matrix products equal the mathematical product",
     "The product of two matrices with matching inner dimension is the mathematical product, in a valid structure without duplicates, stored zeros or unused entries, for CSR, CSC and CSC times CSR, owned or borrowed. The size predictor counts exactly the structurally reachable positions, and mismatched inner dimensions are refused.",
     "every pair of well-formed structures incl. duplicates, unsorted rows, cancellation, rectangular and empty shapes",
     "One existing test multiplies one fixed pair; the claim is over all structures and cancellations.",
     ["src/csr/csr.rs", "src/csc/csc.rs", "src/row.rs", "src/col.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs"],
     [("linked-list row accumulation and two-pass sizing", "src/row.rs csr_matmat, csr_matmat_maxnnz; src/col.rs csc_matmat")],
     ["csr::CSR::mat_mat", "csc::CSC::mat_mat", "Mul for CSR*CSR, CSC*CSC, CSC*CSR (all forms)", "csr_matmat", "csr_matmat_maxnnz", "csc_matmat", "csc_matmat_maxnnz"],
     assume=["values carried at 3 bits (products of symbolic values)"])
prop("C10", "Scaling and negation act on every entry",
     "Multiplying a matrix by a scalar, scaling its rows or columns by a vector, and negating it change every entry accordingly, keep the shape and a valid structure, and leave borrowed operands alone.",
     "every well-formed matrix incl. duplicates and spare space, every scalar and vector",
     "No existing test scales or negates a compressed matrix; the claim is over all structures and values.",
     ["src/csr/std_ops.rs", "src/csc/std_ops.rs", "src/coo/std_ops.rs", "src/row.rs"],
     [("operator impls; scaling kernels", "std_ops.rs; csr_scale_rows, csr_scale_columns")],
     ["Mul<scalar>/Neg for CSR, CSC, Coo", "Mul<CSR/CSC> for Complex64", "csr_scale_rows", "csr_scale_columns"],
     assume=["Complex64 times matrix: structure symbolic, complex values fixed distinct constants"])
prop("C11", "Transposition is exact and involutive",
     "Transposing swaps the shape and moves entry (i,j) to (j,i), keeping every stored entry, in every format and for both the consuming and the copying form; doing it twice restores the matrix, and the copying form leaves the source alone.",
     "every well-formed matrix of every shape",
     TESTS + "; the claim is over all structures and rectangular/empty shapes.",
     ["src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs"],
     [("reinterpretation of the arrays in the other format", "t/transpose of each format")],
     ["csr::CSR::{t,transpose}", "csc::CSC::{t,transpose}", "coo::Coo::{t,transpose}"])
prop("C12", "Selection and element access return the right entries",
     "Selecting rows and columns by index lists (any order, repeats; or all) from a canonical matrix yields the matrix of those rows and columns in that order, canonical; out-of-range indices and non-canonical matrices are refused. Reading one element returns the sum of the entries stored there, zero if none.",
     "every canonical matrix, every pair of index lists; for element access every well-formed matrix and position",
     "One existing test selects from one matrix; the claim is over all index lists with repeats and permutations.",
     ["src/csr/csr.rs", "src/csc/csc.rs", "src/row.rs"],
     [("per-row search of requested columns; validation", "CSR::select, CSC::select, csr_select; CSR::get")],
     ["csr::CSR::{select,get}", "csc::CSC::select", "csr_select", "csr_has_canonical_format"])
prop("C13", "Slicing and indexing kernels copy exactly the requested part",
     "The submatrix kernel copies exactly the window's entries, renumbered, whatever its output buffers held; the row-index and row-slice kernels append exactly the requested rows' entries in order; the two-pass column-index kernels deliver exactly the requested columns in order.",
     "every well-formed matrix incl. duplicates and spare space; every window, row list, slice step and column list",
     "No existing test calls these kernels.",
     ["src/row.rs"],
     [("window filters and offset tables", "get_csr_submatrix, csr_row_index, csr_row_slice, csr_column_index1/2")],
     ["get_csr_submatrix", "csr_row_index", "csr_row_slice", "csr_column_index1", "csr_column_index2"])
prop("C14", "Diagonals, triangles and special matrices are exact",
     "The diagonal accessors return, for every diagonal number including ones outside the matrix, exactly the entries there with duplicates added; the upper triangle keeps exactly the entries with column minus row at least k. Matrices built from a diagonal, the identity and empty matrices denote what they say and have valid structure.",
     "every well-formed matrix, every diagonal offset including the extremes of the offset type, every index type",
     TESTS + " of the main diagonal; the claim is over all offsets and duplicate structures.",
     ["src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs", "src/row.rs", "src/col.rs"],
     [("diagonal scan; triangle filter", "csr_diagonal, csc_diagonal, Coo::diagonal, Coo::upper, with_diagonal, identity, with_size")],
     ["csr::CSR::{diagonal,with_diagonal,with_size}", "csc::CSC::{diagonal,with_diagonal}", "coo::Coo::{diagonal,upper,identity,with_diagonal,with_size}", "csr_diagonal", "csc_diagonal"],
     assume=["lower diagonals k<0 of the upper-triangle filter only for signed index types"])
prop("C15", "Stacking and block composition assemble the blocks",
     "Stacking matrices side by side or on top of each other, two or three at a time, and composing 2x2 or 3x3 blocks yields the block matrix of the summed shape with every stored entry kept, in a valid structure. Blocks whose dimensions do not match (heights within a band of blocks, widths or band totals across) are refused, and matching ones always accepted.",
     "every combination of block shapes (matching or not, empty included) and contents",
     TESTS + " (two- and three-way stacking of fixed blocks); the claim is over all block shapes, including empty blocks and mismatches.",
     ["src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/row.rs"],
     [("index shifting and dimension checks", "Coo::h_stack, v_stack, h_stack3, v_stack3, compose, compose3; CSR::h_stack, csr_hstack; CSC::compose")],
     ["coo::Coo::{h_stack,v_stack,h_stack3,v_stack3,compose,compose3}", "csr::CSR::h_stack", "csr_hstack", "csc::CSC::compose"])
prop("C16", "Dictionary-of-keys follows its update history",
     "After any sequence of set, add and subtract operations, every element reads as the last set value plus the following additions minus subtractions (zero if never written); updates outside the shape fail and change nothing; the entry count is the number of non-zero elements. All conversions denote the same matrix.",
     "every history of updates with every in-range and out-of-range index and every value, zero included",
     "No existing test touches this format; the claim quantifies over histories (overwriting, cancelling to zero, re-adding).",
     ["src/dok/dok.rs"],
     [("hash-map entry updates that drop zeros", "DoK::{set,add,sub,get}")],
     ["dok::DoK::{new,with_capacity,set,add,sub,get,nnz,rows,cols,to_dense,to_coo,to_csr,to_csc}", "Deref to HashMap"],
     over=("inputs", "histories"), assume=["histories of up to 3 (quick) or 3-4 (thorough) updates"])
prop("C17", "Constructors validate and triplet building appends",
     "The constructors accept exactly arrays that are consistent with the shape (pointer array one longer than the major dimension, arrays at least as long as the last pointer; equally long triplet arrays) and keep them unchanged. Pushing and extending append triplets in order, and writing through the value slice changes exactly that entry.",
     "every combination of array lengths and pointer contents; every interleaving of pushes and an extension",
     TESTS + " of accepted arguments; the claim is over every inconsistent combination.",
     ["src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs"],
     [("length checks", "CSR::new, CSC::new, Coo::new, push, extend, values_mut")],
     ["csr::CSR::new", "csc::CSC::new", "coo::Coo::{new,with_size,with_capacity,push,extend,values_mut}", "all accessors"])
prop("C18", "Weak components partition nodes by undirected connectivity",
     "Weakly connected components (and components of an undirected reading) label two nodes alike exactly when a path connects them ignoring direction, with labels exactly 0 to the returned count minus one. The graph is unchanged and non-square matrices are refused.",
     "every directed graph incl. self-loops, duplicate edges, isolated nodes, explicit zeros, spare space",
     "Two existing tests use fixed graphs; the claim is over all graphs.",
     ["src/graph.rs"],
     [("traversal over the graph and its transpose with an intrusive stack", "src/graph.rs _connected_components_undirected")],
     ["graph::connected_components (weak/undirected)", "graph::_connected_components_undirected", "csr::CSR::{t,to_csc}"])
prop("C19", "Strong components partition nodes by mutual reachability",
     "Strongly connected components label two nodes alike exactly when each can reach the other, with labels exactly 0 to the returned count minus one. This holds with self-loops, duplicate edges and no nodes at all, and non-square matrices are refused.",
     "every directed graph incl. self-loops, duplicate edges, isolated nodes, spare space",
     "Two existing tests use fixed graphs; the algorithm reuses arrays as stacks and low-links, so its errors need particular edge orders.",
     ["src/graph.rs"],
     [("non-recursive Pearce algorithm with shared arrays", "src/graph.rs _connected_components_directed")],
     ["graph::connected_components (strong)", "graph::_connected_components_directed"])
prop("C20", "Depth-first order visits exactly the reachable nodes",
     "A depth-first traversal lists the start node first and exactly the nodes reachable from it, each once, in an order that some depth-first search produces; every other listed node has a predecessor listed before it with an edge to it, and unlisted nodes and the start have none. This holds for directed and undirected readings.",
     "every graph and every start node, directed and undirected",
     "One documentation example; the claim is over all graphs and start nodes.",
     ["src/graph.rs"],
     [("explicit stack threaded through an array", "src/graph.rs depth_first_order, _depth_first_directed, _depth_first_undirected")],
     ["graph::depth_first_order", "graph::_depth_first_directed", "graph::_depth_first_undirected"])
prop("C21", "Component flagging of symmetric graphs is exact",
     "On a symmetric graph the component routine of the CSR type gives two nodes the same flag exactly when they are connected, numbers the components from 0 without gaps, returns their number, and marks exactly the nodes without entries as isolated.",
     "every symmetric graph incl. self-loops, duplicate edges, isolated nodes, no edges",
     "One existing test uses one graph; the claim is over all symmetric graphs.",
     ["src/graph.rs", "src/csr/csr.rs"],
     [("breadth marking with position stack", "src/graph.rs cs_graph_components; CSR::connected_components")],
     ["csr::CSR::connected_components", "graph::cs_graph_components"])
prop("C22", "Text renderings list exactly the stored entries",
     "The textual listing of a matrix has one line per stored entry with its row, column and value, in storage order; the table rendering shows every stored value in its cell and a dash elsewhere. Real and complex values are rendered with the right sign.",
     "every structure of every format; rendered values are numbers of six concrete types; the text of a real number for every bit pattern",
     "No existing test checks rendered text; the claim is over all structures.",
     ["src/csr/csr.rs", "src/csr/table.rs", "src/csc/csc.rs", "src/coo/coo.rs", "src/dok/dok.rs", "src/traits.rs"],
     [("row-wise formatting", "to_string of each format; csr_table; Scalar::pretty_string")],
     ["csr::CSR::{to_string,to_table}", "csc::CSC::to_string", "coo::Coo::to_string", "dok::DoK::to_string", "csr::table::csr_table", "Scalar::pretty_string"],
     assume=["number formatting itself (pretty_dtoa, tabwriter) runs concretely on the fixed values"])
prop("C23", "Complex views and Hermitian transposes are exact",
     "For a complex matrix of any format, the real and imaginary views, the conjugate and the conjugate transpose hold exactly the corresponding parts of every entry at the right position, in a valid structure of the right shape; complex matrices built from real or imaginary parts hold exactly those.",
     "every structure incl. duplicates and spare space, every complex value",
     TESTS + " of two conversions; the claim is over all structures.",
     ["src/csr/ccsr.rs", "src/csc/ccsc.rs", "src/coo/ccoo.rs", "src/traits.rs"],
     [("entry-wise maps", "CCSR, CCSC, CCoo trait impls; Complex trait")],
     ["csr::CCSR::{conj,real,imag,h,with_real,with_imag}", "csc::CCSC::{conj,real,imag,h}", "coo::CCoo::{conj,real,imag,h}"],
     assume=["complex numbers are a pair of symbolic values implementing the crate's Complex trait"])
prop("C24", "Structural kernels count and expand exactly",
     "The diagonal counter returns the number of occupied diagonals; the pointer expansion writes to each stored entry its row and touches nothing beyond the stored entries; the triplet expansion copies the stored entries in order with their rows.",
     "every well-formed structure incl. rectangular, duplicates, spare space; arbitrary prior buffer contents",
     "No existing test calls the diagonal counter or the expansion kernels directly.",
     ["src/row.rs"],
     [("diagonal bitmap; pointer loops", "csr_count_diagonals, expandptr, csr_tocoo")],
     ["csr_count_diagonals", "expandptr", "csr_tocoo"])
prop("C25", "Results do not depend on the width of the index type",
     "Every operation gives the same correct result, without overflow, for the narrowest index type, signed or unsigned, that can represent the shape and the number of entries.",
     "every operation, every structure filling an index type up to its largest value",
     "The existing tests only use wide index types on tiny matrices, so the largest index value never occurs.",
     ["src/row.rs", "src/col.rs", "src/coord.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs", "src/graph.rs", "src/dok/dok.rs"],
     [("generic index arithmetic", "every kernel generic in Integer")],
     ["all of the above at index types 0..3, 0..7 and -8..7"],
     over=("inputs", "configurations"), assume=["index types are models of the Integer trait with the stated range and overflow checks, e.g. 0..7 behaves as an unsigned 3-bit type"])
prop("C27", "Kernel results ignore what output arrays held before",
     "What a low-level kernel writes for a given input does not depend on the prior contents of the output arrays it is handed, nor on the index and value arrays being longer than necessary. Kernels that accumulate add to what was there exactly once.",
     "every input and every prior content of the output arrays of the conversion, product, element-wise, selection, window, expansion and column-picking kernels",
     "The existing tests always hand over fresh zero arrays of the exact length; the claim is over every content and spare length.",
     ["src/row.rs", "src/col.rs", "src/coord.rs"],
     [("initialisation and sizing of output arrays", "csr_tocsc, coo_tocsr, csr_matmat, csr_binop_csr_*, csr_select, get_csr_submatrix, csr_tocoo, expandptr, csr_column_index1/2")],
     ["csr_tocsc", "csc_tocsr", "coo_tocsr", "csr_matmat", "csc_matmat", "csr_add_csr", "csr_binop_csr_general", "csr_select", "get_csr_submatrix", "csr_tocoo", "expandptr", "csr_column_index1", "csr_column_index2", "csr_todense", "coo_todense", "csr_matvec", "csr_matvecs", "csc_matvec", "csc_matvecs", "coo_matvec"],
     assume=["pointer arrays have exactly the documented length"])
prop("C26", "Eigen-solver results satisfy the eigenvalue equation",
     "With the eigs feature, the eigenvalues and eigenvectors returned for a matrix satisfy the eigenvalue equation to the requested tolerance.",
     "every matrix and every solver parameter",
     "No existing test runs the solver.",
     ["src/eigen/real.rs"], [("reverse communication with ARPACK", "src/eigen/real.rs")], [])

NA = {"C26": "The computation is ARPACK (Fortran) behind FFI on floating-point data with reverse communication; there is no source or intermediate representation of it here to execute symbolically, and floating-point convergence is outside what the solver can decide."}

NOTE = ("Exhaustive symbolic execution of the compiled crate (generic code instantiated with solver-term index and value types): every feasible path within the bounds listed in the evidence is enumerated, "
        "each obligation is decided by z3 for all values on the path; counterexamples are replayed natively before being reported. "
        "Trusted: rustc, z3, the term types' faithful implementation of the numeric traits (each run re-executes path witnesses natively and gives a sample of the queries to cvc5 / a newer z3). "
        "Nothing is claimed beyond the bounds; values are wrapping integers, not floats (but see concrete number types, where present).")

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"] or ["public API of the listed files"], "hook_needed": p["hook"]}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        f.write(json.dumps(d) + "\n")
with open(os.path.join(H, "functions.json"), "w") as f:
    json.dump({p["id"]: {"functions": p["funcs"], "assumptions": p["assume"]} for p in P}, f, indent=1)
    f.write("\n")
KT = "exhaustive bounded symbolic execution of the compiled crate, decided by z3; bit-precise model checking (Kani/CBMC) of the concrete number types"
KN = " For the concrete number types, Kani harnesses (kani/) decide the trait implementations for every bit pattern; failures are replayed natively."
extra = {k: {"technique": KT, "note": KN} for k in ("C06", "C07", "C10", "C22", "C23")}
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: harnesses use only its public API. See DESIGN.md."}
for p in P:
    if p["id"] in NA:
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"],
                        "technique": extra.get(p["id"], {}).get("technique", "exhaustive bounded symbolic execution of the compiled crate, decided by z3"),
                        "level": "model_checking", "level_note": NOTE + extra.get(p["id"], {}).get("note", "")})
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
