#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,
                   **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))

M="include/matrix/"
p("C01","SpMV adds exactly A*x to y in every storage format",
 "Multiplying a matrix held in any supported storage format (COO variants, CSR, CSR2, compressed-row CSR, wide-row, CSBR, CSBR2, CGBR, CGBR2, dense, and every in-block format) with a vector x adds, to every element of y, exactly the sum over all stored entries of value times the matching x element, including repeated coordinates, explicit zeros, empty rows and matrices without entries. All formats built from the same entries therefore give the same y. Nothing but y is modified: x, the matrix and memory outside y keep their contents.",
 ["inputs","configurations"],
 "All matrices (shape, entry order, duplicates, zeros, no entries), all vectors with exactly representable arithmetic, all block/wide-row/offset choices, all value, index and short-index types.",
 "The result program multiplies 13 random square matrices once per format into zeroed vectors and compares with CSR up to what it prints; it never uses rectangular, duplicate, empty, hypersparse or very small inputs, non-zero y, uneven or empty blocks.",
 [M+f for f in ("coo.1.h","coo.2.h","coo.3.h","csr.1.h","csr.2.h","crcsr.h","cswr.h","csbr.h","csbr.2.h","cgbr.h","cgbr.2.h","dense.h","blocks.h","block_coo.1.h","block_coo.2.h","block_csr.h")]+["include/spmv/"],
 [("format kernels","include/spmv/*.h, include/spmv/omp/*.h"),("blocked traversal","spmv_blocked/spmv_balanced/spmv_chunk in include/spmv/omp/gsb.h")],
 ["spmv(x,y) member functions", "spmv/spmv_serial for compressed-row CSR"],
 [("y","result vector","caller"),("entries","multiset of (row, column, value)","the matrix object")])

p("C02","Parallel SpMV is race free and independent of the schedule",
 "For any number of workers and any order in which loop iterations and tasks are executed, two steps of a multiplication that are not ordered by the fork/join, task and wait structure never touch the same memory with one of them writing, and no step touches freed memory. The vector produced is the one sequential execution produces. This also holds when a block-row is split into chunks that run as tasks with partial results.",
 ["schedules","inputs","configurations"],
 "Every interleaving of parallel loops and tasks for 1..N workers, balanced and unbalanced blocked matrices, every block kind.",
 "The tests run with 1 and 4 threads under whatever schedule the machine picks; a missing wait or a shared temporary shows up only under rare interleavings.",
 ["include/spmv/omp/gsb.h","include/spmv/omp/csr.h","include/spmv/omp/crcsr.h","include/spmv/omp/dense.h",M+"csbr.2.h",M+"cswr.h","include/partition.h"],
 [("disjoint output rows per iteration","parallel for loops in include/spmv/omp"),("temporary accumulators and taskwait","spmv_chunk in include/spmv/omp/gsb.h")],
 ["spmv(x,y)","OpenMP runtime calls and memory accesses of the compiled kernels"])

p("C03","Format conversions keep every entry exactly once",
 "Converting a coordinate matrix to any other storage format yields an object whose decoded contents are the same multiset of (row, column, value) entries, with duplicates and explicit zeros kept (dense storage holds their sum), and whose size and number-of-nonzeros queries agree with it. The internal arrays are well formed: pointers start at zero, never decrease and end at the number of entries, and stored indices are inside the matrix or block. Conversions documented as keeping the source only reorder its entries.",
 ["inputs","configurations"],
 "All matrices and entry orders, all target formats, blockings and types, including index types narrower than the matrix dimension.",
 "The tests only compare one product per format, so lost and doubled entries that cancel, misreported counts and malformed arrays that the product does not visit pass.",
 ["include/generic/coo.h","include/generic/csr.h","include/generic/gsb.h"]+[M+f for f in ("csr.1.h","csr.2.h","crcsr.h","cswr.h","csbr.h","csbr.2.h","cgbr.h","cgbr.2.h","dense.h","block_coo.1.h","block_coo.2.h","block_csr.h","blocks.h")],
 [("conversion functions","Coo_to_* in include/matrix and include/generic")],
 ["accessors and arrays of the constructed object","nonzeros()"])

p("C04","Blocking tiles the matrix and files each entry under its block",
 "For constant block sizes and for explicit block boundaries, the blocks of a blocked matrix tile all rows and columns, every entry is stored in the one block that contains its coordinates, only non-empty blocks are stored, once each, in block-row then block-column order, and all bookkeeping (block counts, per-kind block and nonzero statistics, balanced flag) agrees with the stored blocks. With a constant size every block has that size except that the last one in each dimension takes the remainder. Blocks of size zero and blocks larger than the matrix are handled.",
 ["inputs","configurations"],
 "All matrices with all row/column block boundary vectors (including empty blocks and single blocks), all constant sizes, all blocked formats.",
 "The tests use one square power-of-two block size per matrix and only look at the product.",
 ["include/generic/gsb.h","include/utils.h",M+"csbr.h",M+"csbr.2.h",M+"cgbr.h",M+"cgbr.2.h",M+"blocks.h"],
 [("boundary construction","Coo_to_Blocked in include/generic/gsb.h, Coo_to_Csbr"),("block lookup","index_to_blockindex, calculate_block_id, count_blocks in include/utils.h")],
 ["public members of blocked matrices","block(i)","block_nonzeros(i)","type_block_count/type_nnz_count"])

p("C05","Block-row partitions cover every block once, in balanced chunks",
 "The partition of a block-row into chunks starts at its first block, ends past its last, is ordered, and so assigns every block to exactly one chunk. No chunk holds more than the work threshold (all nonzeros over twice the workers) in addition to its first block and the last block of the block-row, which is never cut off; every cut is paid for by more than the threshold of work, so the number of chunks is bounded by it. A block-row without blocks gives only empty chunks, and empty chunks contribute nothing.",
 ["inputs","configurations"],
 "All distributions of nonzeros over the blocks of a block-row, all worker counts.",
 "No test inspects a partition; a chunk that skips or repeats a block only matters for unbalanced matrices, which the generated test matrices never are.",
 ["include/partition.h","include/spmv/omp/gsb.h",M+"cgbr.h",M+"cgbr.2.h",M+"csbr.h"],
 [("chunking","partition_blockrow, partition_init in include/partition.h")],
 ["BlockRowPartition::chunks, nchunks()","partition member of blocked matrices"])

p("C06","The automatic block size is always usable and cache bounded",
 "For every matrix shape, element size and worker count the automatically chosen block size is a power of two of at least one, never larger than the matrix dimensions rounded up to powers of two. Where the matrix is large enough to be cut, it is small enough that the piece of each vector belonging to one block fits the configured cache size, that with more than one worker there are at least the configured number of block-rows per worker (counted on the rows rounded up to a power of two), and that it is at most four times the fourth root of rows times columns, rounded up to a power of two. The bit and power-of-two helpers it rests on return the exact mathematical values.",
 ["inputs","configurations"],
 "All rows, columns >= 1, element sizes 1..16 bytes and worker counts 1..256, signed and unsigned, 32- and 64-bit index types.",
 "The tests exercise only 13 shapes with two worker counts.",
 ["include/utils.h","src/common.cpp","include/params.h"],
 [("size selection","pick_block_size in include/utils.h"),("helpers","next_power_of_two, highest_bit_set in src/common.cpp")],
 ["pick_block_size","next_power_of_two","highest_bit_set"])

p("C07","Sorting is an ordered, stable permutation for any worker count",
 "Every sorting routine (by row, by column, Morton, by block, by wide row) leaves exactly the same entries in the array, ordered by the documented key, with equal-key entries in their original relative order, for any length, duplicate pattern, worker count and task schedule. The parallel sort has no conflicting unordered accesses and never reads or writes outside the array and its buffer. Entry ordering keys are computed exactly for all indices the routine accepts.",
 ["inputs","schedules","configurations"],
 "All arrays (empty, sorted, reversed, many duplicates, lengths across the parallel cut-offs), all worker counts and schedules.",
 "The tests see sorting only through products, which do not depend on order or stability, and under arbitrary schedules.",
 ["include/utils.h","dep/pss/parallel_stable_sort.h","dep/pss/pss_common.h"],
 [("parallel merge sort","dep/pss/parallel_stable_sort.h"),("comparison keys","sort_* in include/utils.h")],
 ["sort_triplets","sort_triplets_morton","sort_triplets_blocks","sort_elements_blocks","sort_triplets_widerows"])

p("C08","Matrix files are read as the matrix they describe",
 "Reading a Matrix Market coordinate file yields the described matrix: shape, zero-based entries in file order, values as written; pattern files give ones, symmetric files also give the mirrored off-diagonal entries and skew-symmetric files the negated ones; comments, blank lines, number formatting and letter case of the banner do not matter. Reading a binary file (single-file, three-file, block-size vector, or row-sorted into CSR) yields exactly the stored contents. The reader is chosen by file name suffix and variants that are not supported are refused.",
 ["inputs"],
 "All well-formed files of the supported formats, all symmetry and field kinds, all layouts of white space and comments.",
 "The tests read 13 generated real general/symmetric files in one fixed layout.",
 ["include/io/input.h","include/io/blocked.h","dep/mm_io/mm_io.h","src/common.cpp"],
 [("Matrix Market reader","read_mm_COO in include/io/input.h, dep/mm_io"),("binary readers","read_bin_* in include/io/input.h")],
 ["read_COO","read_mm_COO","read_bin_COO","read_bin_array","read_bin_CSR"])

p("C09","What is written can be read back unchanged",
 "Writing a matrix or vector in any file format the library writes (Matrix Market, single-file binary, three-file binary, block-size vector, blocked binary) and reading it back gives the same shape and the same entries in the same order with bit-identical values, for every finite value including very small, very large and negative zero. Blocked files read back into any blocked format equal the matrix built directly from the same entries.",
 ["inputs"],
 "All matrices incl. none/one/duplicate entries, all finite float and double values, all coordinate types and blocked targets.",
 "No test writes a file.",
 ["include/io/output.h","include/io/input.h","include/io/blocked.h"],
 [("writers","write_mm_COO, write_bin_COO, write_bin_array, write_bin_blocked in include/io/output.h"),("readers","include/io/input.h, include/io/blocked.h")],
 ["write_* followed by read_*"])

p("C10","Damaged, truncated or missing input is refused, never half-read",
 "If a matrix or vector file is missing, truncated at any byte, has a header that is malformed or contradicts the contents, contains entries that are malformed or outside the announced shape, or has fewer entries than announced, reading it reports an error (negative result or a diagnosed stop) instead of returning a matrix as if it were complete. It never reads or writes out of bounds. The command-line tools then exit with a failure status.",
 ["inputs","fault_sequences","crash_points"],
 "Every truncation point (in a text file every one that does more than shorten the last number) and single-field corruption of files in every supported format.",
 "All files in the tests are intact.",
 ["include/io/input.h","include/io/blocked.h","dep/mm_io/mm_io.h","src/common.cpp","src/tools/"],
 [("return-value checks","include/io/input.h, include/io/blocked.h"),("banner and size checks","dep/mm_io/mm_io.h")],
 ["return values of read_*","exit status of tools"])

p("C11","Failed writes are reported, never passed off as success",
 "If an output file cannot be created or any part of it cannot be stored (disk full, size limit, at any byte), the writing routine returns an error and the command-line tool exits with a failure status. A success result means the complete file is on disk.",
 ["fault_sequences","crash_points","inputs"],
 "Every byte position at which the output stream can fail, every writer and tool.",
 "No test makes a write fail.",
 ["include/io/output.h","src/tools/"],
 [("write and close checks","include/io/output.h"),("exit status","src/tools/*.cpp, src/tools/*.c")],
 ["return values of write_*","exit status of tools"])

p("C12","Permuting indices applies the permutation exactly and invertibly",
 "Applying a permutation to row/column indices replaces each index by its image and changes nothing else, in place, for any number of workers; the inverse of a permutation composed with it in either order is the identity, so permuting and inverse-permuting restores the input. Permuting a matrix and both vectors commutes with multiplication.",
 ["inputs","configurations","schedules"],
 "All permutations and index arrays, lengths across the parallel chunk size, any worker count.",
 "No test permutes anything.",
 ["include/permute.h","src/tools/permute.cpp"],
 [("permutation loops","invert_permutation, permute_indeces in include/permute.h")],
 ["invert_permutation","permute_indeces","permute/ipermute tools"])

p("C13","Expanding blocks keeps each entry's block and in-block position",
 "Expanding variable-size blocks (at least one of them not empty) to a constant size picks the smallest power of two not below the largest block and moves every entry to the same position inside the same block of the expanded matrix, so that no two different coordinates collide and block membership is unchanged; index-array and entry-array forms agree. Values are untouched.",
 ["inputs","configurations","schedules"],
 "All block-size vectors (incl. zero-size blocks), all entries, lengths across the parallel chunk size.",
 "No test expands anything.",
 ["include/expand.h","src/tools/expanded.cpp","src/tools/prepare.cpp"],
 [("index expansion","expand_block_size, expand_index, expand_indeces in include/expand.h")],
 ["expand_* functions","expanded and prepare tools"])

p("C14","The command-line converters write what they promise",
 "Each converter (convert, convert_blocked, expanded, permute, ipermute, sort, prepare, double2float, one2zero) run on valid inputs exits successfully and leaves, under the documented output name for any usable path length, a file with exactly the documented contents: same entries in the documented order, permuted, expanded or converted element by element. Inputs are left untouched, nothing else is created in the input or output directories, and wrong usage or unusable input gives a failure status.",
 ["inputs","programs","configurations"],
 "All valid input files, path lengths, tool options, composed tool chains.",
 "No test runs any of the tools.",
 ["src/tools/"],
 [("tool mains","src/tools/*.cpp, src/tools/*.c")],
 ["files before and after a run","exit status"])

p("C15","Concurrent prepare runs do not disturb each other",
 "Any number of prepare runs executing at the same time, in any interleaving, each produce the outputs they would produce alone. A run uses only its own temporary storage, leaves none behind when it ends, successfully or with an error, and never removes files it did not create.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of the file operations of two or more runs, including failing runs.",
 "No test runs prepare, let alone two at once.",
 ["src/tools/prepare.cpp"],
 [("temporary storage handling","src/tools/prepare.cpp")],
 ["output files and directory contents after concurrent runs","file-system operations of the processes"])

p("C16","Matrices and vectors evolve only as the call history says",
 "In any sequence of creating, converting, multiplying, sorting and releasing matrices, each operation affects only its operands: results depend on the current contents of the operands alone, repeated products accumulate, matrices built from the same source stay independent of each other and of later changes to or release of the source, and conversions leave the source usable as documented. No operation uses uninitialised or released storage or releases storage twice.",
 ["histories","inputs"],
 "All operation sequences over several live matrices and vectors, any previous heap contents.",
 "The test programs run one fixed sequence in a fresh process, where memory happens to be zero.",
 ["include/matrix/","include/generic/","include/spmv/","include/partition.h"],
 [("ownership and release","allocate/release functions in include/matrix")],
 ["API call results over a history","memory-error monitor"])

p("C17","Reported measurements and verdicts match the data",
 "The result comparison says equal exactly when the vectors agree in every element and otherwise reports how many differ and the largest difference; the timing summaries report the minimum, upper median, mean and maximum of the recorded times (or the corresponding rates, computed from two operations per nonzero); mean, median and standard deviation helpers return those statistics. Every program reporting a product or timing does so for the matrix and block boundaries it was given.",
 ["inputs"],
 "All vectors (sizes 1.., any differing subset), all samples in any order.",
 "The tests read the reports but never check them against independently known data.",
 ["include/test/utils.h","src/common.cpp","src/drivers/"],
 [("statistics","check_results, mean, median, standard_deviation in include/test/utils.h; print_timing_* in src/common.cpp")],
 ["return value and printed text"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
