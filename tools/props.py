"""The properties, and what MANIFEST.json says about their checks.  Run to rewrite properties.jsonl and MANIFEST.json."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROOF = ("contract-based deductive verification: weakest-precondition style VCs generated on every run from the LLVM IR that clang emits for the "
         "real templates, loop invariants checked inductively, discharged by z3 and cvc5; counterexamples replayed natively")
FPNOTE = " Floating-point operations are idealised as exact real arithmetic, so rounding is outside the claim."
BASE = ("Unbounded proof over every input (all lengths, all values), from the code in /repo as compiled on each run. Trusts the clang front end, the "
        "LLVM passes used for normalisation, the VC generator in /verif/vc and the solvers; partial correctness.")
SHIM = " The mdspan library is absent here, so its documented behaviour is supplied by a stand-in header (shim/), itself compiled and verified with the caller."

P = []


def prop(id, title, statement, over, text, why, files, mech, note=BASE, level="proof", technique=PROOF, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level,
                  technique=technique, observe=observe, state=state))


prop("C01", "Transform sizes: next power of two, base-2 logarithm, order and size",
     "Rounding a count up to a transform size yields the smallest power of two that is not less than it (one for zero), the base-2 logarithm of an "
     "unsigned integer is the position of its highest set bit (zero for zero), and the transform size of an order is two to that order. The next order "
     "of a count is the smallest order whose transform size is not less than the count, so converting to an order and back never yields a size that is "
     "too small or needlessly doubled. This holds in every integer type for every argument whose result that type can represent.",
     ["inputs", "configurations"], "every argument of every standard 8- to 64-bit integer type whose result is representable",
     "The tests sample a few dozen arguments per type; a wrong shift or width only shows for large values of one type.",
     ["src/neo/bit/bit_ceil.hpp", "src/neo/bit/bit_log2.hpp", "src/neo/fft/order.hpp", "src/neo/math/ipow.hpp"],
     [("bit smearing / std::bit_ceil", "src/neo/bit/bit_ceil.hpp"), ("std::bit_width or shift loop", "src/neo/bit/bit_log2.hpp"),
      ("next_order and size", "src/neo/fft/order.hpp")])

prop("C02", "Integer power, ceiling division and parity are exact",
     "Raising an integer to a non-negative integer exponent returns the exact power whenever that power is representable, for a base given at run time and "
     "for a base fixed at compile time. Integer division rounding up returns the exact ceiling of the quotient for non-negative dividends and positive divisors, and the parity tests "
     "agree with the lowest bit, negative numbers included. None of them overflows on the way when the operands allow the result.",
     ["inputs", "configurations"], "every base, exponent, dividend and divisor of every standard 8- to 64-bit integer type with a representable result",
     "The tests check a short table of powers; overflow of an intermediate value or one wrong base specialisation needs other arguments.",
     ["src/neo/math/ipow.hpp", "src/neo/math/idiv.hpp", "src/neo/math/is_even.hpp", "src/neo/math/is_odd.hpp"],
     [("ipow(base, exponent), ipow<Base>(exponent)", "src/neo/math/ipow.hpp"), ("idiv", "src/neo/math/idiv.hpp")])

prop("C03", "Fixed-point scalar arithmetic saturates to the exact result",
     "For every 8-bit and 16-bit fixed-point format, addition, subtraction and negation return the mathematically exact result clamped to the representable "
     "range, and multiplication returns the exact product scaled back by the fractional bits, rounded toward minus infinity and clamped. Comparisons order "
     "values exactly like the numbers they represent. No operation wraps around or has undefined behaviour.",
     ["inputs", "configurations"], "every pair of stored values of the formats with 7, 6, 5, 4 (8-bit) and 15, 14, 13, 12, 11, 8 (16-bit) fractional bits",
     "The tests sample a handful of values; the corner pairs at the ends of the range and the other formats are never exercised.",
     ["src/neo/fixed_point/fixed_point.hpp"],
     [("saturate", "src/neo/fixed_point/fixed_point.hpp"), ("operators of fixed_point", "src/neo/fixed_point/fixed_point.hpp")])

prop("C04", "Conversion between floating point and fixed point saturates and round-trips",
     "Constructing a fixed-point number from any floating-point number that is not a NaN, infinities included, gives the number scaled by the fractional bits, "
     "truncated toward zero and clamped to the representable range. Converting a fixed-point number to float or double gives exactly the number it represents, "
     "and converting that back gives the same fixed-point number.",
     ["inputs", "configurations"], "every float and double other than NaN, and every stored value, for ten formats",
     "Tests convert a few values inside the range; out-of-range and boundary inputs and the full round trip are unbounded input sets.",
     ["src/neo/fixed_point/fixed_point.hpp"],
     [("fixed_point(std::floating_point)", "src/neo/fixed_point/fixed_point.hpp"), ("explicit operator Float, to_float, to_double", "src/neo/fixed_point/fixed_point.hpp")],
     note=BASE + " Floating point is treated bit-precisely (IEEE-754) here.")

prop("C05", "Bulk fixed-point operations equal the scalar ones at every length",
     "Adding, subtracting or multiplying two sequences of fixed-point numbers writes to every output position the saturated scalar result for that position, for "
     "every length including lengths that are not a multiple of the vector width, and also when the output is one of the inputs. Products in the format with only "
     "fractional 16-bit storage may be rounded to nearest instead of down. Nothing outside the output sequence is written and nothing outside the inputs is read.",
     ["inputs", "configurations"], "every length below 2^32, all contents, ten formats, distinct or in-place buffers, SSE2 / SSE4.1 / AVX2 builds",
     "Tests use a few lengths with random content; a wrong tail index, lane or saturation corner needs a particular length or value pair.",
     ["src/neo/fixed_point/algorithm.hpp", "src/neo/fixed_point/simd.hpp", "src/neo/simd/native.hpp"],
     [("apply_fixed_point_kernel, add/sub/mul kernels", "src/neo/fixed_point/algorithm.hpp"), ("apply_kernel main loop and tail", "src/neo/simd/native.hpp"),
      ("mul_kernel_s8 / mul_kernel_s16", "src/neo/fixed_point/simd.hpp")])

prop("C06", "Fixed-point SIMD batches behave like the scalar type in every lane",
     "For every fixed-point vector type available on x86, loading and storing preserve all lanes in order, broadcasting copies the value to every lane, and "
     "addition, subtraction and multiplication compute in each lane the saturated result of the scalar operation on that lane (products may be rounded to "
     "nearest in the purely fractional 16-bit format). Loads and stores touch exactly one vector of memory at any alignment.",
     ["inputs", "configurations"], "every content of every lane, for 128-, 256- and 512-bit vectors and SSE2 / SSE4.1 / AVX2 / AVX-512 code paths",
     "Tests use a constant vector per type; a wrong lane, sign or saturation corner needs other contents.",
     ["src/neo/simd/sse2.hpp", "src/neo/simd/avx.hpp", "src/neo/simd/avx512.hpp", "src/neo/fixed_point/simd.hpp"],
     [("batch operators", "src/neo/simd/*.hpp"), ("multiply kernels", "src/neo/fixed_point/simd.hpp")])

prop("C07", "Floating-point SIMD batches behave like the scalar type in every lane",
     "For every floating-point vector type available on x86 (half, single and double precision), loading and storing preserve all lanes in order, broadcasting "
     "copies the value to every lane, and addition, subtraction and multiplication compute in each lane the scalar operation on that lane. Loads and stores touch "
     "exactly one vector of memory at any alignment.",
     ["inputs", "configurations"], "every content of every lane, for 128-, 256- and 512-bit vectors",
     "Tests use one vector per type and operation.",
     ["src/neo/simd/sse2.hpp", "src/neo/simd/avx.hpp", "src/neo/simd/avx512.hpp"],
     [("batch operators", "src/neo/simd/*.hpp")], note=BASE + FPNOTE)

prop("C08", "Complex number arithmetic obeys the field laws, also in place",
     "Sum, difference, product and quotient of the library's complex numbers are the mathematical ones, mixed complex and scalar operations included, and every "
     "compound assignment leaves the same value as the plain operator even when both operands are the same object. Conjugate, magnitude and the real and imaginary "
     "accessors return the mathematical values, and setting one part leaves the other unchanged. Fixed-point complex sums and differences saturate per component.",
     ["inputs", "programs"], "all operand values, single and double precision, distinct or identical operand objects",
     "Tests check a few constants per operator; sign errors and aliasing of the operand need particular values or self-application.",
     ["src/neo/complex/scalar_complex.hpp", "src/neo/math/abs.hpp", "src/neo/math/conj.hpp", "src/neo/math/real.hpp", "src/neo/math/imag.hpp",
      "src/neo/fixed_point/complex.hpp"],
     [("scalar_complex operators", "src/neo/complex/scalar_complex.hpp")], note=BASE + FPNOTE)

prop("C09", "Decibel conversion: formula, floor and fast approximation",
     "Converting a gain to decibels returns twenty times its base-10 logarithm but never less than the floor (minus 144 dB unless the caller gives another one), "
     "and returns exactly the floor for a gain that is zero or negative. The fast variant applies the same floor and stays within a fraction of a decibel of the "
     "accurate one above it.",
     ["inputs", "configurations"], "every gain and floor, accurate and fast variants, single and double precision",
     "The tests check a few gains; the floor clamp and the approximation must hold over the whole range.",
     ["src/neo/unit/decibel.hpp", "src/neo/math/fast_math.hpp", "src/neo/math/log2.hpp"],
     [("amplitude_to_db", "src/neo/unit/decibel.hpp"), ("fast_log2, fast_log10", "src/neo/math/fast_math.hpp")],
     note=BASE + FPNOTE + " The logarithm is an uninterpreted function; the accuracy of the approximation is sampled natively.")

prop("C10", "A-weighting follows the standard curve at every frequency",
     "The A-weighting of a positive frequency equals the standard four-pole curve in decibels, plus 2 dB so that it is zero near 1 kHz, at every frequency and not "
     "only at the tabulated ones.",
     ["inputs"], "every positive frequency, single and double precision", "The test compares tabulated frequencies within a tolerance.",
     ["src/neo/math/a_weighting.hpp"], [("a_weighting", "src/neo/math/a_weighting.hpp")],
     note=BASE + FPNOTE + " The logarithm is an uninterpreted function.")

prop("C13", "Elementwise vector and matrix operations touch every element exactly once",
     "Adding, multiplying, scaling, filling and copying vectors or matrices gives every output element the result computed from the elements at the same "
     "position, for every extent including zero, for contiguous, strided and column-major storage, and also when the output is one of the inputs. Nothing outside "
     "the given elements is written, so the elements between those of a strided view keep their values. Copying between interleaved and split complex storage keeps "
     "real and imaginary parts in place.",
     ["inputs", "configurations"], "every extent, every element value, five element types, contiguous, strided and both matrix layouts",
     "Tests use a few small fixed extents with constant data; an error at one extent, layout or aliasing pattern is not sampled.",
     ["src/neo/algorithm/add.hpp", "src/neo/algorithm/multiply.hpp", "src/neo/algorithm/scale.hpp", "src/neo/algorithm/fill.hpp", "src/neo/algorithm/copy.hpp",
      "src/neo/algorithm/backend/linalg_binary_op.hpp", "src/neo/algorithm/backend/linalg_unary_op.hpp"],
     [("linalg_binary_op", "src/neo/algorithm/backend/linalg_binary_op.hpp"), ("linalg_unary_op", "src/neo/algorithm/backend/linalg_unary_op.hpp"),
      ("copy", "src/neo/algorithm/copy.hpp")], note=BASE + FPNOTE + SHIM)

prop("C11", "Window functions have the documented shape at every index and length",
     "The rectangular window is one everywhere. The Hann and Hamming windows of length N at index i equal 0.5 - 0.5 cos(2 pi i/(N-1)) and "
     "0.54 - 0.46 cos(2 pi i/(N-1)) for every length of at least two and every index below it, for signed and unsigned index types. Filling or generating a "
     "window gives every element its value at that index and writes nothing else; the default window is the Hann window.",
     ["inputs", "configurations"], "every length and index, single and double precision, rectangular, Hann and Hamming",
     "Tests compare a few short windows; an error in the divisor or at the last index needs other lengths.",
     ["src/neo/math/windowing.hpp"], [("window functions", "src/neo/math/windowing.hpp"), ("fill_window, generate_window", "src/neo/math/windowing.hpp")],
     note=BASE + FPNOTE + SHIM + " The cosine is an uninterpreted function.")

prop("C12", "Mel scale conversion, its inverse and equally spaced mel bands",
     "Converting hertz to mel returns 2595 log10(1 + f/700) and converting back is its inverse, so a round trip in either direction returns the start value. "
     "A table of n mel frequencies starts at the lowest and ends at the highest requested frequency and its entries are equally far apart on the mel scale, for "
     "every n; a single band lies at the lowest frequency.",
     ["inputs"], "every frequency, every number of bands, single and double precision",
     "Tests check tabulated frequencies; spacing must hold for every band count and range.",
     ["src/neo/unit/mel.hpp"], [("hertz_to_mel, mel_to_hertz, mel_frequencies", "src/neo/unit/mel.hpp")],
     note=BASE + FPNOTE + SHIM + " The logarithm and the power are uninterpreted, related by the inverse law.")

prop("C15", "Statistics, normalisation and comparison use every element",
     "The mean and the population variance and standard deviation of a vector or matrix are the mathematical ones over all elements; no value is returned for an "
     "empty object, nor a variance or deviation for fewer than two elements. Mean squared error and its root compare all elements, complex ones by magnitude. "
     "Normalising divides every element by the root of the energy or by the largest magnitude and leaves silence unchanged. The comparisons return true exactly when "
     "every element satisfies the predicate, respectively lies within the given or default tolerance.",
     ["inputs", "configurations"], "every extent and every element value, single and double precision, real and complex, vectors and matrices",
     "Tests use short constant vectors; a skipped first or last element, row or column needs particular extents and values.",
     ["src/neo/algorithm/mean.hpp", "src/neo/algorithm/variance.hpp", "src/neo/algorithm/standard_deviation.hpp", "src/neo/algorithm/mean_squared_error.hpp",
      "src/neo/algorithm/root_mean_squared_error.hpp", "src/neo/algorithm/normalize_energy.hpp", "src/neo/algorithm/normalize_peak.hpp",
      "src/neo/algorithm/allclose.hpp", "src/neo/algorithm/allmatch.hpp"],
     [("reductions", "src/neo/algorithm/*.hpp")], note=BASE + FPNOTE + SHIM)

prop("C22", "Twiddle factors and bin frequencies are exact at every index",
     "A twiddle factor for transform size N and index i is exp(-2 pi j i/N) for the forward and its conjugate for the backward direction, for every size, index, "
     "integer type and complex type. The lookup table of a radix-2 transform of size N holds the first N/2 of them in order. The frequency of bin i of a real transform "
     "of size n is i times the sample rate divided by n.",
     ["inputs", "configurations"], "every size and index, both directions, four complex types",
     "Tests use a handful of sizes and constant tables.",
     ["src/neo/fft/twiddle.hpp", "src/neo/fft/rfftfreq.hpp", "src/neo/math/polar.hpp"],
     [("twiddle, fill_twiddle_lut_radix2, make_twiddle_lut_radix2", "src/neo/fft/twiddle.hpp"), ("rfftfreq", "src/neo/fft/rfftfreq.hpp")],
     note=BASE + FPNOTE + SHIM + " Sine and cosine are uninterpreted, odd and even.")

prop("C14", "Multiply-add gives every element x*y+z in every storage form and SIMD build",
     "The multiply-add of three vectors writes x[k]*y[k]+z[k] to every output element k, real or complex, for interleaved complex, split complex (separate real and "
     "imaginary arrays), contiguous and strided storage, in every SIMD build and for every length, including lengths that are not a multiple of the vector width, and "
     "also when it accumulates in place with the output being z. Nothing outside the output elements is written and nothing outside the inputs is read.",
     ["inputs", "configurations"], "every length below 2^31 and every element value; float, double, interleaved and split complex; SSE2, AVX, AVX-512 and scalar builds",
     "Tests use a few fixed lengths with random data compared to a tolerance; a tail element, lane or in-place order error needs a particular length or alias.",
     ["src/neo/algorithm/multiply_add.hpp", "src/neo/complex/split_complex.hpp"],
     [("multiply_add overloads", "src/neo/algorithm/multiply_add.hpp"), ("simd::multiply_add main loops and tails", "src/neo/algorithm/multiply_add.hpp")],
     note=BASE + FPNOTE + SHIM)

prop("C17", "Delay line index pairs every segment with the filter part of its age, forever",
     "After any number of earlier calls, and after a reset at any point, a call on the delay line index inserts exactly once, before anything else, into the slot that "
     "advances by one per call and wraps at the number of segments, then visits every segment exactly once and pairs it with the filter part equal to the number of calls since "
     "that segment was written. A reset makes the next insertion go to slot zero again.",
     ["histories", "configurations"], "every number of segments from one up to 2^30 and every number of earlier calls, signed and unsigned index types",
     "Tests run a handful of calls with one or two segment counts; wrap-around for other counts and long histories is not sampled.",
     ["src/neo/convolution/fdl_index.hpp"], [("fdl_index::operator(), reset", "src/neo/convolution/fdl_index.hpp")],
     state=[("_write_pos", "the slot the next insertion goes to: calls since reset modulo segments", "src/neo/convolution/fdl_index.hpp")])

prop("C18", "Direct convolution is the full linear convolution for all lengths",
     "Output k of the direct convolution of a signal and a patch is the sum of signal[m]*patch[k-m] over every m for which both exist, for every k below the sum of the lengths "
     "minus one, for every pair of non-zero lengths in either order and for real and complex samples. Whatever the output held before does not matter, the inputs are not changed, "
     "and nothing outside the output is written.",
     ["inputs", "configurations"], "every pair of non-zero lengths below 2^30, every sample value, float, double and complex",
     "Tests use a few length pairs; an error at one edge of the overlap, or where the patch is longer than the signal, needs others.",
     ["src/neo/convolution/direct_convolve.hpp", "src/neo/convolution/mode.hpp"], [("direct_convolve", "src/neo/convolution/direct_convolve.hpp")],
     note=BASE + FPNOTE + SHIM + " Order of summation does not matter: lemma conv_flip, proved in Lean.")

MIXED = ("contract-based deductive verification of the functions named as proved in the evidence (VCs from the LLVM IR of the real templates, z3, cvc5, Lean lemmas); the functions listed as "
         "bounded stand-ins are executed natively over a stated bound and not counted as proved")
STANDIN = ("Bounded stand-in where marked: exhaustive small configurations plus seeded random larger ones, executed on the real code against an independent oracle; not a proof. "
           "Buffers end at unmapped pages, so out-of-bounds accesses are detected. ")

prop("C16", "Sparse matrix reads back what was stored; row products touch stored columns only",
     "A compressed sparse row matrix built from a dense matrix and a predicate holds exactly the selected elements, an insertion makes its element read as the new value and leaves every other element as it was "
     "(an element inserted again is replaced, not duplicated), and every element that is not stored reads as zero. The multiply-add with a row gives x*row+z in the columns that the row stores and leaves "
     "the output in every other column as it was, also in place. No access leaves the containers.",
     ["inputs", "histories"], "every matrix state with ascending rows and columns (below 2^31 of each), every row, column, value and selection predicate",
     "Tests build one small matrix; offsets of later rows, duplicate insertions and empty rows need other histories.",
     ["src/neo/container/csr_matrix.hpp", "src/neo/algorithm/multiply_add.hpp"],
     [("csr_matrix(matrix, filter), insert, operator()", "src/neo/container/csr_matrix.hpp"), ("multiply_add with a csr_matrix row", "src/neo/algorithm/multiply_add.hpp")],
     note=BASE + FPNOTE + SHIM + " Histories on std::vector storage are additionally executed natively as a bounded stand-in.", technique=MIXED,
     state=[("row offsets, column indices, values", "the stored elements of row r are those between offset r and offset r+1, in ascending column order", "src/neo/container/csr_matrix.hpp")])

prop("C19", "Segment stores return the last insertion; filters add segment times filter row",
     "A frequency delay line returns, for every row, the segment last inserted into it and zero for a row never written, bit for bit in dense and split storage, and to half a quantisation step per component in "
     "8-bit and 16-bit compressed storage for components within [-1, 1]; an insertion changes no other row. A compressed view reads a stored integer as that integer divided by the largest "
     "integer of its type. Applying a dense or split filter row adds, bin by bin, the product of the segment and that row of the filter that was set to the accumulator.",
     ["inputs", "configurations"], "every number of rows and columns (below 2^40 elements), every row index and every value; float, double, split, 8- and 16-bit storage",
     "Tests insert one hand-written segment; row offsets, the other rows and the scale of the other integer type are not observed.",
     ["src/neo/convolution/dense_fdl.hpp", "src/neo/convolution/compressed_fdl.hpp", "src/neo/convolution/dense_filter.hpp", "src/neo/container/compressed_accessor.hpp"],
     [("insert and operator[]", "src/neo/convolution/dense_fdl.hpp"), ("compress", "src/neo/convolution/compressed_fdl.hpp"), ("access", "src/neo/container/compressed_accessor.hpp"),
      ("filter and operator()", "src/neo/convolution/dense_filter.hpp")],
     note=BASE + FPNOTE + SHIM)

prop("C20", "FFT plans and kernels compute the discrete Fourier transform of every size",
     "Every complex transform plan and kernel, forward and backward, in place and out of place, interleaved and split, gives the discrete Fourier transform (unnormalised; the sign of the exponent follows the "
     "direction) of its input for every size it supports, single elements included. Using a plan leaves it fit for the next use, and nothing outside the buffers is read or written.",
     ["inputs", "configurations"], "every order and every input; radix 2, 3, 4, 5 and 8, decimation in time and frequency, Stockham, split and fallback plans, float and double",
     "Tests compare a few orders against a reference to a tolerance, mostly forward then backward, which hides a swapped direction; edge orders are skipped.",
     ["src/neo/fft/fft.hpp", "src/neo/fft/fallback/fallback_fft_plan.hpp", "src/neo/fft/fallback/fallback_split_fft_plan.hpp", "src/neo/fft/fallback/kernel/c2c_dit2.hpp"],
     [("butterfly kernels", "src/neo/fft/fallback/kernel/c2c_dit2.hpp"), ("reference plans", "src/neo/fft/reference")],
     note="Proof for the kernel c2c_dit2_v3: for every order up to 27, all stages of the decimation-in-time recursion are applied (every index, both component types); the twiddle table is the subject of C22. " + STANDIN +
     "All other kernels and plans are bounded stand-ins up to the orders in the evidence." + FPNOTE + SHIM, technique=MIXED)

prop("C21", "Bit and digit reversal apply exactly the reversal permutation",
     "Reordering by bit reversal moves the element at every index to the index with the same number of binary digits in reverse order, for complex, interleaved real and split complex storage, whether by a "
     "precomputed plan or directly. Reordering by digit reversal does the same with the digits of its radix. Every element moves exactly once, nothing else is touched.",
     ["inputs", "configurations"], "every power-of-two (or power of the radix) size and every content",
     "Tests round-trip a few sizes; applying a wrong involution twice also restores the input.",
     ["src/neo/fft/reference/bitrevorder.hpp", "src/neo/fft/reference/digitrevorder.hpp"],
     [("bitrevorder_plan::make and operator()", "src/neo/fft/reference/bitrevorder.hpp"), ("digitrevorder_plan", "src/neo/fft/reference/digitrevorder.hpp")],
     note="Proof of the bit-reversal plan on complex, interleaved and split data and of the free bit-reversal on complex data, for every order up to 31; digit reversal and the free interleaved form are stand-ins. " + STANDIN + FPNOTE + SHIM, technique=MIXED)

prop("C23", "Real transforms, DCT, direct DFT and STFT match their defining sums",
     "The real-to-complex transform gives the non-negative frequency half of the Fourier transform of its input and the complex-to-real transform its unnormalised inverse, also where two real signals share one "
     "complex transform. The direct Fourier sums (two-sided, planned and prime-size) give the transform, the cosine transform gives the DCT-II of its input, and every frame of the short-time "
     "transform is the spectrum of the windowed, zero-padded segment at its hop position, for every signal length.",
     ["inputs", "configurations"], "every order, size, frame length, hop and input",
     "Tests sample a few orders and compare round trips; single elements, sizes that are not a power of two and partial frames are not covered.",
     ["src/neo/fft/rfft.hpp", "src/neo/fft/dct.hpp", "src/neo/fft/dft.hpp", "src/neo/fft/stft.hpp"],
     [("rfft, irfft, rfft_deinterleave", "src/neo/fft/rfft.hpp"), ("dct2_plan", "src/neo/fft/dct.hpp"), ("dft", "src/neo/fft/dft.hpp"), ("stft_plan", "src/neo/fft/stft.hpp")],
     note="Proof of the real transform in both directions, the separation of two real signals, the cosine transform, the direct sum and the chirp (Bluestein) transform, the complex transform being used through its contract (C20); short-time transform and repeated use of one plan are stand-ins. " + STANDIN + FPNOTE + SHIM, technique=MIXED)

prop("C24", "Streaming convolvers output the linear convolution for any block history",
     "Whatever sequence of blocks is fed, the partitioned convolvers (overlap-add and overlap-save, dense, split, sparse and compressed), the overlap stages with any processing of the spectrum, and the one-shot "
     "transform convolution output the linear convolution of the signal so far with the impulse response, continuing seamlessly across blocks and starting afresh after the filter is set again. Partitioning an impulse response "
     "stores the spectrum of each zero-padded partition, and normalising one scales it so that its largest channel energy becomes one, silent channels counting as one.",
     ["inputs", "histories", "configurations"], "every impulse response, block size (powers of two from two), number of blocks and chunking",
     "Tests feed an identity impulse or one short signal; errors that appear only after the delay line wraps or with a partial last partition stay hidden.",
     ["src/neo/convolution/uniform_partitioned_convolver.hpp", "src/neo/convolution/overlap_add.hpp", "src/neo/convolution/overlap_save.hpp", "src/neo/convolution/fft_convolver.hpp",
      "src/neo/convolution/uniform_partition.hpp"],
     [("operator()", "src/neo/convolution/uniform_partitioned_convolver.hpp"), ("overlap_add", "src/neo/convolution/overlap_add.hpp"), ("overlap_save", "src/neo/convolution/overlap_save.hpp")],
     note="Proof, after any number of earlier blocks, of the overlap-add and overlap-save stages, the one-shot convolver and the delay-line bookkeeping of the partitioned convolver, the real transform, the filter and the delay line being used through their contracts (C23, C19); the partitioned convolvers end to end, partitioning and normalising are stand-ins. " + STANDIN + FPNOTE + SHIM, technique=MIXED,
     state=[("delay line, overlap window, write position", "the last spectra, the tail or history samples carried to the next block", "src/neo/convolution/uniform_partitioned_convolver.hpp")])


NOT_APPLICABLE = []


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo/src unchanged through the wrappers in harness/", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
                     "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"], "technique": p["technique"], "level": p["level"],
                     "level_note": p["note"]} for p in P if p["id"] not in na],
         "not_applicable": NOT_APPLICABLE}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
