P('P01', 'Arithmetic on elements of different residue rings never succeeds',
  'For integers modulo m and for polynomials modulo a polynomial (all four coefficient families), adding, subtracting, multiplying, '
  'dividing or ordering two elements with different moduli never returns a value: it raises the library\'s error. '
  'The compound-assignment forms do the same, and comparing such elements for equality never says they are equal.',
  ['inputs'], 'every pair of operands of the five residue classes, distinct or the same object',
  'tests use matching moduli on a handful of values; the guarantee is about all mixed pairs through every operator',
  PM, [('modulus check at the head of every binary operator', 'each *_polymod_t.cpp and intmod_t.cpp: check_moduli and its callers')],
  'proof', AV, 'Every normal exit of every binary operator, over all inputs; component operations are taken as opaque ring operations.',
  state=[('modulus', 'the ring an element belongs to', 'residue class members')])

P('P02', 'Elements of polynomial residue rings are always stored reduced',
  'Whatever construction, assignment, arithmetic operator, reciprocal or text input produced it, a polynomial residue-ring element that an operation hands back or '
  'updates holds a representative that has been reduced modulo its own modulus, so that comparing representatives compares elements.',
  ['inputs', 'histories'], 'every public operation, constructor and stream/string reader of the four polynomial residue classes, given reduced operands, including an operand that is the target itself',
  'unit tests look at a few small products; an unreduced representative shows only on values large enough to wrap',
  PM[1:], [('reduction in constructor and operators', 'each *_polymod_t.cpp')],
  'proof', AV, 'Inductive: assumes reduced operands, shows reduced results. exp and multiplication by an int are covered up to the loop (listed as undecided).',
  state=[('residue, modulus', 'representative and ring', 'each *_polymod_t.h')])

P('P04', 'Division by zero or by a non-unit always raises an error',
  'Dividing (or taking the remainder) in integers modulo m, in polynomial residue rings, in rational numbers and in rational functions never returns a value when '
  'the divisor is zero or, in a residue ring, has no reciprocal: it raises the library\'s error instead. This includes the compound-assignment forms and dividing an object by itself.',
  ['inputs'], 'every dividend and divisor of the nine classes',
  'regression scripts divide by units; the failing inputs are exactly those nobody samples',
  PM + FR, [('unit test before multiplying by the reciprocal', 'operator/ of the residue classes'), ('zero-denominator test in normalisation', 'simplify of the fraction classes')],
  'proof', AV, 'Path conditions of every normal exit of /, /=, %, %= imply an invertible divisor.')

P('P11', 'Fractions are always in normal form',
  'Every rational number or rational function that construction, assignment, arithmetic or text input leaves behind has a nonzero denominator, is divided by the greatest common '
  'divisor of its numerator and denominator, and (for rational numbers) has a positive denominator. Equality of fractions is therefore equality of the stored pairs.',
  ['inputs', 'histories'], 'every public operation, constructor and reader of the four fraction classes, given normalised operands, including the aliased compound assignments',
  'tests do not cover fractions at all; an unreduced fraction prints plausibly and only breaks later comparisons',
  FR, [('simplify', 'each fraction class')],
  'proof', AV, 'Inductive over operations; integer overflow inside an operation is excluded by assumption.',
  state=[('numerator, denominator', 'the stored pair', 'fraction class members')])

P('P16', 'Comparison operators agree with the values they compare',
  'For residue classes and fractions, equality holds exactly when the stored values (and moduli) agree, inequality is its negation, and the four order comparisons answer what '
  'the order of the representatives (for fractions: of the cross products) says. In particular exactly one of less, equal, greater holds wherever the order on representatives is total.',
  ['inputs'], 'every pair of operands of the nine classes',
  'no test touches most of these operators; a flipped or non-strict comparison survives sampling of unequal values',
  PM + FR, [('comparison operators', 'each class')],
  'proof', AV, 'Each exit condition is compared with the defining condition in normal form.')

P('P18', 'Powers, greatest common divisors and extended gcd cofactors satisfy their defining equations',
  'Whenever exp returns for an integer modulo m, a polynomial residue, a rational number, a rational function or a polynomial, the value is x multiplied by itself n times for n > 0 and one for n = 0 and nonzero x; '
  'for n < 0 it is the power of the reciprocal in the residue and fraction classes, and a nonconstant polynomial raised to a negative power never returns a value. The same product is what int_power, the '
  'calculator\'s power operator and posexp of matrices and bit matrices return for n >= 0. gcd of two polynomials and int_gcd return their greatest common divisor up to a unit, and ext_gcd and '
  'int_ext_gcd in addition cofactors with m*a + n*b equal to the value returned.',
  ['inputs'], 'every base and exponent, and every pair of operands for which the Euclidean loop ends; given that division with remainder satisfies a = q*b + r',
  'square-and-multiply and Euclid err on particular bit patterns of the exponent or numbers of division steps; the suite has a few exponents and almost no cofactors',
  PM + FR + ['spffl/polynomials/', 'spffl/intmath/int_gcd.cpp', 'spffl/containers/tmatrix.h', 'spffl/bits/bit_matrix_t.cpp', 'spffl/cli_parser/'],
  [('square-and-multiply loops', 'exp and posexp of each class, clo_exp'), ('Euclid loops', 'gcd and ext_gcd of the five polynomial classes, int_gcd.cpp')],
  'proof', AV, 'Inductive loop invariants (R*X^E constant; rows x = y*a + z*b; the generated ideal) over the transfer functions of the loops; termination and overflow are not claimed.')

P('P19', 'Residue-ring and fraction arithmetic computes the defining formula',
  'Sum, difference, product, quotient, negation and (for residue rings) reciprocal of residue-ring elements equal, modulo the modulus, the corresponding ring expression in the representatives and keep the modulus; '
  'for rational numbers and rational functions they equal a/b op c/d by cross-multiplication. Compound assignments and copies leave exactly that value in the target, also when the operand is the target.',
  ['inputs'], 'every operand of the nine classes; integer scalar factors other than 0 and 1 are not covered',
  'sampled values cannot separate a wrong formula that coincides on small or symmetric operands',
  PM + FR, [('operators', 'each class')],
  'proof', AV, 'Equality of normal forms over a commutative ring; overflow of int is decided separately and assumed away here.')

AI = 'abstract interpretation of compiler IR (symbolic offsets, ownership and definedness)'
LN = 'whole-program IR rules over call graph and static data'
CONT = ['spffl/bits/', 'spffl/containers/', 'spffl/polynomials/', 'spffl/intmath/', 'spffl/rationals/']

P('P03', 'Integer arithmetic inside residue, bit and polynomial operations never overflows, divides by zero or over-shifts',
  'Inside the operations of integers modulo m, of bit vectors and bit matrices, of vectors and matrices of residues and of polynomials over GF(p), GF(2^n) and GF(p^n), no signed int addition, '
  'subtraction or multiplication (residue products, index and length computations) overflows, no shift count is out of range and no integer divisor is zero, for every modulus and residue that fit in an int.',
  ['inputs'], 'every operand of those operations with sizes below 2^30; operations listed as undecided in the evidence are not covered',
  'residue products overflow only for moduli above 2^15, which no test uses',
  ['spffl/intmath/intmod_t.cpp', 'spffl/bits/', 'spffl/containers/', 'spffl/polynomials/'],
  [('widening of products before reduction', 'spffl/intmath/intmod_t.cpp'), ('word and bit index arithmetic', 'spffl/bits/')],
  'proof', AI, 'Every obligation of every entry point decided on the reference tree; class invariants (0 <= residue < modulus, sizes) are assumed on entry and shown on exit by P05/P09.')

P('P05', 'No library operation reads or writes outside an object',
  'Bit vectors, bit matrices, vectors, matrices, stacks, factorization lists, polynomials, residues and rational functions never access memory outside the array they own, whatever sizes, degrees, '
  'indices (an index out of range raises the error), operand combinations or self-aliasing they are used with; and the size, capacity and degree every operation leaves behind describe the array that is really there.',
  ['inputs', 'histories'], 'every public operation of the library classes, given objects that satisfy their size invariants, which every operation re-establishes',
  'an overrun by one element is invisible in output comparisons and happens only at exact size or degree boundaries',
  CONT, [('index checks, allocation sizes, degree/size bookkeeping', 'constructors, operators and resizing functions of the container and polynomial classes')],
  'proof', AI, 'Inductive class invariants; entry points the analysis cannot decide on the reference tree are listed in the evidence and not covered.',
  state=[('num_elements/num_rows/num_cols/degree/capacity', 'the extent of the owned array', 'container and polynomial headers')])

P('P06', 'Library objects own their storage exclusively and release it exactly once',
  'Copying, assigning (also to itself), resizing, swapping, passing by value and destroying bit vectors and matrices, vectors, matrices, stacks, factorization lists and polynomials never leaves two objects sharing one array, '
  'never uses or frees an array that was already freed, and never drops the last reference to an array without freeing it.',
  ['inputs', 'histories'], 'every public operation of the library classes, aliased operands included; paths that end in an exception are not judged for lost memory',
  'double frees and sharing need a particular history of copies and destructions; leaks are invisible to tests',
  CONT, [('copy constructors, assignment operators, destructors, resizing', 'bit_vector_t, bit_matrix_t, tvector, tmatrix, tstack, tfacinfo, *_poly_t')],
  'proof', AI, 'Ownership of every block tracked through every operation; undecided entry points are listed in the evidence.')

P('P07', 'spiff commands never read arguments they were not given',
  'Whatever number of arguments a spiff command is run with, its handler never reads an element of the argument vector beyond the ones supplied, nor any other memory outside the objects it owns: too few arguments end in the usage message.',
  ['inputs'], 'every handler of the spiff tool and every argument count',
  'the regression scripts call each command with correct arguments only',
  ['cli/spiff/'], [('argument count checks at the head of each *_main', 'cli/spiff/*_handlers.cpp')],
  'proof', AI, 'Assumes usage functions do not return, which P17 decides. Handlers not decided on the reference tree are listed in the evidence.')

P('P08', 'No value is used before it was set',
  'Library operations never read a local variable, array element or object member that was not set before, and every constructor and assignment of the numeric, polynomial and container classes sets every member of the object.',
  ['inputs', 'histories'], 'every public operation and constructor of the library classes outside the command-line calculator',
  'an unset member often happens to hold zero in a test process',
  CONT, [('constructors, output parameters', 'all class sources')],
  'proof', AI, 'Definedness of every scalar member and of array contents per block; array contents filled by loops are tracked per range.')

P('P09', 'Integers modulo m are always stored between 0 and m-1',
  'Every integer modulo m that the library creates or updates, alone or as an element of a vector, matrix or polynomial, holds a residue between 0 and m-1, negative arguments included, so that equality of residues is equality of classes.',
  ['inputs', 'histories'], 'every operation creating or changing modular integers, given operands that satisfy it',
  'negative and extreme arguments are rarely sampled',
  ['spffl/intmath/intmod_t.cpp', 'spffl/polynomials/', 'spffl/containers/'], [('reduction in constructors and operators', 'spffl/intmath/intmod_t.cpp')],
  'proof', AI, 'Range facts at every exit; moduli are assumed positive. Discrete logarithms and the calculator\'s value stack are not covered.',
  state=[('residue, modulus', 'value and ring', 'spffl/intmath/intmod_t.h')])

P('P10', 'The library reports every error by its own exception, and the spiff tool always catches it',
  'No library function outside the calculator ends the process, calls a standard function that throws a foreign exception (string conversions, checked access), throws anything but the library\'s exception type, '
  'or throws out of a place where an exception cannot propagate (destructors and other non-throwing functions); the spiff tool catches the library\'s exception in main and then ends with a nonzero status.',
  ['inputs'], 'every throw site, call and exception edge of the library and the tool',
  'error paths are not exercised by the tests, and a lost exception type or status does not show in standard output',
  ['spffl/base/spffl_exception.h', 'spffl/', 'cli/spiff/spiff_main.cpp'], [('throw sites', 'whole library'), ('catch in main', 'cli/spiff/spiff_main.cpp')],
  'proof', LN, 'Every throw and call in the IR of the whole library is classified.')

P('P12', 'Vector and matrix arithmetic is the textbook elementwise definition',
  'For the vector and matrix templates (tvector, tmatrix) over every element type: sum, difference, negation, scalar multiple and (for vectors) componentwise product are taken element by element; dot product, matrix times vector and '
  'matrix times matrix are the row-by-column sums of products over the full inner dimension; adding or subtracting a scalar changes exactly the diagonal; transpose, the flips, get and put column and pasting move '
  'every element to its place; copying, assignment and filling reproduce every element. Compound forms leave the same result in the object itself, also when the operand is the object. '
  'Operands that are not targets are unchanged, and operands of unsuitable sizes are refused with the library\'s error rather than combined.',
  ['inputs'], 'every element position of every size, for every instantiated tvector<T> and tmatrix<T>, including the operand being the object itself',
  'tests multiply a few small, mostly square matrices of single sizes; a wrong bound, stride or index shows only at particular shapes or positions',
  ['spffl/containers/'], [('operators and movers', 'tvector.h, tmatrix.h'), ('row storage', 'tmatrix<T>::rows, tvector<T>::elements')],
  'proof', AV, 'Loops are summarised in closed form (element i as a function of i); sums are compared as expressions. Arithmetic of the element type is taken as ring operations.',
  state=[('elements, num_elements, rows, num_rows, num_cols', 'the stored elements', 'tvector.h, tmatrix.h')])

P('P13', 'Built-in tables contain exactly what they stand for',
  'The built-in tables hold the right values in every entry: the table of primes is exactly the primes below its limit in order and its count is right, the bit-count table gives the number of one bits of each byte, the nibble tables the positions of the highest and lowest one bit, '
  'and the constants of the pseudo-DES random generator are those of the published algorithm.',
  ['inputs'], 'every entry of every constant table (6,841 entries)',
  'a wrong entry in a table of thousands is met only if a test happens to hit it',
  ['spffl/intmath/', 'spffl/bits/', 'spffl/bitrand/'], [('static tables', 'primes_16.cpp, count_bits.cpp, log2.cpp, psdes.cpp')],
  'proof', 'static data compared with recomputed definitions', 'Table contents are read from the compiled data of the IR and recomputed independently.')

P('P14', 'Library operations share no hidden mutable state',
  'Apart from the random number generators and the cyclotomic polynomial cache, no library function changes data shared between calls or threads: no writes to static or global variables that are not thread-local, and no use of non-reentrant C library functions. '
  'Operations on distinct objects are therefore independent and may run in different threads.',
  ['schedules', 'histories'], 'every store and call in every library function',
  'hidden caches are wrong only across calls or under races; tests are single threaded and short',
  ['spffl/'], [('function-local statics and globals', 'whole library')],
  'proof', LN, 'Every store whose target may be a static object is enumerated.')

P('P15', 'Every spiff command performs the operation it is named for and has its own usage text',
  'Each command of the spiff dispatch table is registered once, under its own name, with a handler that calls the library operation the command is documented for and with the usage function belonging to that handler.',
  ['inputs'], 'all commands of the dispatch table',
  'swapped rows are visible only on the commands the regression suite runs, and usage texts never',
  ['cli/spiff/spiff_main.cpp', 'cli/spiff/'], [('lookup tables', 'cli/spiff/spiff_main.cpp'), ('handlers', 'cli/spiff/*_handlers.cpp')],
  'proof', LN, 'The required operation per command is written down in scope/commands.json; that the operation is called with the right operands is not decided here.')

P('P17', 'Results go to standard output, diagnostics to standard error with a failing status',
  'Library functions outside the calculator print nothing on standard output (except operators writing to a stream they are given); usage functions of the spiff tool write to standard error, never return and end with a nonzero status; '
  'a spiff handler that has written an error message to standard error does not end with status 0.',
  ['inputs'], 'every library function, usage function and error path of the tool',
  'the regression suite compares standard output of successful commands only',
  ['spffl/', 'cli/spiff/'], [('usage functions and error branches', 'cli/spiff/*_handlers.cpp')],
  'proof', LN, 'Call-graph and control-flow rule over every function; f2_polymod_matrix_is_diagonalizable, which narrates on request, is exempt.')

P('P20', 'Polynomial arithmetic acts on coefficients and degree as its definition says',
  'For polynomials over GF(2^n), GF(p), GF(p^n) and the rationals (f2n_poly_t, fp_poly_t, fpn_poly_t, q_poly_t): every coefficient of a sum, difference, product, negative, derivative, or product or quotient by a scalar '
  'is the one the definition gives in terms of the operands\' coefficients, and the degree kept with the result is the position of its highest nonzero coefficient (0 for constants). Constructors from coefficients, copies, '
  'assignments and set_coeff store exactly the coefficients they are given, get_coeff and promote read or raise exactly the ones there are, and eval returns the sum of coefficient times power. Compound assignments, also onto the operand itself, '
  'leave what the binary operator returns (including / and %, which agree with quot_and_rem). Equal means same degree and coefficients, and the four order comparisons go by degree, then by coefficients from the highest down.',
  ['inputs', 'histories'], 'every degree, every coefficient and every operand of the four classes, distinct or the same object',
  'a wrong bound or a degree left too high shows only when leading terms cancel, at particular degree gaps, or through an alias; the suite adds and multiplies a few short polynomials',
  ['spffl/polynomials/'], [('loops over coefficients, recompute_degree', 'f2n_poly_t.cpp, fp_poly_t.cpp, fpn_poly_t.cpp, q_poly_t.cpp')],
  'proof', AV, 'Coefficients are opaque elements of a commutative ring; positions are compared under linear inequalities. Bit-packed f2_poly_t, text input, p-th roots and increment are not covered.',
  state=[('coefficients, degree', 'array of coefficients and position of the highest one', 'the four *_poly_t.h')])

NA('P21', 'Factorization returns irreducible factors whose product is the input',
   'Factoring an integer or a polynomial over GF(2), GF(2^n), GF(p) or GF(p^n) returns powers of distinct irreducible factors together with a unit, whose product is exactly the value factored.',
   ['inputs'], 'every nonzero value', 'the suite factors a few dozen values; a lost repeated factor needs a particular shape',
   ['spffl/factorization/', 'spffl/intmath/int_gcd.cpp'], [('square-free split, Berlekamp subspace, recombination', 'spffl/factorization/*_factor.cpp')],
   'Irreducibility and the product identity are facts about values computed by nested data-dependent loops (Berlekamp null spaces, gcd recombination); no abstraction of source code in reach '
   'expresses them, and the algebraic argument for the algorithm itself is not visible in dataflow. The memory and ownership behaviour of this code is decided by P05, P06 and P08.')
NA('P22', 'Polynomial division with remainder returns the quotient and remainder',
   'For polynomials over each coefficient field quot_and_rem returns q and r with a = q b + r and deg r < deg b for every dividend and nonzero divisor.',
   ['inputs'], 'every pair of polynomials', 'identities over all degrees and coefficient patterns; the suite has a few pairs per field',
   ['spffl/polynomials/'], [('long division loops', 'spffl/polynomials/*_poly_t.cpp')],
   'The identity is an invariant of a loop whose trip count is a difference of degrees and whose state is a whole coefficient array updated in place (bit-packed for GF(2)); it needs inductive algebraic loop invariants '
   'over arrays, which dataflow or closed-form loop summaries cannot supply. P02, P04, P11, P18 and P19 take this identity as an assumption and say so.')
NA('P23', 'Linear algebra results satisfy their defining equations',
   'Row-reduced forms are row equivalent to the input, kernel bases are annihilated by the matrix and span the kernel, inverses and solutions satisfy their equations, and determinant and rank agree with the mathematical ones.',
   ['inputs'], 'every matrix over every field', 'tests reduce a few small matrices',
   ['spffl/containers/tmatrix.h', 'spffl/bits/bit_matrix_t.cpp', 'spffl/linalg/'], [('row reduction', 'tmatrix<T>::row_reduce_below, row_echelon_form'), ('kernel', 'tmatrix<T>::kernel_basis')],
   'Pivot choice is data dependent, and the results are characterised by span and annihilation over all rows: relations between whole arrays across nested loops that no static abstraction in reach '
   'represents. The elementwise building blocks are decided by P12, the storage behaviour by P05, P06 and P08.')
NA('P24', 'Number-theoretic functions return the mathematical value',
   'gcd, modular reciprocal, totient, Moebius, order, discrete logarithm, primitivity and irreducibility tests, and the n-th prime agree with their definitions for every argument.',
   ['inputs'], 'every int (or polynomial) argument', 'the suite samples small arguments',
   ['spffl/intmath/', 'spffl/units/'], [('loops over divisors, powers and residues', 'spffl/intmath/*.cpp, spffl/units/*.cpp')],
   'Each is a number-theoretic fact about the value a data-dependent loop converges to; intervals, congruences and symbolic normal forms of the code do not express divisibility over all divisors or the order of a unit.')
NA('P25', 'Every operation and command terminates',
   'For every input each library operation and spiff command returns or raises an error after finitely many steps.',
   ['inputs'], 'every input', 'a hang on an unusual input is not sampled',
   ['spffl/', 'cli/spiff/'], [('loops driven by remainders, orders and random search', 'whole library')],
   'The loops end because a Euclidean remainder shrinks in degree, a unit has finite order, or a random search succeeds with probability 1: the first two need the algebraic facts of P22 and P24 as ranking arguments, '
   'the third does not terminate on every random stream. No syntactic ranking function in reach decides enough of these loops to be worth a verdict.')
NA('P26', 'Text input and output round-trip',
   'Writing any value of a library type to a stream or string and reading it back in the same context yields an equal value, in every supported radix and separator form.',
   ['inputs'], 'every value of every printable type', 'tests read fixed literals and compare fixed output',
   ['spffl/polynomials/', 'spffl/containers/', 'spffl/bits/'], [('operator<<, operator>>, to_string, from_string', 'each class')],
   'Printing goes through iostream and printf formatting state and parsing through library scanners, whose effect on text is outside the analysed program; relating the two needs a model of formatted I/O over unbounded strings. '
   'What parsing leaves behind (reduced, normalised, in bounds, nothing leaked) is decided by P02, P05, P06, P09 and P11.')
NA('P27', 'Random values are uniformly distributed and enumerations visit every element once',
   'Random residues and polynomials are uniform over their range, and the list and enumeration functions yield every element of the requested set exactly once.',
   ['inputs', 'histories'], 'all generator states and all parameters', 'distribution and completeness are properties of the whole run',
   ['spffl/random/', 'spffl/bitrand/', 'spffl/list/'], [('generators and loops over all polynomials', 'spffl/random/*.cpp, spffl/list/*.cpp')],
   'Uniformity is a statement about a probability distribution and completeness about the multiset of values printed by a run; neither is a property of a path or of a state the static families here can represent.')
