NB = 'check not built yet'
p('C01', 'Construction and conversion only produce valid, enclosing intervals',
  'Building an interval from bounds, from bounds with a decoration, from another interval or from another precision yields exactly that interval, or the tightest enclosure in the target format when a bound is not representable, with the decoration prescribed by IEEE 1788 (never com on an unbounded interval, never ill except on NaI). Bounds that do not describe an interval give the empty interval or NaI and raise the undefined-operation flag. Taking the interval part, setting a decoration and promoting a bare interval follow the same rules.',
  'every pair of bounds (all bit patterns incl. NaN, infinities, signed zero), every decoration value, every source/target precision pair, bare and decorated',
  'the unit tests construct a few dozen literal intervals; the validity and decoration rules quantify over all bound/decoration combinations and over narrowing conversions that round outward',
  [CLS, UT, VAL, 'p1788/infsup/interval.hpp', 'p1788/infsup/decorated_interval.hpp'], [('bound validation and outward rounding of narrowing conversions', CLS), ('validity predicate', VAL), ('directed conversions', UT)])
p('C02', 'Interval comparisons match their set-theoretic definition',
  'Each comparison and recognition predicate (empty, entire, common, singleton, NaI, equal, subset, less, precedes, interior, strictly less, strictly precedes, disjoint, membership) returns exactly the truth value IEEE 1788 defines for the two sets of reals, including for empty, unbounded and zero-bounded intervals and for operands of different precision. A NaI or invalid operand makes every such comparison false.',
  ALLIN + ', for both operands, bare and decorated, same and mixed precision',
  'tests sample fixed literals; the predicates are boolean combinations over ties, infinities, empty sets and mixed formats whose corner cases multiply',
  [BOOL, P + 'rec_bool_func_impl.hpp', 'p1788/infsup/base_interval_bool_func_impl.hpp'], [('comparison formulas on bounds', BOOL), ('recognition predicates', P + 'rec_bool_func_impl.hpp')])
p('C03', 'Overlap classification is exact and exclusive',
  'For any two intervals the overlap relation returns exactly the one of the sixteen IEEE 1788 states that describes their position, including when either is empty, a singleton, unbounded, or of another precision. Invalid or NaI operands yield the undefined state.',
  ALLIN + ', for both operands, bare and decorated, same and mixed precision', 'sixteen states decided by chained comparisons; tests hit each state with a handful of literals and never all tie combinations',
  [P + 'rec_overlap_impl.hpp', 'p1788/overlapping/overlapping.hpp'], [('cascade of bound comparisons', P + 'rec_overlap_impl.hpp')])
p('C04', 'Intersection and convex hull are tight and carry the right decoration',
  'Intersection returns exactly the common points (empty when there are none) and convex hull the smallest interval containing both operands, rounded outward to the tightest enclosure when the result precision is narrower. Decorated results are trv, or NaI if an operand is NaI or invalid.',
  ALLIN + ', for both operands, every precision combination in the bound', 'corner cases of empty and touching operands and outward rounding in narrowing cannot be enumerated by literals',
  [P + 'set_op_impl.hpp', UT], [('min/max of bounds and empty handling', P + 'set_op_impl.hpp'), ('outward conversion', UT)])
p('C05', 'Basic arithmetic encloses and is the tightest in the format',
  'Negation, addition, subtraction, multiplication, division, reciprocal, square, square root and fused multiply-add return the tightest representable interval containing every real result over the operands restricted to the domain, and the empty interval when the domain is missed. Decorated versions return in addition the strongest decoration justified by the operands and the domain; operands of mixed precision give the same guarantee after outward rounding.',
  ALLIN + ', for one, two and three operands, in float and double (long double in the thorough tier)', 'containment is a statement about all operand bounds: sign cases, zero ends, infinities, overflow and subnormal results; the tests fix literals',
  [EL, MV, MVI, UT], [('case analysis on signs with directed rounding', EL), ('exponent range and subnormal rounding', MVI)])
p('C06', 'Integer and real powers enclose tightly and are decorated correctly',
  'Integer power and real power return the tightest representable interval containing all values of the function over the operand box inside its domain, including zero and negative bases, zero, negative and extreme exponents, unbounded operands, overflow and underflow. The decoration reflects exactly whether the operands stay in the domain of the function.',
  ALLIN + '; all 32-bit exponents for integer power', 'parity and sign of the exponent, zero in the base and position relative to 1 create dozens of cases; tests sample a few exponents',
  [EL, MVI], [('case analysis of pown and pow', EL)], note='Integer power with the exponent -2147483648 is included.')
p('C07', 'Exponentials and logarithms enclose tightly with correct domain handling',
  'exp, exp2, exp10, log, log2 and log10 return the tightest representable interval containing the image of the operand inside the domain, empty when the operand lies outside the domain, and a decoration that drops to trv exactly when the operand leaves the domain.',
  ALLIN, 'rounding direction, overflow/underflow and domain edges must be right for every bound', [EL, MVI], [('directed evaluation of monotone functions with domain clipping', EL)])
p('C08', 'Trigonometric functions and inverses enclose tightly',
  'sin, cos, tan, asin, acos, atan and atan2 return the tightest representable interval containing the image of the operand inside the domain (extrema of sin and cos attained inside the operand give exactly -1 or 1, a pole of tan inside or touched gives entire), empty when the operand lies outside the domain, and a decoration that drops to trv or def exactly when the operand leaves the domain or continuity. For operands whose width, rounded up, equals the rounded-up value of 2*pi (sin, cos) or pi (tan), the whole range is accepted as well.',
  ALLIN + '; operands of any magnitude', 'whether an extremum or a pole lies inside depends on the position of the bounds relative to multiples of pi/2, for bounds of any magnitude; branch cuts of atan2 depend on zeros and signs; tests sample a few literals', [EL, MVI], [('quadrant analysis of sin and cos, pole detection of tan', EL), ('directed evaluation with clipping to [-1,1]', EL), ('case analysis of atan2', EL)])
p('C09', 'Hyperbolic functions and inverses enclose tightly',
  'sinh, cosh, tanh, asinh, acosh and atanh return the tightest representable interval containing the image of the operand inside the domain (cosh also across its minimum), empty when the operand lies outside it, and a decoration that drops to trv exactly when the operand leaves the domain.',
  ALLIN, 'domain edges, the minimum of cosh and overflow must be right for every bound', [EL, MVI], [('directed evaluation with domain clipping', EL)])
p('C10', 'Rounding, sign, absolute value, minimum and maximum are exact',
  'sign, ceil, floor, trunc, both roundings to nearest integer, absolute value, minimum and maximum return exactly the range of the point function over the operands, rounded outward only when the result format is narrower. Decorations are com or dac only where the point function is continuous on the operand, def when it is constant but discontinuous there, and def otherwise, limited by the operand decorations.'.replace('def when it is constant but discontinuous there, and def otherwise', 'dac when its restriction is constant although the function jumps at a bound, and def otherwise'),
  ALLIN, 'the continuity decorations depend on whether bounds are integers or half-integers; large and subnormal arguments are not in the tests',
  [EL], [('integer rounding and continuity analysis', EL)])
p('C11', 'Numeric functions of intervals are correctly rounded',
  'Lower bound, upper bound, width, magnitude, mignitude, midpoint, radius and the midpoint-radius pair return the value IEEE 1788 specifies, rounded in the required direction: midpoint is the nearest number to the exact midpoint without spurious overflow or underflow, radius is the smallest number such that midpoint +/- radius encloses the operand. Empty, unbounded, invalid and NaI operands give the specified infinities, extreme finite numbers or NaN, and zeros carry the specified sign.',
  ALLIN + ', for each result precision', 'overflow of the sum of bounds, subnormal halving and double rounding only show for special operand pairs',
  [NUM, MV, MVI], [('extended exponent range midpoint', NUM), ('radius from the rounded midpoint', NUM)])

p('C12', 'Cancellative subtraction and addition recover the exact operand',
  'cancel_minus(x, y) returns the tightest interval enclosing the exact solution z of y + z = x (bounds lower(x)-lower(y) and upper(x)-upper(y), rounded outward) exactly when both are bounded and the exact width of y does not exceed the exact width of x; an empty x with bounded y gives empty; in every other case, including unbounded operands, empty y with non-empty x, and widths that differ by less than any rounding error, the result is entire. cancel_plus(x, y) equals cancel_minus(x, -y) with -y exact, for every mix of precisions. Decorated results are trv, or NaI when an operand is NaI or invalid.',
  ALLIN + ', for both operands, every precision combination in the bound', 'the decision compares two exact widths that are not representable; rounding ties, cancellation and operands of different precision only matter for special bit patterns',
  [P + "cancel_func_impl.hpp", "p1788/util/mpfr_util.hpp"], [("exact comparison of widths through error-free sums", P + "cancel_func_impl.hpp")], note="cancel_plus with an invalid second operand is excluded (its result is not specified by the library).")

p('C13', 'Reverse sqr, abs, cosh and pown return the tightest inverse image',
  'sqr_rev(c, x), abs_rev(c, x), cosh_rev(c, x) and pown_rev(c, x, p) return the tightest representable interval containing every t in x whose image lies in c, empty when there is none, and the one-operand versions do the same with x unrestricted. Points of x outside the real inverse image never survive because of outward rounding of its end points (for pown_rev, touching a rounded end may survive). Decorated results are trv, or NaI when an operand is NaI or invalid. Every precision combination that the interface documents is usable.',
  ALLIN + ', for both operands, every precision combination in the bound; every 32-bit exponent', 'the inverse image has two branches whose ends round outward; whether a branch that only touches x counts depends on exactness of the rounded end', [REV, MVI],
  [('inverse branches, exactness flags and hull', REV)], note='For p < -1 the correction loops of the helpers are unrolled until the facts about the two roundings of 1/root (at most three representable numbers apart) end them.')
p('C15', 'Reverse multiplication returns the tightest solution sets',
  'mul_rev(b, c) and mul_rev(b, c, x) return the tightest representable interval containing every t (in x) with b*t in c for some point of b; mul_rev_to_pair(b, c) returns the same set as at most two intervals, the negative part first, the second empty unless 0 is interior to b and c excludes 0. Entire is returned when 0 is in both. Decorated pairs carry the decoration of a division for the first part and trv for the second, mul_rev is trv; NaI or invalid operands give NaI.',
  ALLIN + ', for two or three operands, every precision combination in the bound', 'sign cases, zero ends, infinities and touching x multiply; tests sample literals', [P + 'mul_rev_to_pair_func_impl.hpp', REV, MVI],
  [('sign case analysis of extended division', P + 'mul_rev_to_pair_func_impl.hpp'), ('intersection with x and exclusion of inexact touching ends', REV)])
p('C25', 'Every API form of an operation reaches the same operation',
  'For bare and decorated intervals alike, the static member function, its mixed-precision version, the free function and the operator of an operation all deliver exactly the result the flavor computes for the given operands in the given order: no form calls another operation, swaps, drops or repeats an operand, or alters the result. The converse comparisons (superset, greater, succeeds, contains_interior and the strict ones) are the basic ones with exchanged operands, != is the negation of ==. Every constructor and constant maps to its documented flavor function, and copying preserves the value. Stream operators return their stream after forwarding it.',
  'all operand values (opaque symbols), every operation, bare and decorated, same and mixed precision forms over float, double and long double', 'over a thousand generated forwarding functions; the tests exercise a fraction of the mixed forms with literals whose results often coincide',
  ['p1788/infsup/base_interval.hpp', 'p1788/infsup/interval.hpp', 'p1788/infsup/decorated_interval.hpp'] + ['p1788/infsup/base_interval_%s_impl.hpp' % x for x in ('bool_func', 'cancel_func', 'elem_func', 'io', 'mul_rev_to_pair_func', 'num_func', 'rec_bool_func', 'rec_overlap', 'rev_func', 'set_op')],
  [('forwarding templates', 'p1788/infsup/base_interval_elem_func_impl.hpp'), ('constructors', 'p1788/infsup/interval.hpp')],
  note='The flavor is a template parameter; the harness instantiates the front end with a recording flavor whose results are injective symbolic tokens of function, result type and operands.')
EXC = 'p1788/exception/exception.hpp'
p('C17', 'Exception flags are exact, sticky and throw exactly when enabled',
  'Every operation raises the invalid-operand flag exactly when some operand is not a valid interval (or the decoration value is not one of the five), constructors raise undefined-operation exactly when the bounds or the bounds/decoration combination describe no interval, taking the interval part raises its flag exactly for NaI, and nothing else is raised. Flags already set stay set; the query functions report them and clear() resets them. An exception of the matching type is thrown exactly when a raised flag is enabled in the throw mask, and the mask itself never changes by an operation.',
  'every operand bit pattern, all 16 flag states and all 16 throw masks before the call, for all forward, reverse, set, comparison, numeric and construction functions of the flavor', 'the tests check flags after a few constructor calls only; spurious or missing flags on ordinary operations and the interaction with the throw mask are not tested',
  [EXC, VAL, CLS, EL, REV], [('flag word and throw mask', EXC), ('validity predicate as the only source of invalid-operand', VAL)], state=[dict(name='exception state',meaning='sticky word of the exceptions signalled since the last clear',where=EXC),dict(name='exceptions enabled for throwing',meaning='mask of the exceptions that are thrown when signalled',where=EXC)], over=('inputs', 'histories'),
  note='sin_rev, cos_rev and tan_rev are out of bound.')
p('C19', 'Reductions return the correctly rounded exact result',
  'sum, sum_abs, sum_sqr and dot of a sequence (iterator and initializer-list forms) return the exact real value of the sum, sum of absolute values, sum of squares or dot product rounded once in the requested direction, whatever cancellation, intermediate overflow or underflow occurs. The empty sequence gives zero; NaN elements, opposite infinities and products of zero and infinity give NaN, otherwise infinite terms dominate; a zero result is negative only when rounding downward. No memory or MPFR variable is leaked.',
  'every bit pattern of every element in float, double and long double, all four rounding modes, up to 3 elements (5 in the thorough tier)', 'exactness under cancellation, intermediate over/underflow and subnormal results concerns rare combinations of exponents; tests use small literals',
  ['p1788/reduction/reduction.hpp', MV, MVI], [('exact summation of exact products in an unlimited exponent range, then one rounding', 'p1788/reduction/reduction.hpp')],
  note='mpfr_sum is taken to round the exact sum once (MPFR contract); what is decided is which exact terms reach it and how its result is brought into the format.')
p('C20', 'Interval literals are read as the tightest enclosure or rejected',
  'Reading text (bare, decorated, or from a stream) accepts exactly the interval literals of IEEE 1788: [], [empty], [entire], [nai], one- and two-bound forms, bounds given as decimal, hexadecimal or rational number with optional sign and exponent or as (missing) infinity, the uncertain form m?r with ulps, unbounded radius, direction and exponent, and an optional admissible decoration, case-insensitive with optional white space. Accepted text gives the tightest interval enclosing the exact value in the target format with the decoration written or implied (dac at most when a bound is infinite). Anything else is rejected: empty or NaI with the undefined-operation signal, or a failed stream; an accepted literal leaves the stream right behind it. No exception or resource leaks.',
  'for each of about 100 literal shapes: every digit, sign-relevant character, white space, letter case and (for the shapes with free positions) every byte value, in float, double and long double, for the bare, the decorated and the stream entry point', 'the grammar has dozens of alternatives sharing capture groups, and values must be rounded outward exactly; tests read a few hundred fixed literals',
  [IO, CLS, 'p1788/util/io.hpp', 'p1788/decoration/decoration.hpp', 'p1788/util/mpfr_var.hpp'], [('regular expressions for the literals and the capture group dispatch', IO), ('exact rational value and directed conversion', IO), ('string front ends', CLS)],
  note='std::regex, string streams, strtol, GMP integers and rationals and correctly rounded mpfr_set_q are modelled (se/streams.py); the classic locale and default exception mask are assumed. Literals of other shapes or with more symbolic digits are out of bound; exponents beyond +-1000000 are saturated by the library, so the order of two such bounds is not compared.')
IOM = 'p1788/io/io_manip.hpp'; DEC = 'p1788/decoration/decoration.hpp'; OVL = 'p1788/overlapping/overlapping.hpp'
p('C21', 'Bounds output is an outward-rounded text in the selected layout',
  'Writing a bare or decorated interval in the bounds form prints the lower bound rounded down and the upper bound rounded up in the selected number format, letter case and precision, so the printed interval always encloses the interval; special intervals, NaI, punctuation, number width, total width and the decoration suffix follow the selected manipulators. An invalid interval writes nothing. Writing never fails, never changes the settings of the stream, and touches no memory outside its buffers.',
  'every bit pattern of the bounds and every decoration, against every combination of the listed manipulator values (letter case, 4 number formats, 3 special forms, punctuation, decoration form, several widths and precisions)', 'the settings multiply to thousands of layouts; tests print a few dozen fixed combinations with harmless widths',
  [IO, CLS, IOM], [('rounding direction and format string of each bound', IO), ('string width and punctuation layout', IO)], state=[dict(name='manipulator settings', meaning='iword slots of the stream', where=IOM)],
  note='The characters of a printed number are abstract: sign, infinity and layout exact, digits symbolic, equal requests give equal text, rounded decimals are ordered (MPFR printf contract). Printed numbers have at most two integer digits or an exponent among 0, 1, -2; texts are at most 72 characters.')
p('C22', 'Uncertain-form output encloses the interval with the least radius',
  'Writing an interval in the uncertain form (symmetric, upward or downward) prints a number, a radius in units of its last printed digit, the direction and, if selected, the exponent, such that the denoted interval contains the printed enclosure of the interval and the radius is the least such integer; the number is the midpoint, the lower or the upper bound. Unbounded intervals print ?? with the right direction, empty and NaI intervals their special text, invalid intervals nothing. Width and letter case follow the manipulators. Writing never throws and leaks or overruns no memory.',
  'every bit pattern of the bounds, three directions, with and without exponent, several widths and precisions', 'digit alignment, carries and different exponents of bounds and midpoint only show for special magnitudes; tests print a few literals',
  [IO, IOM], [('decimal difference of printed bounds and the least covering radius', IO)],
  note='Same abstraction of printed numbers as C21; one digit after the point, at most two integer digits, exponents among 0, 1, -2 for the finite forms.')
p('C23', 'Decorations, overlap states and stream settings are written and read right',
  'Writing a decoration or an overlap state gives its name in the selected letter case or its number; the last manipulator of a kind wins and the defaults are lower case and names. Each manipulator sets exactly its own setting to its own value, writes nothing and returns its stream. Reading a decoration accepts, after optional white space when skipws is set, exactly the five three-letter names in any letter case and the numbers 0, 4, 8, 12 and 16, and leaves the stream right behind; anything else sets failbit and leaves the variable unchanged.',
  'all decorations and states, all sequences of two manipulators, all prior values of all settings, every byte of the texts read (up to 5 bytes, numbers up to 20 digits)', 'the tests read and write a few fixed strings; the rejected texts and the independence of the settings are not covered',
  [DEC, OVL, IOM, 'p1788/util/io.hpp'], [('decoration text input and output', DEC), ('overlap state output', OVL), ('manipulators', IOM)], state=[dict(name='manipulator settings', meaning='iword slots of the stream', where=IOM)], over=('inputs', 'histories'),
  note='std::istream/ostream are modelled (se/streams.py); decimal basefield, classic locale and no failing sink are assumed.')
