EL = SB + 'elem_func_impl.hpp'
B('B01', 'C05', EL, [('l.subnormalize(mpfr_div(l(), xu(), yl(), MPFR_RNDD), MPFR_RNDD);\n            mpfr_set_inf(u(), +1);', 'l.subnormalize(mpfr_div(l(), xu(), yl(), MPFR_RNDD), MPFR_RNDU);\n            mpfr_set_inf(u(), +1);', 0)],
  'R r = FD::div(R(-4*MIN, -3*MIN), R(-2.0, 0.0)); CHECK(eq(r, MIN, inf)); r = FD::div(R(-8.0,-4.0),R(-2.0,0.0)); CHECK(eq(r,2.0,inf));',
  'a negative divided by an interval [a,0] with a subnormal quotient', 'lower bound of the quotient rounded up when it is subnormal: containment lost')
B('B02', 'C06', EL, [('(p < 0 && is_member(0.0,x)) || is_empty(bare)', '(p < 0 && x.first.first < 0.0 && x.first.second > 0.0) || is_empty(bare)')],
  'RD r = FD::pown(RD(R(0.0, 2.0), D::com), -3); CHECK(eqd(r, 0.125, inf, D::trv)); RD q = FD::pown(RD(R(-2.0, 0.0), D::com), -2); CHECK(eqd(q, 0.25, inf, D::trv));',
  'decorated integer power with a negative exponent and an operand whose end is zero', 'decoration dac although the function is undefined at the zero end')
B('B03', 'C11', SB + 'num_func_impl.hpp', [('mr.second = mpfr_cmp(xl(), xu()) > 0 ?', 'mr.second = mpfr_cmpabs(xl(), xu()) >= 0 && mpfr_sgn(m()) != 0 ?', 0)],
  'R x(-5*MIN, 5*MIN); CHECK(FD::rad(x) == 5*MIN); R y(-3*MIN, 4*MIN); double m = FD::mid(y); CHECK(FD::rad(y) >= std::max(4*MIN - m, m + 3*MIN)); R z(-MIN, 0.0); m = FD::mid(z); CHECK(FD::rad(z) >= std::max(0.0 - m, m + MIN)); R w(-MIN, 0.0); CHECK(FD::rad(w) == MIN);',
  'an operand whose midpoint rounds to zero', 'radius is the smaller distance: midpoint +/- radius does not enclose the operand')
B('B04', 'C10', EL, [('!is_singleton(bare) ? p1788::decoration::decoration::def :\n                                            std::abs(x.first.first) - std::trunc(std::abs(x.first.first)) == 0.5       // if x == 0.5 => trunc(x) == 0.0 => exact\n                                            || std::abs(x.first.second) - std::trunc(std::abs(x.first.second)) == 0.5  //', '!is_singleton(bare) ? p1788::decoration::decoration::def :\n                                            std::abs(x.first.first) - std::trunc(std::abs(x.first.first)) == 0.5       // if x == 0.5 => trunc(x) == 0.0 => exact\n                                            || x.first.second - std::trunc(x.first.second) == 0.5  //')],
  'RD r = FD::round_ties_to_even(RD(R(-0.25, 0.5), D::com)); CHECK(r.second == D::dac); RD q = FD::round_ties_to_even(RD(R(-2.25, -1.5), D::com)); CHECK(eqd(q, -2.0, -2.0, D::dac));',
  'a negative upper bound that is a tie', 'decoration com although the function is discontinuous at the upper bound')
B('B05', 'C02', SB + 'bool_func_impl.hpp', [('return is_empty(x) || mpfr_bin_ieee754_flavor<T_>::is_empty(y) || x.second < y.first || y.second < x.first;', 'return is_empty(x) || mpfr_bin_ieee754_flavor<T_>::is_empty(y) || x.second < static_cast<T>(y.first) || static_cast<T>(y.second) < x.first;')],
  'double t = 1.0 + 1e-12; CHECK(FF::disjoint(RF(0.0f, 1.0f), R(t, 2.0))); CHECK(!FF::disjoint(RF(0.0f, 1.0f), R(1.0, 2.0)));',
  'a float interval compared with a double interval whose bound differs by less than a float ulp', 'disjoint intervals reported as not disjoint')
B('B06', 'C03', SB + 'rec_overlap_impl.hpp', [('        if (x.first <= y.second)\n', '        if (x.first <= y.second && y.first <= y.second - 0 * y.first)\n')],
  'const p1788::overlapping::overlapping_state a = FD::overlap(R(1.0, 5.0), R(-inf, 3.0)); CHECK(a == p1788::overlapping::overlapping_state::overlapped_by); CHECK(FD::overlap(R(1.0,5.0), R(0.0,3.0)) == p1788::overlapping::overlapping_state::overlapped_by);',
  'second operand unbounded below', 'overlapping intervals classified as after')
B('B07', 'C04', SB + 'set_op_impl.hpp', [('    // Error free for floating point inf-sup intervals due to  outward rounding\n    return convert_hull(\n               mpfr_bin_ieee754_flavor<T_MAX>::intersection(\n                   mpfr_bin_ieee754_flavor<T_MAX>::convert_hull(x),\n                   mpfr_bin_ieee754_flavor<T_MAX>::convert_hull(y)\n               )\n           );', '    return intersection(convert_hull(x), convert_hull(y));', 0)],
  'RF r = FF::intersection(R(1.0, 1.0 + 1e-12), R(1.0 + 2e-12, 2.0)); CHECK(eqf(r, NAN, NAN)); r = FF::intersection(R(0.0, 1.5), R(1.0, 2.0)); CHECK(eqf(r, 1.0f, 1.5f));',
  'two double operands, float result, disjoint by less than a float ulp', 'bounds are rounded to the result precision before intersecting, so a non-empty result appears')
B('B08', 'C01', SB + 'class_impl.hpp', [('std::isinf(tmp.first) || std::isinf(tmp.second)\n', 'std::isinf(lower) || std::isinf(upper)\n')],
  'RFD r = FF::nums_dec_to_decorated_interval(1.0, 1e300, D::com); CHECK(r.second == D::dac && r.first.second == std::numeric_limits<float>::infinity()); r = FF::nums_dec_to_decorated_interval(1.0, 2.0, D::com); CHECK(r.second == D::com);',
  'a finite bound that overflows in the narrower target with decoration com', 'an unbounded interval decorated com')
B('B09', 'C12', SB + 'cancel_func_impl.hpp', [('if (lower_dist.first < upper_dist.first || (lower_dist.first == upper_dist.first && lower_dist.second < upper_dist.second))', 'if (lower_dist.first < upper_dist.first)')],
  'double e = std::ldexp(1.0, -60); CHECK(eq(FD::cancel_minus(R(0.0, 1.0), R(0.5, 1.5)), -0.5, -0.5)); CHECK(eq(FD::cancel_minus(R(e, 1.0), R(0.5, 1.5)), -inf, inf));',
  'overlapping operands whose widths differ by less than half an ulp of the distance of their bounds', 'the width comparison ignores the low-order part: a non-entire result although y is wider than x')
B('B10', 'C07', EL, [('    return convert_hull(\n               mpfr_bin_ieee754_flavor<T_MAX>::exp10(\n                   mpfr_bin_ieee754_flavor<T_MAX>::convert_hull(x)\n               )\n           );', '    return exp10(convert_hull(x));', 0)],
  'RF r = FF::exp10(R(5.1, 5.1)); CHECK(r.second == std::nextafter(r.first, 1e9f));', 'a double operand that is not a float, float result', 'the operand is rounded to the result precision first: the enclosure is not tight')
B('B12', 'C08', EL, [('x.first.first < -1.0 || x.first.second > 1.0 || is_empty(bare) ?  p1788::decoration::decoration::trv', 'std::ceil(x.first.first) < -1.0 || std::floor(x.first.second) > 1.0 || is_empty(bare) ?  p1788::decoration::decoration::trv', 0)],
  'RD r = FD::asin(RD(R(0.0, 1.5), D::com)); CHECK(r.second == D::trv); CHECK(FD::asin(RD(R(0.0, 1.0), D::com)).second == D::com);', 'an operand that leaves the domain by less than one', 'decoration com although asin is undefined on part of the operand')
B('B13', 'C05', 'p1788/util/mpfr_var_impl.hpp', [('', '')], '', '', '')
BUGS.pop()
B('B11', 'C09', SB + 'elem_func_impl.hpp', [('x.first.first <= -1.0 || x.first.second >= 1.0', 'x.first.first < -1.0 || x.first.second >= 1.0')], 'RD r = FD::atanh(RD(R(-1.0, 0.0), D::com)); CHECK(eqd(r, -inf, 0.0, D::trv));', 'an operand that starts exactly at -1', 'decoration dac although atanh is undefined at -1')
