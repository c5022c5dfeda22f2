EL = SB + 'elem_func_impl.hpp'; NF = SB + 'num_func_impl.hpp'; RV = SB + 'rev_func_impl.hpp'; CL = SB + 'class_impl.hpp'
def mixed1(f): return ('    return convert_hull(\n               mpfr_bin_ieee754_flavor<T_MAX>::%s(\n                   mpfr_bin_ieee754_flavor<T_MAX>::convert_hull(x)\n               )\n           );' % f, '    return %s(convert_hull(x));' % f)
B('B20', 'C01', CL, [('    if (lower <= upper\n            && lower != std::numeric_limits<L_>::infinity()\n            && upper != -std::numeric_limits<U_>::infinity())\n    {\n        return representation(convert_rndd(lower), convert_rndu(upper));', '    if (convert_rndd(lower) <= convert_rndu(upper)\n            && lower != std::numeric_limits<L_>::infinity()\n            && upper != -std::numeric_limits<U_>::infinity())\n    {\n        return representation(convert_rndd(lower), convert_rndu(upper));')],
  'CHECK(eqf(FF::nums_to_interval(1.0 + 1e-12, 1.0), NAN, NAN)); CHECK(eqf(FF::nums_to_interval(1.0, 1.5), 1.0f, 1.5f));',
  'bounds in the wrong order that differ by less than an ulp of the narrower target', 'an invalid pair of bounds yields an interval instead of the empty set')
B('B21', 'C03', SB + 'rec_overlap_impl.hpp', [('            if (x.first == y.first)\n', '            if (x.first == y.first && (x.first - y.first == 0.0 || x.second == y.second))\n')],
  'typedef p1788::overlapping::overlapping_state O; CHECK(FD::overlap(R(-inf, 1.0), R(-inf, 2.0)) == O::starts); CHECK(FD::overlap(R(0.0, 1.0), R(0.0, 2.0)) == O::starts); CHECK(FD::overlap(R(-inf, 1.0), R(-inf, 1.0)) == O::equal);',
  'two operands unbounded below, the first one shorter', 'classified as contained_by instead of starts')
B('B22', 'C11', NF, [('m.subnormalize(mpfr_check_range(m(), t, MPFR_RNDN), MPFR_RNDN);', 'm.subnormalize(mpfr_check_range(m(), 0 * t, MPFR_RNDN), MPFR_RNDN);')],
  'double v = std::ldexp(2.5 + std::ldexp(1.0, -30), -149); CHECK(FF::mid(R(v, v)) == std::ldexp(3.0, -149)); CHECK(FF::mid(R(1.0, 2.0)) == 1.5f);',
  'double operand, float result, a midpoint that is just above a tie between two subnormal floats', 'the midpoint is rounded twice and not the nearest number')
B('B23', 'C12', SB + 'cancel_func_impl.hpp', [('    typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;', '    typedef typename p1788::util::max_precision_type<T,T1>::type T_MAX;', 0)],
  'RF r = FF::cancel_minus(RF(0.0f, 1.0f), R(0.0, 1.0 - 1e-12)); CHECK(r.first == 0.0f && r.second > 0.9e-12f && r.second < 2e-12f); CHECK(eqf(FF::cancel_minus(RF(0.0f, 1.0f), R(0.0, 0.5)), 0.0f, 0.5f));',
  'float result, float first operand and a double second operand that is not representable as float', 'the second operand is widened first: the result does not contain the difference')
B('B24', 'C13', RV, [('        t_u = u.subnormalize(mpfr_sqrt(u(), u(), MPFR_RNDU), MPFR_RNDU);\n    }\n    else', '        u.subnormalize(mpfr_sqrt(u(), u(), MPFR_RNDU), MPFR_RNDU);\n    }\n    else')],
  'double s = std::nextafter(std::sqrt(2.0), 2.0); if (std::sqrt(2.0L) < (long double)std::sqrt(2.0)) s = std::sqrt(2.0); CHECK(eq(FD::sqr_rev(R(-1.0, 2.0), R(s, 5.0)), nan_, nan_)); CHECK(eq(FD::sqr_rev(R(-1.0, 4.0), R(2.0, 5.0)), 2.0, 2.0));',
  'c straddles zero and x starts exactly at the upward-rounded root', 'a point whose square exceeds c is reported')
B('B25', 'C15', SB + 'mul_rev_to_pair_func_impl.hpp', [('            t_fl = l.subnormalize(mpfr_div(l(), cl(), bu(), MPFR_RNDD), MPFR_RNDD);\n\n            return std::pair<representation, representation>(representation(l.template get<T>(MPFR_RNDD), std::numeric_limits<T>::infinity()), empty());', '            t_fl = l.subnormalize(mpfr_div(l(), cl(), bu(), MPFR_RNDD), MPFR_RNDU);\n\n            return std::pair<representation, representation>(representation(l.template get<T>(MPFR_RNDD), std::numeric_limits<T>::infinity()), empty());')],
  'auto r = FD::mul_rev_to_pair(R(0.0, 2.0), R(3*MIN, 5.0)); CHECK(eq(r.first, MIN, inf)); CHECK(eq(r.second, nan_, nan_));',
  'b = [0,x], c positive and a subnormal quotient', 'the lower bound is rounded up: solutions are lost')
B('B26', 'C17', CL, [('    else if (is_nai(other))\n    {\n        p1788::exception::signal_interval_part_of_nai();\n        return empty();\n    }\n\n    return other.first;', '    else if (is_nai(other))\n    {\n        p1788::exception::clear();\n        p1788::exception::signal_interval_part_of_nai();\n        return empty();\n    }\n\n    return other.first;', 0)],
  'using namespace p1788::exception; clear(); FD::nums_to_interval(2.0, 1.0); CHECK(undefined_operation()); FD::interval_part(FD::nai()); CHECK(interval_part_of_nai()); CHECK(undefined_operation());',
  'an undefined operation followed by the interval part of NaI', 'the earlier exception flag is lost')
B('B27', 'C19', 'p1788/reduction/reduction.hpp', [('        mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2);\n\n        mpfr_var tmp_a', '        mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2 - 1);\n\n        mpfr_var tmp_a')],
  'double a = std::nextafter(2.0, 0.0); double x[2] = {a, 4.0}; double y[2] = {a, -1.0 }; y[1] = -(1.0 - std::ldexp(1.0, -53)*2); double r = p1788::reduction::dot(x, x + 2, y, p1788::reduction::rnd_mode::to_nearest); std::printf("%a\\n", r); CHECK(r == std::ldexp(1.0, -104));',
  'a product that needs all bits of the double length and cancels against another one', 'the exact dot product is rounded before the sum')
B('B28', 'C20', CL, [('    char c;\n    while(s.get(c))\n        if (!std::isspace(c))\n        {\n            p1788::exception::signal_undefined_operation();\n            return nai();', '    char c;\n    while(s.get(c))\n        if (std::isgraph(c))\n        {\n            p1788::exception::signal_undefined_operation();\n            return nai();')],
  'RD r = FD::text_to_decorated_interval(std::string("[1,2]\\001")); CHECK(eqd(r, nan_, nan_, D::ill)); CHECK(eqd(FD::text_to_decorated_interval("[1,2] "), 1.0, 2.0, D::com));',
  'a valid literal followed by a control character', 'an invalid literal is accepted')
B('B29', 'C21', SB + 'io_impl.hpp', [("std::string(width - width / 2, ' ')\n           << part4", "std::string(width / 2, ' ')\n           << part4")],
  'std::ostringstream s; s << p1788::io::string_width(21); FD::operator_interval_to_text(s, R(1.0, 2.0)); std::printf("%s\\n", s.str().c_str()); CHECK(s.str().size() == 21); std::ostringstream t; t << p1788::io::string_width(22); FD::operator_interval_to_text(t, R(1.0, 2.0)); CHECK(t.str().size() == 22);',
  'a string width that leaves an odd number of blanks', 'the text is one character shorter than the requested width')
B('B30', 'C22', SB + 'io_impl.hpp', [("str = xl.get_str(MPFR_RNDD,", "str = xl.get_str(MPFR_RNDN,")],
  'std::ostringstream s; s << p1788::io::uncertain; FD::operator_interval_to_text(s, R(2.0/3, inf)); std::printf("%s\\n", s.str().c_str()); RD r; std::istringstream i(s.str()); FD::operator_text_to_interval(i, r); CHECK(r.first.first <= 2.0/3);',
  'uncertain form of an interval unbounded above whose lower bound is rounded up to the precision', 'the text does not enclose the interval')
B('B31', 'C23', 'p1788/decoration/decoration.hpp', [('switch (n)\n                {\n                case 0x00:', 'switch (static_cast<uint8_t>(n))\n                {\n                case 0x00:')],
  'std::istringstream s("260"); D d = D::com; s >> d; CHECK(!s); std::istringstream t("4"); t >> d; CHECK(t && d == D::trv);',
  'a number that equals a decoration modulo 256', 'an invalid decoration number is read as trv')
B('B32', 'C09', EL, [mixed1('cosh') + (1,)],
  'RFD r = FF::cosh(RD(R(0.1 + 1e-10, 0.1 + 1e-10), D::com)); CHECK(r.first.second == std::nextafter(r.first.first, 2.0f)); RFD q = FF::cosh(RD(R(-1e-4, 1e-300), D::com)); CHECK(q.first.first == 1.0f); for (int i = 1; i < 2000; ++i) { double v = i * 0.01; RFD p = FF::cosh(RD(R(v, v), D::com)); CHECK(p.first.second <= std::nextafter(p.first.first, 3e38f)); }',
  'decorated double operand that is not a float, float result', 'the operand is widened first: the enclosure is not tight')
B('B33', 'C06', EL, [('z_lower.subnormalize(mpfr_pow(z_lower(), x_upper(), y_lower(), MPFR_RNDD), MPFR_RNDD);', 'z_lower.subnormalize(mpfr_pow(z_lower(), x_upper(), y_lower(), MPFR_RNDD), MPFR_RNDU);', 1)],
  'R r = FD::pow(R(0.5, 3.0), R(-670.5, -1.0)); std::printf("%a %a\\n", r.first, r.second); R q = FD::pow(R(2.0, 3.0), R(-670.5, -1.0)); CHECK(q.first == r.first); CHECK(r.first < std::ldexp(1.0, -1022));',
  'x straddles one, y negative, and the smallest value is subnormal', 'the lower bound is rounded up: containment lost')
B('B34', 'C07', EL, [mixed1('log10') + (1,)],
  'for (int i = 1; i < 2000; ++i) { double v = 2 + i * 0.01; RFD p = FF::log10(RD(R(v, v), D::com)); CHECK(p.first.second <= std::nextafter(p.first.first, 100.0f)); } CHECK(FF::log10(RD(R(1e-50, 1.0), D::com)).second == D::com);',
  'decorated double operand that is not a float, float result', 'the operand is widened first: not tight, and a positive operand may get decoration trv')
B('B35', 'C08', EL, [('l1.subnormalize(mpfr_sin(l1(), xl(), MPFR_RNDD), MPFR_RNDD);\n    l2.', 'l1.subnormalize(mpfr_sin(l1(), xl(), MPFR_RNDD), MPFR_RNDU);\n    l2.')],
  'R r = FD::sin(R(4*MIN, 1.0)); CHECK(r.first <= 4*MIN && r.first > 0.0); std::printf("%a\\n", r.first); CHECK(r.first == 3*MIN);',
  'a subnormal lower bound', 'the lower bound of the sine is rounded up: containment lost')
B('B36', 'C10', EL, [mixed1('ceil') + (1,)],
  'RFD r = FF::ceil(RD(R(1.0 + 1e-12, 1.5), D::com)); CHECK(r.first.first == 2.0f && r.first.second == 2.0f);',
  'decorated double operand slightly above an integer, float result', 'the operand is widened first: result [1,2] instead of [2,2]')
B('B37', 'C05', EL, [('u.subnormalize(mpfr_fma(u(), xl(), yl(), zu(), MPFR_RNDU), MPFR_RNDU);\n            tmp.', 'u.subnormalize(mpfr_fma(u(), xl(), yl(), zu(), MPFR_RNDU), MPFR_RNDN);\n            tmp.')],
  'R r = FD::fma(R(-3*MIN, MIN), R(-0.375, 0.25), R(0.0, 0.0)); CHECK(eq(r, -MIN, 2*MIN)); r = FD::fma(R(-3*MIN, MIN), R(-0.4, 0.1), R(0.0, 0.0)); CHECK(r.second == 2*MIN);',
  'both factors straddle zero and the largest product is subnormal', 'the upper bound is rounded to nearest: containment lost')
B('B38', 'C02', SB + 'bool_func_impl.hpp', [('', '')], '', '', '')
BUGS.pop()
B('B39', 'C13', RV, [('        if (is_member(1.0, c))\n            return x;', '        if (c.first <= 1.0 && c.second >= 1.0 - std::numeric_limits<T>::epsilon())\n            return x;')],
  'CHECK(eq(FD::pown_rev(R(0.0, 1.0 - std::numeric_limits<double>::epsilon()), R(2.0, 3.0), 0), nan_, nan_)); CHECK(eq(FD::pown_rev(R(0.0, 1.0), R(2.0, 3.0), 0), 2.0, 3.0));',
  'exponent zero and an upper bound of c just below one', 'the operand is returned although no point has the value in c')
B('B40', 'C13', RV, [('cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);\n            cu.', 'cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDN), MPFR_RNDD);\n            cu.', 1)],
  'for (int i = 1; i < 500; ++i) { double c = i * 0.37; R r = FD::pown_rev(R(c, c + 1), R(-inf, inf), 3); CHECK(std::pow((long double)r.first, 3) <= (long double)c); }', 'odd positive exponent and an inexact root whose nearest number lies above it', 'the lower bound is rounded to nearest: solutions lost')
B('B41', 'C11', NF, [('    mpfr_var_max m(mr.first, MPFR_RNDN);\n    mpfr_var_max xl(x.first, MPFR_RNDD);', '    mpfr_var m(mr.first, MPFR_RNDN);\n    mpfr_var xl(x.first, MPFR_RNDD);'), ('    mpfr_var_max xu(x.second, MPFR_RNDU);\n', '    mpfr_var xu(x.second, MPFR_RNDU);\n'), ('    mpfr_var_max::setup();\n\n    // Error free because', '    mpfr_var::setup();\n\n    // Error free because')],
  'bool over = false; for (int i = 1; i < 500; ++i) { double l = i * 0.37, u = l + i * 1e-3 + 1e-9; float m = FF::mid(R(l, u)), r = FF::rad(R(l, u)); double e = std::max((double)m - l, u - (double)m); CHECK(r >= e); CHECK(std::nextafter(r, 0.0f) < e); } ',
  'double operand, float result', 'the radius is computed from widened bounds: larger than the smallest enclosing one')
B('B42', 'C12', SB + 'cancel_func_impl.hpp', [('        if (x_wid.first < y_wid.first || (x_wid.first == y_wid.first && x_wid.second < y_wid.second))', '        if (x_wid.first < y_wid.first || (x_wid.first == y_wid.first && x_wid.second + y_wid.second < 0.0 && x_wid.second < y_wid.second))')],
  'double e = std::ldexp(1.0, -60); R x(-1.0, -e), y(0.0, 1.0); CHECK(eq(FD::cancel_minus(x, y), -inf, inf)); R x2(2.0, 3.0), y2(-1.0, e); CHECK(eq(FD::cancel_minus(x2, y2), -inf, inf));',
  'disjoint operands whose widths agree in the leading part and differ in the low-order part', 'a result that does not reproduce x although y is wider')
B('B43', 'C20', SB + 'io_impl.hpp', [('                        "|(?:([+-]?[0-9]+)\\\\s*/\\\\s*([0]*[1-9][0-9]*))"                                              // rational\n                        "|(?:[+]?(inf', '                        "|(?:([+-]?[0-9]+)\\\\s*/\\\\s*([1-9][0-9]*))"                                              // rational\n                        "|(?:[+]?(inf')],
  'CHECK(eq(FD::text_to_interval("[1/4,1/02]"), 0.25, 0.5)); CHECK(eq(FD::text_to_interval("[1/04,1/2]"), 0.25, 0.5));', 'a rational upper bound whose denominator has a leading zero', 'a valid literal is rejected')
B('B44', 'C21', SB + 'io_impl.hpp', [("os_.iword(p1788::io::string_width_manip_id) = size_;\n", "if (os_.iword(p1788::io::string_width_manip_id) > 0) os_.iword(p1788::io::string_width_manip_id) = size_;\n")],
  'std::ostringstream s; s << p1788::io::string_width(3); FD::operator_interval_to_text(s, RD(R(1.0, 2.0), D::com)); CHECK(s.iword(p1788::io::string_width_manip_id) == 3); s << p1788::io::string_width(30); FD::operator_interval_to_text(s, RD(R(1.0, 2.0), D::com)); CHECK(s.iword(p1788::io::string_width_manip_id) == 30);',
  'a decorated interval printed with a string width not larger than its decoration', 'the string width of the stream is changed by printing')
B('B45', 'C05', 'p1788/util/mpfr_var_impl.hpp', [('', '')], '', '', '')
BUGS.pop()
