# conversions, sinks and field adapters
SG = "   inline bool string_to_type_converter_impl(Iterator& itr_external, const Iterator end, T& result, signed_type_tag)\n"
UN = "   inline bool string_to_type_converter_impl(Iterator& itr_external, const Iterator end, T& result, unsigned_type_tag)\n"
RE = "   inline bool string_to_type_converter_impl(Iterator& itr_external, const Iterator end, T& t, real_type_tag)\n"
B("N01-neg-limit", "N01", [(SG,'''         T last_digit = (*itr == '-') ? numeric<T>::ldneg : numeric<T>::ldpos;''','''         T last_digit = (*itr == '-') ? numeric<T>::ldneg : numeric<T>::ldpos;
         const bool long_text = std::distance(itr_external,end) > 20;'''),(SG,'''(static_cast<T>(digit) <= last_digit)''','''(static_cast<T>(digit) <= (long_text ? static_cast<T>(numeric<T>::ldneg) : last_digit))''')],
  "a positive text one above the greatest value with more than 20 characters, leading zeros included", "it is accepted and overflows",
  '''int i = 7; CHECK(!strtk::string_to_type_converter(S("000000000000002147483648"),i)); CHECK(i == 7); CHECK(strtk::string_to_type_converter(S("000000000000002147483647"),i)); CHECK(i == 2147483647); CHECK(strtk::string_to_type_converter(S("-00000000000002147483648"),i)); CHECK(i == -2147483647 - 1);''')
B("N01-high-byte", "N01", [(UN,'''            case N : if (strtk_likely((digit = (*itr++ - '0')) < 10)) \\
                        t = t * 10 + static_cast<T>(digit);           \\''','''            case N : if (strtk_likely((digit = static_cast<unsigned char>((*itr++ & 0x7F) - '0')) < 10)) \\
                        t = t * 10 + static_cast<T>(digit);           \\''')],
  "a byte 0xB0..0xB9 among the digits", "bytes outside ASCII count as digits",
  '''unsigned int i = 7; CHECK(!strtk::string_to_type_converter(S("1\\xB2" "3"),i)); CHECK(i == 7); CHECK(strtk::string_to_type_converter(S("123"),i)); CHECK(i == 123);''')
B("N01-zero-plus", "N01", [(UN,'''         while ((end != itr) && ('0' == (*itr))) ++itr;
''','''         const Iterator first = itr;
         while ((end != itr) && ('0' == (*itr))) ++itr;
         if ((end == itr) && (std::distance(first,itr) > 20)) return false;
''')],
  "a zero written with more than twenty zeros", "it is refused",
  '''unsigned int i = 7; CHECK(strtk::string_to_type_converter(S("0000000000000000000000000"),i)); CHECK(i == 0);''')
TS = "      inline bool type_to_string_converter_impl(T valuex, std::string& result, signed_type_tag)\n"
TU = "      inline bool type_to_string_converter_impl(T value, std::string& result, unsigned_type_tag)\n"
B("N02-ten-groups", "N02", [(TS,'''            while (value >= radix)
            {
               const TT v = value;''','''            while ((value > radix) || ((value == radix) && (!negative || (itr == buffer + buffer_size))))
            {
               const TT v = value;''')],
  "a negative number whose digits are 10 followed by complete groups of three", "the leading 10 is printed as one character",
  '''CHECK(strtk::type_to_string(-10) == "-10"); CHECK(strtk::type_to_string(-10123) == "-10123"); CHECK(strtk::type_to_string(-10123456) == "-10123456");''')
B("N02-min", "N02", [(TS,'''         TT value = (negative) ? -TT(valuex) : valuex;''','''         TT value = (negative) ? -TT(valuex + (valuex == (std::numeric_limits<T>::min)() ? 1 : 0)) : valuex;''')],
  "the smallest value of a signed type", "the text of the smallest value is that of its successor",
  '''CHECK(strtk::type_to_string((std::numeric_limits<long long>::min)()) == S("-9223372036854775808")); CHECK(strtk::type_to_string((std::numeric_limits<int>::min)()) == S("-2147483648"));''')
B("N03-exp-plus-zero", "N03", [(RE,'''         if (strtk_unlikely((end != itr) || (!instate)))''','''         if (strtk_unlikely(((end != itr) && ('l' != (*itr))) || (!instate)))''')],
  "something behind an l or L suffix that starts with l", "1.5ll and 1.5fl are accepted",
  '''double d = 7; CHECK(!strtk::string_to_type_converter(S("1.5ll"),d)); CHECK(!strtk::string_to_type_converter(S("1.5fl"),d)); CHECK(d == 7); CHECK(strtk::string_to_type_converter(S("1.5l"),d)); CHECK(d == 1.5);''')
B("N03-inf-sign", "N03", [("   inline bool parse_inf(Iterator& itr, const Iterator end, T& t, bool negative)\n",'''         if (negative)
            t = -std::numeric_limits<T>::infinity();''','''         if (negative && (3 == length))
            t = -std::numeric_limits<T>::infinity();''')],
  "the long spelling of a negative infinity", "-infinity is read as a positive infinity",
  '''double d = 7; CHECK(strtk::string_to_type_converter(S("-infinity"),d)); CHECK(d < 0); CHECK(strtk::string_to_type_converter(S("-inf"),d)); CHECK(d < 0); CHECK(strtk::string_to_type_converter(S("infinity"),d)); CHECK(d > 0);''')
B("N03-mixed-case", "N03", [("   inline bool parse_nan(Iterator& itr, const Iterator end, T& t)\n",'''         else if ((static_cast<type>('A') != *(itr + 1)) || (static_cast<type>('N') != *(itr + 2)))''','''         else if (((static_cast<type>('A') != *(itr + 1)) && (static_cast<type>('a') != *(itr + 1))) || (static_cast<type>('N') != *(itr + 2)))''')],
  "the spelling NaN with a capital N at either end and a small a", "NaN in mixed case is accepted",
  '''double d = 7; CHECK(!strtk::string_to_type_converter(S("NaN"),d)); CHECK(d == 7); CHECK(strtk::string_to_type_converter(S("NAN"),d)); CHECK(d != d);''')
B("N04-nineteen", "N04", [("            struct numeric_convert_impl<T,Iterator,19>\n".replace("            ","         ",1),'''t += static_cast<T>((itr[0] - '0') * 1000000000000000000LL);''','''t += static_cast<T>(((itr[0] - '0') & 7) * 1000000000000000000LL);''')],
  "nineteen digits the first of which is 8 or 9", "the first digit is lost",
  '''unsigned long long v = 0; CHECK(strtk::fast::numeric_convert(S("9000000000000000001"),v)); CHECK(v == 9000000000000000001ULL); CHECK(strtk::fast::numeric_convert(S("7000000000000000001"),v)); CHECK(v == 7000000000000000001ULL);''')
B("N04-signed-zero-run", "N04", [("      inline bool signed_numeric_convert(Iterator itr,\n",'''         while ((end != itr) && ('0' == (*itr))) ++itr;''','''         while ((end != itr) && ('0' == (*itr))) { ++itr; if (digit_check && (end != itr) && ('+' == (*itr))) ++itr; }''')],
  "a plus sign behind a leading zero", "a checked conversion accepts a sign in the middle",
  '''int v = 7; CHECK(!strtk::fast::signed_numeric_convert(S("0+12"),v,true)); CHECK(strtk::fast::signed_numeric_convert(S("-0012"),v,true)); CHECK(v == -12);''')
H = "   class hex_to_number_sink\n"
B("P05-hex-overlong", "P05", [(H,'''         if ((size > 2) && ((*s.first) == '0') && (((*(s.first + 1)) == 'x') || ((*(s.first + 1)) == 'X')))
            offset = 2;''','''         if ((size > 2) && ((*s.first) == '0') && (((*(s.first + 1)) == 'x') || ((*(s.first + 1)) == 'X')))
            offset = 2;
         else if ((size == 2 * sizeof(T) + 1) && ((*s.first) == '0'))
            offset = 1;''')],
  "one hex digit more than the type holds, the first a zero", "a field of too many digits is accepted",
  '''unsigned int u = 7; strtk::hex_to_number_sink<unsigned int> h(u); h = S("0DEADBEEF"); CHECK(!h.valid()); CHECK(u == 7); h = S("0xDEADBEEF"); CHECK(h.valid()); CHECK(u == 0xDEADBEEF);''')
B("P05-b64-plus", "P05", [("   class base64_to_number_sink\n",'''                    ('+' == c) ||
                    ('/' == c) ||
                    ('=' == c);'''.replace("\n","\n"),'''                    ('+' == c) ||
                    ('/' == c) ||
                    ('-' == c) ||
                    ('=' == c);''')],
  "a minus sign inside a base64 number", "a field with a byte outside the alphabet is accepted",
  '''unsigned int u = 7; strtk::base64_to_number_sink<unsigned int> h(u); h = S("AAE-"); CHECK(!h.valid()); CHECK(u == 7); h = S("AAEC"); CHECK(h.valid());''')
B("P05-trunc-dot", "P05", [("   class truncated_int\n",'''         InputIterator new_end = std::find(begin, end, fullstop);''','''         InputIterator new_end = std::find(begin, end, fullstop);
         if ((new_end != end) && (std::distance(new_end,end) == 1) && (size > 10)) return false;''')],
  "a number of ten or more characters with nothing behind the point", "it is refused",
  '''int v = 0; strtk::truncated_int<int> t; t(v); S s("1234567890."); CHECK(strtk::parse(s,",",t)); CHECK(v == 1234567890);''')
B("P05-decimal-neg-frac", "P05", [("   class decimal_sink\n",'''         (*t_) = static_cast<T>((negative) ? -d : d);''','''         (*t_) = static_cast<T>((negative && (d >= real_t(1))) ? -d : d);''')],
  "a negative number whose integer part is zero", "the sign is lost",
  '''double v = 0; strtk::decimal_sink<double> t(v,5,5); S s("-0.25"); CHECK(strtk::parse(s,",",t)); CHECK(v == -0.25);''')
B("P05-decimal-zeros", "P05", [("   class decimal_sink\n",'''         while ((end != itr) && ('0' == (*itr))) ++itr;
''','''         { std::size_t z = 0; while ((end != itr) && ('0' == (*itr)) && (z < 8)) { ++itr; ++z; } }
''')],
  "more leading zeros than eight plus the integer size", "the zeros count as integer digits",
  '''double v = 0; strtk::decimal_sink<double> t(v,2,2); S s("00000000000012.5"); CHECK(strtk::parse(s,",",t)); CHECK(v == 12.5);''')
B("P04-inrange-store", "P04", [("      class inrange_impl\n",'''            T temp;
            if (!strtk::string_to_type_converter(begin, end, temp))
               return false;
            else if (temp < low_)
               return false;
            else if (temp > hi_)
               return false;
            (*t_) = temp;''','''            T temp;
            if (!strtk::string_to_type_converter(begin, end, temp))
               return false;
            else if (temp < low_)
               return false;
            else if (hi_ < temp)
            {
               if (low_ < hi_) return false;
            }
            (*t_) = temp;''')],
  "a range that consists of one value", "values above it are accepted",
  '''int v = 0; S s("6"); CHECK(!strtk::parse(s,",",strtk::inrange(v,5,5).ref())); CHECK(v == 0); S t("5"); CHECK(strtk::parse(t,",",strtk::inrange(v,5,5).ref())); CHECK(v == 5);''')
B("P04-trim-all", "P04", [("         struct convert_impl <std::string>\n",'''                  case 2  : remove_trailing        (rem_chars,t); break;''','''                  case 2  : { const std::string u = t; remove_trailing(rem_chars,t); if (t.empty()) t = u; } break;''')],
  "a trailing trim of a field made of the trimmed characters only", "such a field is not trimmed",
  '''S v("q"), s("   ,x"); int d = 0; (void)d; S w; CHECK(strtk::parse(s,",",strtk::trim_trailing(" ",v).ref(),w)); CHECK(v == ""); CHECK(w == "x");''')
B("P04-ucase-short", "P04", [("      class conv_to_ucase_impl\n",'''            s.assign(begin,end);
            convert_to_uppercase(s);''','''            s.assign(begin,end);
            convert_to_uppercase(to_ptr(s),to_ptr(s) + (s.size() > 64 ? 64 : s.size()));''')],
  "a field of more than 64 characters", "only the first 64 characters are converted",
  '''S v, s(100,'a'); CHECK(strtk::parse(s,",",strtk::as_ucase(v).ref())); CHECK(v == S(100,'A'));''')
B("P04-fill-short", "P04", [("      class fill_array_impl\n",'''            if (range_size != size_)
               return false;''','''            if ((range_size != size_) && !((range_size < size_) && (size_ > 32)))
               return false;''')],
  "an array of more than 32 bytes and a shorter field", "a field that is too short is accepted",
  '''char b[40] = {0}; S s(39,'a'); CHECK(!strtk::parse(s,",",strtk::fill_array(b).ref())); CHECK(b[0] == 0); S t(40,'b'); CHECK(strtk::parse(t,",",strtk::fill_array(b).ref())); CHECK(b[39] == 'b');''')
B("N05-stream-word", "N05", [("      inline bool type_to_string_converter_impl(const T& t, std::string& s, not_supported_type_tag)\n",'''               s = ss.str();''','''               ss >> s;''')],
  "a type whose output contains white space, or none at all", "only the first word becomes the text",
  '''P p = {1,2}; CHECK(strtk::type_to_string(p) == S("( 1 2 )"));''', "-Dstrtk_no_tr1_or_boost", "struct P { int x, y; }; std::ostream& operator<<(std::ostream& o, const P& p) { return o << \"( \" << p.x << ' ' << p.y << \" )\"; }")
