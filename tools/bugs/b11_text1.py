B("S01-strnlen", "S01", [('''   template <typename OutputIterator>
   inline std::size_t split(const char* delimiters,
                            const std::string& str,
                            OutputIterator out,
                            const split_options::type& split_option = split_options::default_mode)
   {
      if (1 == details::strnlength(delimiters,256))''','''   template <typename OutputIterator>
   inline std::size_t split(const char* delimiters,
                            const std::string& str,
                            OutputIterator out,
                            const split_options::type& split_option = split_options::default_mode)
   {
      if (1 >= details::strnlength(delimiters,256))''')],
  "splitting by an empty C string of delimiters on text containing a NUL", "an empty delimiter list splits at NUL characters",
  '''VS v; CHECK(strtk::split("", S("a\\0b", 3), strtk::range_to_type_back_inserter(v)) == 1); CHECK(v[0].size() == 3);''')
B("S01-option-include", "S01", [('''      if (compress_delimiters && (!include_delimiters))
      {
         return details::split_compress_delimiters(delimiter,begin,end,out);''','''      if (compress_delimiters && (!include_1st_delimiter))
      {
         return details::split_compress_delimiters(delimiter,begin,end,out);''')],
  "compress_delimiters combined with include_all_delimiters", "delimiters are left out although they were asked for",
  '''VS v; strtk::split_options::type o = (strtk::split_options::type)(strtk::split_options::compress_delimiters | strtk::split_options::include_all_delimiters); strtk::split(",", S("a,,b"), strtk::range_to_type_back_inserter(v), o); CHECK(v[0] == "a,,");''')
B("S02-char-overload", "S02", [('''      while (end != range.second)
      {
         if (delimiter(*range.second))
         {
            if (include_delimiters)
            {
               if (include_1st_delimiter)
                  ++range.second;
               else
                  while ((end != range.second) && delimiter(*range.second)) ++range.second;
               (*out) = range;
               ++out;

               if (++match_count >= token_count)
                  return match_count;
''','''      while (end != range.second)
      {
         if (delimiter(*range.second))
         {
            if (include_delimiters)
            {
               if (include_1st_delimiter)
                  ++range.second;
               else
                  while ((end != range.second) && delimiter(*range.second)) ++range.second;
               (*out) = range;
               ++out;

               if (++match_count == static_cast<unsigned char>(token_count))
                  return match_count;
''')],
  "an including split_n with n of 256 or more", "n is compared modulo 256, so too many or too few tokens are delivered",
  '''S s; for (int i = 0; i < 300; ++i) s += "x,"; VS v; CHECK(strtk::split_n(",", s, 257, strtk::range_to_type_back_inserter(v), strtk::split_options::include_1st_delimiter) == 257); CHECK(v.size() == 257);''')
B("S03-pluseq", "S03", [('''               for (int i = 0; i < inc; ++i, ++(*this)) ;''','''               for (int i = 0; i < inc; ++i) { if (last_token_done_) break; ++(*this); }''')],
  "advancing an iterator with += beyond the last token", "the iterator stays on the last token instead of reaching end()",
  '''S s = "a,b"; strtk::single_delimiter_predicate<char> p(','); typedef strtk::std_string::tokenizer<>::type T; T t(s, p); T::iterator i = t.begin(); i += 2; CHECK(i == t.end());''')
B("S03-assign-options", "S03", [('''            begin_itr_        = t.begin_itr_;
            tokenize_options_ = t.tokenize_options_;''','''            begin_itr_        = t.begin_itr_;''')],
  "one tokenizer assigned to another that has other options, and a second text assigned to it afterwards", "the text assigned after the copy is walked with the options the tokenizer had before the copy",
  '''S s = "a,b", s2 = "c,d"; strtk::single_delimiter_predicate<char> p(','); typedef strtk::std_string::tokenizer<>::type T; T t(s, p, strtk::tokenize_options::include_1st_delimiter), u(s, p); u = t; u.assign(s2.c_str(), s2.c_str() + 3); CHECK((*u.begin()).second - (*u.begin()).first == 2);''')
B("S04-atleast-tail", "S04", [('''         if (count >= n)
         {
            std::advance(itr,-static_cast<int>(count));
            return typename range_type<Iterator>::type(itr,itr + count);
         }
         else
            return typename range_type<Iterator>::type(end,end);''','''         if (count > n)
         {
            std::advance(itr,-static_cast<int>(count));
            return typename range_type<Iterator>::type(itr,itr + count);
         }
         else
            return typename range_type<Iterator>::type(end,end);''')],
  "a run of exactly n characters at the very end of the text", "the last run is not reported",
  '''S s = "ab 123"; std::vector<std::pair<char*,char*> > v; strtk::split_on_consecutive(3, strtk::find_type::digits, strtk::find_mode::atleast_n, s, std::back_inserter(v)); CHECK(v.size() == 1);''')
B("S04-match-exact", "S04", [('''               if (0 == --count)
                  return true;
               else
                  ++itr;
            }
            else
               return false;''','''               if (0 == --count)
                  return true;
               else
                  ++itr;
            }
            else
               ++itr;''')],
  "a range in which the characters of the class are not consecutive", "match_n_consecutive accepts non-consecutive characters",
  '''char s[] = "1a2"; CHECK(!strtk::match_n_consecutive<char*>(2, strtk::find_type::digits, strtk::find_mode::exactly_n, std::make_pair(s, s + 3)));''')
B("T01-consec-prev", "T01", [('''         while ((end != itr1) && (!predicate(*itr1) || !predicate(prev)))
         {
            if (itr1 != itr2)
            {
               (*itr2) = (*itr1);
            }
            prev = (*itr1);''','''         while ((end != itr1) && (!predicate(*itr1) || !predicate(prev)))
         {
            if (itr1 != itr2)
            {
               (*itr2) = (*itr1);
               prev = (*itr2);
            }
            else if (predicate(*itr1))
               prev = (*itr1);''')],
  "a single matching character, then others, then again a matching one, before anything has been removed", "a lone matching character later in the text is removed although it is not in a run",
  '''S s = "a b c"; strtk::remove_consecutives_inplace(' ', s); CHECK(s == "a b c");''')
B("T01-trailing-cstr", "T01", [('''   inline void remove_trailing(const char* rem_chars, std::string& s)
   {
      const std::size_t removal_count = remove_trailing(multiple_char_delimiter_predicate(
                                                        rem_chars,
                                                        rem_chars + details::strnlength(rem_chars,256)),''','''   inline void remove_trailing(const char* rem_chars, std::string& s)
   {
      const std::size_t removal_count = remove_trailing(multiple_char_delimiter_predicate(
                                                        rem_chars,
                                                        rem_chars + details::strnlength(rem_chars,25)),''')],
  "a C string of more than 25 characters to remove", "characters after the 25th of the list are not removed",
  '''S s = "Hello Zz"; strtk::remove_trailing("abcdefghijklmnopqrstuvwxyzZ", s); CHECK(s == "Hello ");''')
B("T01-dup-high", "T01", [('''      std::string result;
      result.reserve(str.size());
      for (std::size_t i = 0; i < str.size(); ++i)
      {
         const char c = str[i];''','''      std::string result;
      result.reserve(str.size());
      for (std::size_t i = 0; i < str.size() && result.size() < 0xFF; ++i)
      {
         const char c = str[i];''')],
  "text in which all 256 byte values occur", "the 256th distinct byte is lost",
  '''S s; for (int i = 0; i < 256; ++i) s += (char)i; s += s; CHECK(strtk::remove_duplicates(s).size() == 256);''')
B("T01-empty-multiset", "T01", [('''      typename std::multiset<std::string,Comparator,Allocator>::iterator itr = set.begin();

      while (set.end() != itr)
      {
         if ((*itr).empty())
            set.erase(itr++);
         else
            ++itr;
      }''','''      typename std::multiset<std::string,Comparator,Allocator>::iterator itr = set.find(std::string());

      if (set.end() != itr)
      {
         set.erase(itr);
      }''')],
  "a multiset holding the empty string more than once", "only one of the empty strings is removed",
  '''std::multiset<S> m; m.insert(""); m.insert(""); m.insert("a"); strtk::remove_empty_strings(m); CHECK(m.size() == 1);''')
B("T03-inc-size", "T03", [('''         delta =  delta_list[i] - (delta_list[i - 1] + p_size);''','''         delta =  static_cast<unsigned short>(delta_list[i] - (delta_list[i - 1] + p_size));''')],
  "two occurrences more than 65535 characters apart", "text between far apart occurrences is lost",
  '''S s = "ab" + S(70000, 'x') + "abz", n; strtk::replace_pattern(s, S("ab"), S("c"), n); CHECK(n == "c" + S(70000, 'x') + "cz");''')
B("T03-itr-overlap", "T03", [('''            ++count;
            new_size += inc;
            s_itr = temp_s_itr;''','''            ++count;
            new_size += inc;
            ++s_itr;''')],
  "a pattern that overlaps itself in the text", "overlapping occurrences are counted, so the reported size is wrong (and the search runs on)",
  '''S s = "aaa", p = "aa", r = "b", o; alarm(20); CHECK(strtk::replace_pattern(s.begin(), s.end(), p.begin(), p.end(), r.begin(), r.end(), std::back_inserter(o)) == 2); CHECK(o == "ba");''', prelude="#include <unistd.h>\n")
B("T03-partial-end", "T03", [('''            if (*(temp_s_itr++) != *(p_itr++))
            {
               found = false;
               temp_s_itr = pattern_start;
               ++temp_s_itr;
               break;
            }''','''            if (*(temp_s_itr++) != *(p_itr++))
            {
               found = false;
               break;
            }''')],
  "a partial match directly followed by a real one", "the real occurrence after a partial one is skipped",
  '''S s = "aab", p = "ab", r = "c", o; alarm(20); strtk::replace_pattern(s.begin(), s.end(), p.begin(), p.end(), r.begin(), r.end(), std::back_inserter(o)); CHECK(o == "ac");''', prelude="#include <unistd.h>\n")
B("T04-iter-case", "T04", [('''      return details::match_impl<details::cs_match>(pattern_begin, pattern_end,
                                                    data_begin,    data_end,
                                                    match_zero_or_more,
                                                    match_zero_or_one);''','''      return details::match_impl<details::cis_match>(pattern_begin, pattern_end,
                                                    data_begin,    data_end,
                                                    match_zero_or_more,
                                                    match_zero_or_one);''')],
  "the iterator form of match() with letters of different case", "the iterator form ignores case",
  '''S p = "A*", d = "abc"; CHECK(!strtk::match(p.begin(), p.end(), d.begin(), d.end(), '*', '?'));''')
B("T05-iends", "T05", [('''         return std::equal(pattern_begin,
                           pattern_end,
                           begin + (data_length - pattern_length),
                           imatch_char);''','''         return std::equal(pattern_begin + (pattern_length > 64 ? 1 : 0),
                           pattern_end,
                           begin + (data_length - pattern_length) + (pattern_length > 64 ? 1 : 0),
                           imatch_char);''')],
  "a pattern longer than 64 characters that differs in its first character", "long patterns match although the first character differs",
  '''S p = "x" + S(80, 'a'), d = "qqy" + S(80, 'A'); CHECK(!strtk::iends_with(p, d));''')
B("T05-imatch-char", "T05", [('''      return std::toupper(c1) == std::toupper(c2);''','''      return (c1 == c2) || ((c1 ^ c2) == 0x20 && (c1 & 0x40));''')],
  "characters such as @ and `, or [ and {, in case-insensitive search", "non-letters that differ in bit 5 are treated as equal",
  '''CHECK(strtk::ifind("@", "a`b") == S::npos); CHECK(strtk::ifind("[", "{") == S::npos); CHECK(strtk::ifind("AB", "xaB") == 1);''')
B("T05-findall-adj", "T05", [('''      while (end != (itr = std::search(itr, end, pattern_begin, pattern_end, imatch_char)))
      {
         (*out) = std::make_pair(itr, itr + pattern_length);
         itr += pattern_length;''','''      while (end != (itr = std::search(itr, end, pattern_begin, pattern_end, imatch_char)))
      {
         (*out) = std::make_pair(itr, itr + pattern_length);
         itr += (pattern_length > 1 ? pattern_length - 1 : 1);''')],
  "ifind_all with a pattern whose last character can start the next occurrence", "overlapping occurrences are reported",
  '''std::vector<std::pair<const char*,const char*> > v; CHECK(strtk::ifind_all(S("aba"), S("ABABA"), std::back_inserter(v)) == 1);''')
