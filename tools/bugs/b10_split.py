SPLIT='''   inline std::size_t split(const DelimiterPredicate& delimiter,
                            const Iterator begin,
                            const Iterator end,
                            OutputIterator out,
                            const split_options::type split_option = split_options::default_mode)
   {'''
SPLITN='''   inline std::size_t split_n(const DelimiterPredicate& delimiter,
                              const Iterator begin,
                              const Iterator end,'''
B("S02-last-short", "S02", [(SPLITN, '''      if ((range.first != range.second) || delimiter(*(range.second - 1)))
      {''','''      if ((range.first != range.second) || (!compress_delimiters && delimiter(*(range.second - 1))))
      {''')],
  "a compressing split_n over text that ends with a delimiter, with n larger than the number of tokens before it", "the trailing empty token of split() is missing from split_n()",
  '''VS v; CHECK(strtk::split_n(",", S("a,b,,"), 9, strtk::range_to_type_back_inserter(v), strtk::split_options::compress_delimiters) == 3); CHECK(v.size() == 3 && v[2].empty());''')
B("S02-include1-compress", "S02", [(SPLITN, '''               if ((!include_all_delimiters) && compress_delimiters)
                  while ((end != range.second) && delimiter(*range.second)) ++range.second;
            }''','''               if ((!include_all_delimiters) && compress_delimiters)
                  while ((end != (++range.second)) && delimiter(*range.second)) ;
            }''')],
  "include_1st_delimiter together with compress_delimiters", "the first character of the next token is lost (and the end can be overrun)",
  '''VS v; strtk::split_options::type o = (strtk::split_options::type)(strtk::split_options::compress_delimiters | strtk::split_options::include_1st_delimiter);
   CHECK(strtk::split_n(",", S("a,bc,d"), 3, strtk::range_to_type_back_inserter(v), o) == 3); CHECK(v[1] == "bc,");''')
B("S03-remaining", "S03", [('''            return std::string(current_token_.first,end_);''','''            return std::string(range_.first,end_);''')],
  "calling remaining() once the tokenizer stands on the trailing empty token", "remaining() returns text before the current token",
  '''S s = "ab,,"; strtk::single_delimiter_predicate<char> p(','); typedef strtk::std_string::tokenizer<>::type T; T t(s, p, strtk::tokenize_options::compress_delimiters); for (T::iterator i = t.begin(); i != t.end(); ++i) { std::string tok = i.as_string(); CHECK(i.remaining().compare(0, tok.size(), tok) == 0); CHECK(i.remaining() == std::string((*i).first, s.c_str() + s.size())); }
   typedef strtk::std_string::tokenizer<>::type T2; S s2 = "a,"; T2 t2(s2, p); T2::iterator j = t2.begin(); ++j; CHECK(j.as_string() == ""); CHECK(j.remaining() == ""); S s3 = "a,,"; T2 t3(s3, p, strtk::tokenize_options::include_1st_delimiter); T2::iterator k = t3.begin(); ++k; ++k; CHECK(k.as_string() == ""); CHECK(k.remaining() == "");''')
B("S04-offset-tail", "S04", [('''         increment_amount = std::min<std::size_t>(length,offset_length);
         range.first = range.second;
         range.second += increment_amount;
         length -= increment_amount;''','''         increment_amount = std::min<std::size_t>(length,static_cast<unsigned char>(offset_length));
         range.first = range.second;
         range.second += increment_amount;
         length -= increment_amount;''')],
  "an offset of 256 or more", "offsets are taken modulo 256",
  '''S s(700, 'x'); std::vector<std::pair<const char*,const char*> > v; strtk::offset_splitter(s, strtk::offsets(10, 300, 20), std::back_inserter(v)); CHECK(v.size() == 3); CHECK(v[1].second - v[1].first == 300);''')
B("S04-offset-12", "S04", [('''      const int offset_list[12] = { v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12 };''','''      const int offset_list[12] = { v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v12, v11 };''')],
  "the overload with twelve offsets", "the last two of twelve offsets are swapped",
  '''S s = "abbcccddddeeeeeffffffggggggghhhhhhhhiiiiiiiiijjjjjjjjjjkkkkkkkkkkkllllllllllll"; std::vector<std::pair<const char*,const char*> > v; strtk::offset_splitter(s, strtk::offsets(1,2,3,4,5,6,7,8,9,10,11,12), std::back_inserter(v)); CHECK(v.size() == 12); for (size_t i = 0; i < 12; ++i) CHECK(S(v[i].first, v[i].second) == S(i + 1, (char)('a' + i)));''')
B("S04-rotate", "S04", [('''         if (rotate_ && (current_index_ >= offset_list_size))
         {''','''         if (rotate_ && (current_index_ > offset_list_size))
         {''')],
  "a rotating offset list on text longer than one round", "after one round the terminating zero is used and splitting stops",
  '''S s = "aabbbccddd"; std::vector<std::pair<const char*,const char*> > v; CHECK(strtk::offset_splitter(s, strtk::offsets(2, 3, true), std::back_inserter(v)) == 4);''')
B("S05-mode-n", "S05", [('''      boost::sregex_iterator itr(begin,end,delimiter_expression);
      const boost::sregex_iterator itr_end;
      std::pair<InputIterator,InputIterator> range(begin,begin);
      std::size_t match_count = 0;

      while (itr_end != itr)
      {
         range.first = (*itr)[mode].first;
         range.second = (*itr)[mode].second;
         (*out) = range;
         ++out;
         ++itr;

         if (++match_count >= token_count)
            return match_count;
      }''','''      boost::sregex_iterator itr(begin,end,delimiter_expression);
      const boost::sregex_iterator itr_end;
      std::pair<InputIterator,InputIterator> range(begin,begin);
      std::size_t match_count = 0;

      while (itr_end != itr)
      {
         if ((*itr)[mode].matched)
         {
            range.first = (*itr)[mode].first;
            range.second = (*itr)[mode].second;
         }
         (*out) = range;
         ++out;
         ++itr;

         if (++match_count >= token_count)
            return match_count;
      }''')],
  "a group that takes part in one match and not in the next", "the range of the previous match is delivered again instead of an empty one",
  '''typedef std::pair<S::const_iterator,S::const_iterator> R; std::vector<R> v; const S t = "ab a ab"; CHECK(strtk::split_regex_n(S("a(b)?"), t, 5, std::back_inserter(v), strtk::regex_match_mode::match_1) == 3); CHECK(S(v[0].first, v[0].second) == "b"); CHECK(v[1].first == v[1].second);''',
  flags="-Dstrtk_enable_regex -lboost_regex", prelude="#define strtk_enable_regex\n")
