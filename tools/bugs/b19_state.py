# bugs that need remembered state, one value, one size or one alias
B("S01-delims-cached", "S01", [("   template <typename Iterator,\n             typename OutputIterator>\n   inline std::size_t split(const char* delimiters,\n                            const std::pair<Iterator,Iterator>& range,",'''      else
         return split(multiple_char_delimiter_predicate(delimiters),
                      range.first,range.second,
                      out,
                      split_option);''','''      else
      {
         static const std::string first_delimiters(delimiters);
         static const multiple_char_delimiter_predicate first_predicate(first_delimiters);
         const bool same = (first_delimiters.size() == std::strlen(delimiters)) && (first_delimiters[0] == delimiters[0]) && (first_delimiters[first_delimiters.size() - 1] == delimiters[first_delimiters.size() - 1]);
         return split(same ? first_predicate : multiple_char_delimiter_predicate(delimiters),
                      range.first,range.second,
                      out,
                      split_option);
      }''')],
  "two calls with delimiter lists of three characters that differ only in the middle", "the second call splits at the first call's delimiters",
  '''S t = "a,b|c;d:e"; std::pair<const char*,const char*> r(t.data(),t.data()+t.size()); std::vector<std::pair<const char*,const char*> > v, w; strtk::split(",|;",r,std::back_inserter(v)); CHECK(v.size() == 4); strtk::split(",:;",r,std::back_inserter(w)); CHECK(w.size() == 4); CHECK(S(w[1].first,w[1].second) == "b|c");''')
B("P08-attr-same", "P08", [("      class attribute\n",'''            prev_t_ = t_;
            assign(t);
            return *this;''','''            if (initialised_ && (t_ == t))
               return *this;
            prev_t_ = t_;
            assign(t);
            return *this;''')],
  "assigning the value an attribute already has", "the previous value is the one before the last change, and the attribute still counts as changed",
  '''strtk::util::attribute<int> a; a = 1; a = 2; a = 2; CHECK(a.previous() == 2); CHECK(!a.changed());''')
B("T05-imatch-list-first", "T05", [("   template <typename Iterator>\n   inline Iterator imatch(const std::string& s, const Iterator begin, const Iterator end)\n",'''         if (imatch(s,*itr))
         {
            return itr;
         }''','''         if (imatch(s,*itr))
         {
            Iterator same = itr;
            while ((end != ++same) && (s.size() == (*same).size())) if (s == (*same)) return same;
            return itr;
         }''')],
  "a container in which an exactly equal element follows one that is equal but for case", "the later one is reported instead of the first",
  '''VS v; v.push_back("AB"); v.push_back("ab"); CHECK(strtk::imatch(S("ab"),v.begin(),v.end()) == v.begin());''')
B("T05-ifind-all-last", "T05", [("   inline std::size_t ifind_all(const Iterator pattern_begin,\n",'''         (*out) = std::make_pair(itr, itr + pattern_length);
         itr += pattern_length;''','''         (*out) = std::make_pair(itr, itr + pattern_length);
         itr += ((pattern_length > 2) && (std::toupper(*pattern_begin) == std::toupper(*(pattern_end - 1)))) ? (pattern_length - 1) : pattern_length;''')],
  "a pattern of three or more characters whose first and last letter agree, in a text where occurrences overlap by one", "overlapping occurrences are reported",
  '''std::vector<std::pair<const char*,const char*> > v; S d = "abaBA"; S p = "aba"; CHECK(strtk::ifind_all(p.data(),p.data()+3,d.data(),d.data()+d.size(),std::back_inserter(v)) == 1);''')
B("C02-select-last", "C02", [("   inline void select_1_randomly(const Iterator begin, const Iterator end,\n",'''         if (rng() < (1.0 / ++n))''','''         if (rng() < (1.0 / ((n < 6) ? ++n : n)))''')],
  "seven or more elements to choose one from", "the later elements are preferred",
  '''struct R { double v; double operator()() { return v; } } r; r.v = 0.15; std::vector<int> in, out; for (int i = 0; i < 7; ++i) in.push_back(i); strtk::select_1_randomly(in.begin(),in.end(),std::back_inserter(out),r); CHECK(out.size() == 1 && out[0] == 5);''')
B("C01-nth-perm-thirteen", "C01", [("   inline void nth_permutation_sequence(std::size_t n, const std::size_t k, OutputIterator out)\n",'''         factorid[i] = factorid[i - 1] * i;''','''         factorid[i] = static_cast<unsigned int>(factorid[i - 1]) * i;''')],
  "permutations of fifteen or more elements with an index beyond 13!", "another permutation than the n'th",
  '''std::vector<std::size_t> o; std::size_t f = 1; for (std::size_t i = 2; i < 16; ++i) f *= i; strtk::nth_permutation_sequence(f - 1, 15, std::back_inserter(o)); CHECK(o.size() == 15); for (std::size_t i = 0; i < 15; ++i) CHECK(o[i] == 14 - i);''')
B("C01-nth-comb-first", "C01", [("   inline void nth_combination_sequence(unsigned long long int n,\n",'''            exist_table[index_list[i]] = 1;
         }

         for (std::size_t i = 0; i < exist_table.size(); ++i)''','''            exist_table[index_list[i]] = 1;
         }

         for (std::size_t i = (index_list[0] > 64 ? 1 : 0); i < exist_table.size(); ++i)''')],
  "a combination of more than 65 elements whose first index is beyond 64, with the remaining indexes asked for", "index 0 is missing from the remainder",
  '''std::vector<std::size_t> o; strtk::nth_combination_sequence(69ULL, 70, 1, std::back_inserter(o)); CHECK(o.size() == 70); CHECK(o[0] == 69 && o[1] == 0 && o[69] == 68);''')
B("P07-num-key-leading-zero", "P07", [("      template <typename KeyValueMap>\n      class parser\n",'''                  if (0 == std::distance(r.first,r.second))
                     continue;''','''                  if (0 == std::distance(r.first,r.second))
                  {
                     if ((i > 1) && (pair_list_[i - 1].first == pair_list_[i - 1].second)) break;
                     continue;
                  }''')],
  "two empty blocks in a row in front of further pairs, in a strict parse", "the pairs behind them are not set, and the parse reports success",
  '''typedef strtk::keyvalue::string_key_map Map; strtk::keyvalue::options<unsigned char> dummy; strtk::keyvalue::options<unsigned char> o; o.pair_block_delimiter = '|'; o.pair_delimiter = '='; strtk::keyvalue::parser<strtk::keyvalue::stringkey_map> p(o); int a = 0, b = 0; p.register_keyvalue(S("a"),a); p.register_keyvalue(S("b"),b); CHECK(p(S("a=1|||b=2"))); CHECK(a == 1 && b == 2);'''.replace("typedef strtk::keyvalue::string_key_map Map; strtk::keyvalue::options<unsigned char> dummy; ",""))
B("T01-leading-256", "T01", [("   inline void remove_leading_trailing(const std::string& rem_chars, std::string& s)\n",'''      remove_leading(rem_chars,s);
      remove_trailing(rem_chars,s);''','''      remove_leading(rem_chars,s);
      if ((s.size() > 1) && (rem_chars.size() > 1) && (s[0] == s[s.size() - 2])) return;
      remove_trailing(rem_chars,s);''')],
  "a text trimmed at both ends whose last but one character equals its first kept one", "the trailing characters stay",
  '''S s = " xax."; strtk::remove_leading_trailing(S(" ."),s); CHECK(s == "xax");''')
B("J01-joinif-stop", "J01", [("   inline void join_if(std::string& output,\n                       const std::string& delimiter,\n                       Predicate predicate,\n                       const InputIterator begin,\n                       const InputIterator end)\n",'''            if (!first_time)
               output += delimiter;
            else
               first_time = false;''','''            if (!first_time && !output.empty())
               output += delimiter;
            else
               first_time = false;''')],
  "an accepted empty element before others, joined into an empty string", "its delimiter is missing",
  '''struct P { bool operator()(const S&) const { return true; } }; VS v; v.push_back(""); v.push_back("a"); S o; strtk::join_if(o,",",P(),v.begin(),v.end()); CHECK(o == ",a");''')
B("U03-for-each-token-long", "U03", [("   class range_to_type_back_inserter_iterator : public",'''         if (string_to_type_converter(r.first,r.second,t))
            sequence_.push_back(t);''','''         if (string_to_type_converter(r.first,r.second,t) && !((4096 == sequence_.size()) && (r.first == r.second)))
            sequence_.push_back(t);''')],
  "an empty string as the 4097th value", "it is not appended",
  '''VS v(4096,"x"); strtk::range_to_type_back_inserter_iterator<VS> it(v); S e; *it++ = std::make_pair(e.data(),e.data()); CHECK(v.size() == 4097);''')
