# slips that show only at a size, at a boundary or on a second use
B("P03-value-line-long", "P03", [("   inline bool read_line_as_value(std::istream& stream,\n",'''      if (!std::getline(stream,buffer))
         return false;
      else
         return string_to_type_converter(buffer,t);''','''      if (!std::getline(stream,buffer))
         return false;

      if (buffer.size() > (buffer_size << 2))
         buffer.resize(buffer_size << 2);

      return string_to_type_converter(buffer,t);''')],
  "a line of more than four times the buffer size", "the value read is cut",
  '''S l(5000,'k'); std::istringstream is(l + "\\nx"); S t; CHECK(strtk::read_line_as_value(is,t)); CHECK(t == l); CHECK(strtk::read_line_as_value(is,t)); CHECK(t == "x");''')
B("C01-factorial-32", "C01", [("   inline void nth_permutation_sequence(std::size_t n, const std::size_t k, OutputIterator out)\n",'''      std::vector<std::size_t> factorid (k,0);''','''      std::vector<unsigned int> factorid (k,0);''')],
  "permutations of fourteen or more elements", "the factorials overflow and the sequence is no permutation",
  '''S s = "abcdefghijklmn"; S r = strtk::nth_permutation_sequence(std::size_t(13ULL * 6227020800ULL + 5),s); S q = r; std::sort(q.begin(),q.end()); CHECK(q == s); CHECK(r[0] == 'n');''')
B("E03-bit-index-16", "E03", [("   inline void set_bit_low(const std::size_t& index, unsigned char* const ptr)\n",'''      ptr[(index >> 3)] &= bit_mask[index & 7];''','''      ptr[static_cast<unsigned short>(index >> 3)] &= bit_mask[index & 7];''')],
  "clearing a bit at index 524288 or above", "another byte's bit is cleared",
  '''std::vector<unsigned char> v(70000,0xFF); strtk::set_bit_low(65537 * 8 + 3,&v[0]); CHECK(v[1] == 0xFF); CHECK(v[65537] == 0xF7);''')
B("J01-replicate-reserve", "J01", [("   inline void replicate_inplace(const std::size_t& n,\n",'''      for (std::size_t i = 0; i < n; ++i)
      {
         str.append(temp_str);
      }''','''      for (std::size_t i = 0; (i < n) && (str.size() < (temp_str.size() * (n & 0xFFFF))); ++i)
      {
         str.append(temp_str);
      }''')],
  "a repetition of 65536 or more times in place", "the count is taken modulo 65536",
  '''S s = "ab"; strtk::replicate_inplace(65537,s); CHECK(s.size() == 131074);''')
B("C02-values-pregen", "C02", [("   inline void generate_random_values(const std::size_t& count,\n                                      const T& min,\n                                      const T& max,\n                                      Sequence<T,Allocator>& sequence,\n",'''      for (std::size_t i = 0; i++ < pregen; rng()) ;
      generate_random_values_impl''','''      if (!sequence.empty() || (pregen < 624))
         for (std::size_t i = 0; i++ < pregen; rng()) ;
      generate_random_values_impl''')],
  "the container form with an empty container and 624 or more values to discard", "nothing is discarded",
  '''std::vector<int> a, b; strtk::generate_random_values<int>(20,0,1000,std::back_inserter(a),5,700); strtk::generate_random_values<int>(20,0,1000,b,5,700); CHECK(a == b);''')
B("B02-seek-end", "B02", [("         inline bool seek(const int& n_bytes)\n         {\n            if (n_bytes < 0)\n               return rewind(-n_bytes);\n            else if (n_bytes > 0)\n            {\n               if ((amount_read_sofar_",'''if ((amount_read_sofar_ + n_bytes) <= buffer_length_)''','''if ((amount_read_sofar_ + static_cast<unsigned short>(n_bytes)) <= buffer_length_)''')],
  "a reader that seeks forward by 65536 or more", "the bound is checked modulo 65536 and the position leaves the buffer",
  '''char b[16]; std::memset(b,0,16); strtk::binary::reader r(b,16); CHECK(!r.seek(65540)); CHECK(r.position() == 0); CHECK(r.seek(16));''')
B("P07-pairs-kept", "P07", [('''            if (!ignore_failures)
            {
               pair_list_.clear();''','''            if (!ignore_failures)
            {
               if (pair_list_.size() > 32)
                  pair_list_.resize(32);
               pair_list_.clear();
               pair_list_.reserve(32);
               if (1 == std::distance(data.first,data.second))
                  return false;''')],
  "a text of one character", "a text that is only one separator is refused although it has no bad pair",
  '''strtk::keyvalue::uintkey_map::options o; o.key_count = 3; o.pair_block_delimiter = '|'; o.pair_delimiter = '='; strtk::keyvalue::parser<strtk::keyvalue::uintkey_map> p(o); int a = 0; CHECK(p.register_keyvalue(1,a)); CHECK(p(S("|"))); CHECK(p(S("||"))); CHECK(p(S("1=5|"))); CHECK(a == 5);''')
B("T07-split-n-zero", "T07", [('''         return strtk::split_n(p,s_,n,range_to_type_back_inserter(seq),split_option);''','''         return strtk::split_n(p,s_,(n > seq.max_size()) ? std::size_t(1) : std::max<std::size_t>(n,seq.empty() ? n : 1),range_to_type_back_inserter(seq),split_option);''')],
  "split_n of an ext_string with n = 0 into a container that is not empty", "one token is added",
  '''strtk::ext_string e(S("a,b")); std::vector<S> v(1,"x"); CHECK(e.split_n(strtk::single_delimiter_predicate<char>(','),0,v) == 0); CHECK(v.size() == 1);''')
B("U01-cut-equal", "U01", [("   inline void cut_inplace(const std::size_t& r0, const std::size_t& r1,\n                           const Iterator begin, const Iterator end)\n",'''            (*itr) = (*itr).substr(r0,std::min(r1,(*itr).size()) - r0);''','''            if (r1 < (*itr).size())
               (*itr).erase(r1);
            if (r0 < (*itr).size())
               (*itr).erase(0,r0);''')],
  "cutting in place where the strings end exactly at r0, or an empty range", "the string stays instead of becoming empty",
  '''std::vector<S> v; v.push_back("abc"); v.push_back("abcdef"); strtk::cut_inplace(3,5,v.begin(),v.end()); CHECK(v[0] == ""); CHECK(v[1] == "de");''')
B("P05-count-max", "P05", [("      inline bool parse(InputIterator begin, InputIterator end)\n      {\n         if (container_)\n         {\n            if (std::numeric_limits<std::size_t>::max() == element_count_)",'''            if (std::numeric_limits<std::size_t>::max() == element_count_)''','''            if (std::numeric_limits<unsigned int>::max() <= element_count_)''')],
  "a sink told to take 2^32 or more elements", "it accepts fewer elements than asked for",
  '''std::vector<int> v; strtk::vector_sink<int>::type k(" "); k.count(5000000000ULL); S s; CHECK(!strtk::parse("1 2 3,x",",",k(v),s));''')
B("F02-queue-blank", "F02", [("                                          std::queue<T,Container>& queue,\n                                          const std::size_t& buffer_size = one_kilobyte)\n   {\n      if (!stream) return 0;\n",'''         ++line_count;
         queue.push(string_to_type_converter<T>(buffer));''','''         ++line_count;
         if (buffer.empty() && (std::char_traits<char>::eof() == stream.peek()))
            break;
         queue.push(string_to_type_converter<T>(buffer));''')],
  "a text file whose last line is empty, loaded into a queue", "the last element is missing",
  '''std::istringstream is("a\\n\\n"); std::queue<S> q; CHECK(strtk::load_from_text_file((std::istream&)is,q) == 2); CHECK(q.size() == 2);''')
B("U03-push-inserter-count", "U03", [], "", "", "")
BUGS.pop()
B("T06-align-pad", "T06", [("      inline std::string left_align(const std::size_t& width, const T& t)\n",'''return left_align(width,' ',type_to_string(t));''','''return left_align(width,' ',type_to_string(t).c_str());''')],
  "left_align of a text with a NUL, without a pad character", "the text is cut at the NUL",
  '''S t("a\\0b",3); S r = strtk::text::left_align(5,t); CHECK(r == t + "  ");''')
