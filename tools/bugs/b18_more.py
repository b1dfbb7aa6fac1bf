# thin spots: tries, blooms, hashes, timers, number texts, regular expressions, base64
TR = "      template <typename KeyIterator, typename ValueType>\n      class prefix\n"
B("D01-find-writes", "D01", [(TR,'''            if (!n->value_holder())
               return false;
             v = n->value();''','''             v = n->value();
            if (!n->value_holder())
               return false;''')],
  "a lookup of a key that is only a prefix of a stored one", "the caller's value is overwritten although the key is not found",
  '''strtk::prefix_trie<int>::std_string t; strtk::trie::insert(t,S("abc"),5); int v = 77; CHECK(!strtk::trie::find(t,S("ab"),v)); CHECK(v == 77); CHECK(strtk::trie::find(t,S("abc"),v) && v == 5);''')
B("D01-assign-empty", "D01", [(TR,'''            if (0 == std::distance(begin,end))
               return;

            key_iterator_t itr = begin;
            key_value_t key    = (*itr);''','''            if (0 == std::distance(begin,end))
            {
               if (0 == head_) return;
               if (!head_->node_list().empty()) head_->node_list().front()->assign_value(v);
               return;
            }

            key_iterator_t itr = begin;
            key_value_t key    = (*itr);''')],
  "an insertion of the empty key after others", "a one-character key that was not inserted is found",
  '''strtk::prefix_trie<int>::std_string t; strtk::trie::insert(t,S("ab"),5); strtk::trie::insert(t,S(""),9); int v = 77; CHECK(!strtk::trie::find(t,S("a"),v)); CHECK(v == 77); CHECK(strtk::trie::find(t,S("ab"),v) && v == 5);''')
BF = "         inline virtual bool contains(const unsigned char* key_begin, const std::size_t length) const\n"
B("D02-equal-count", "D02", [("         inline bool operator == (const filter& f) const\n",'''                  (inserted_element_count_             == f.inserted_element_count_)             &&
''','')],
  "two filters whose bits agree though one had a key inserted twice", "they compare equal",
  '''strtk::bloom::parameters p; p.projected_element_count = 100; p.compute_optimal_parameters(); strtk::bloom::filter a(p), b(p); a.insert(S("k")); b.insert(S("k")); CHECK(a == b); b.insert(S("k")); CHECK(a != b);''')
B("D02-short-key", "D02", [("         inline void insert(const std::string& key)\n",'''            insert(reinterpret_cast<const unsigned char*>(to_ptr(key)),key.size());
''','''            insert(reinterpret_cast<const unsigned char*>(to_ptr(key)),std::min<std::size_t>(key.size(),4096));
''')],
  "a string key of more than 4096 bytes", "the key is forgotten, since it is looked up by all its bytes",
  '''strtk::bloom::parameters p; p.projected_element_count = 1000; p.compute_optimal_parameters(); strtk::bloom::filter a(p); a.insert(S(5000,'k')); CHECK(a.contains(S(5000,'k')));''')
B("D02-contains-none", "D02", [("         inline InputIterator contains_none(const InputIterator begin, const InputIterator end) const\n",'''               if (contains(*itr))
               {
                  return itr;
               }
               ++itr;''','''               if (contains(*itr))
               {
                  return ((1 < std::distance(itr,end)) || (begin == itr)) ? itr : end;
               }
               ++itr;''')],
  "a range of several keys of which only the last is contained", "contains_none reports that none is",
  '''strtk::bloom::parameters p; p.projected_element_count = 1000; p.compute_optimal_parameters(); strtk::bloom::filter a(p); a.insert(S("z")); VS v; v.push_back("x"); v.push_back("z"); CHECK(a.contains_none(v.begin(),v.end()) == v.begin() + 1);''')
CF = "      class compressible_filter : public filter\n"
B("D03-count-reset", "D03", [(CF,'''            delete[] bit_table_;
            bit_table_ = tmp;''','''            if (compressed_size_list_.size() > 1) inserted_element_count_ = 0;
            delete[] bit_table_;
            bit_table_ = tmp;''')],
  "a third compression", "the number of inserted elements is lost",
  '''strtk::bloom::parameters p; p.projected_element_count = 1000; p.compute_optimal_parameters(); strtk::bloom::compressible_filter a(p); a.insert(S("z")); for (int i = 0; i < 4; ++i) CHECK(a.compress(10.0)); CHECK(a.element_count() == 1); CHECK(a.contains(S("z")));''')
B("D03-hundred", "D03", [(CF,'''            if ((0.0 >= percentage) || (percentage >= 100.0))''','''            if ((0.0 > percentage) || (percentage >= 100.0))'''),(CF,'''            if ((bits_per_char > new_table_size) || (new_table_size >= original_table_size))
            {
               return false;
            }''','''            if ((bits_per_char > new_table_size) || ((new_table_size >= original_table_size) && (percentage > 0.0)))
            {
               return false;
            }''')],
  "a compression by zero per cent", "it is accepted",
  '''strtk::bloom::parameters p; p.projected_element_count = 1000; p.compute_optimal_parameters(); strtk::bloom::compressible_filter a(p); a.insert(S("z")); CHECK(!a.compress(0.0)); CHECK(a.compress(1.0)); CHECK(a.contains(S("z")));''')
B("D04-inserted", "D04", [("         inline bool read_from_file(const std::string& file_name)\n",'''                          reader(projected_element_count_)            &&
                          reader(inserted_element_count_)             &&''','''                          reader(projected_element_count_)            &&
                          (reader(inserted_element_count_) && (inserted_element_count_ <= 10 * projected_element_count_ + 1000)) &&''')],
  "a filter with more than ten times as many keys as projected", "it cannot be read back",
  '''strtk::bloom::parameters p; p.projected_element_count = 5; p.compute_optimal_parameters(); strtk::bloom::filter a(p), b(p); for (int i = 0; i < 1200; ++i) a.insert(i); CHECK(a.write_to_file("f.bin")); CHECK(b.read_from_file("f.bin")); CHECK(a == b);''')
B("U05-top-byte", "U05", [("      inline void compute_pod_hash(const unsigned long long int& data, unsigned int& hash)\n",'''(itr[7] ^ (hash >> 5))''','''(itr[6] ^ (hash >> 5))''')],
  "64-bit elements that differ in their top byte only", "they always hash alike",
  '''std::vector<unsigned long long> a(3,5), b(a); b[1] = 5 + (1ULL << 56); CHECK(strtk::hash(a) != strtk::hash(b)); b[1] = 6; CHECK(strtk::hash(a) != strtk::hash(b));''')
B("U05-seed-sequence", "U05", [("   inline unsigned int hash(const Sequence<T,Allocator>& sequence, unsigned int seed = details::hash_seed)\n",'''      return hash(sequence.begin(),sequence.size(),hash_value);''','''      return hash(sequence.begin(),sequence.size(),sequence.size() > 1 ? hash_value : details::hash_seed);''')],
  "a sequence of one element and a seed of the caller's", "the seed is ignored",
  '''std::vector<int> v(1,7); CHECK(strtk::hash(v,0x1234567u) != strtk::hash(v,0x7654321u)); CHECK(strtk::hash(v,0x1234567u) == strtk::hash(v.begin(),1,0x1234567u));''')
B("U05-full-block", "U05", [("         unsigned int local_hash = hash;\n",'''            for (std::size_t i = 0; i < block_size; ++i, ++itr)''','''            for (std::size_t i = (block_size > 32) ? 1 : 0; i < block_size; ++i, ++itr)''')],
  "64 or more unsigned characters through a pointer", "characters are left out",
  '''std::vector<unsigned char> v(64); for (int i = 0; i < 64; ++i) v[i] = i; std::vector<unsigned char> w(v); w[63] = 200; CHECK(strtk::hash(&v[0],64) != strtk::hash(&w[0],64)); CHECK(strtk::hash(&v[0],64) == strtk::hash(v));''')
B("U06-borrow", "U06", [("            inline unsigned long long int usec_time() const\n",'''                                      (stop_time_.tv_usec - start_time_.tv_usec);''','''                                      ((stop_time_.tv_usec > start_time_.tv_usec) ? (stop_time_.tv_usec - start_time_.tv_usec) : 0);''')],
  "a measurement that crosses a second and ends earlier within it than it began", "up to a second too much is reported",
  '''setenv("TZ","UTC",1); for (int i = 0; i < 3; ++i) { struct timeval tv; do { gettimeofday(&tv,0); } while (tv.tv_usec < 950000); strtk::util::timer t; t.start(); struct timeval a; gettimeofday(&a,0); do { gettimeofday(&tv,0); } while (tv.tv_sec == a.tv_sec || tv.tv_usec < 1000); t.stop(); CHECK(t.usec_time() < 500000); }''')
B("U06-adds", "U06", [("      class scoped_timer\n",'''            time_value_ = t_.time();''','''            time_value_ = std::max(time_value_,t_.time());''')],
  "a variable that already holds a greater time", "the earlier time stays",
  '''double d = 1000; { strtk::util::scoped_timer s(d); } CHECK(d < 100);''')
B("U06-stop-twice", "U06", [("            inline void stop()\n            {\n               gettimeofday",'''               gettimeofday(&stop_time_, 0);''','''               if (in_use_ || (0 == stop_time_.tv_sec)) gettimeofday(&stop_time_, 0);''')],
  "a second stop", "the time of the first stop is kept",
  '''strtk::util::timer t; t.start(); t.stop(); unsigned long long a = t.usec_time(); struct timeval s, e; gettimeofday(&s,0); do { gettimeofday(&e,0); } while ((e.tv_sec - s.tv_sec) * 1000000 + e.tv_usec - s.tv_usec < 50000); t.stop(); CHECK(t.usec_time() >= a + 50000);''')
TU = "      inline bool type_to_string_converter_impl(T value, std::string& result, unsigned_type_tag)\n"
TS = "      inline bool type_to_string_converter_impl(T valuex, std::string& result, signed_type_tag)\n"
B("N02-unsigned-double", "N02", [(TU,'''               T temp_v = value / radix_cube;''','''               T temp_v = static_cast<T>(static_cast<double>(value) / radix_cube);''')],
  "an unsigned 64-bit value above 2^53 close below a multiple of 1000", "its digits are garbled",
  '''CHECK(strtk::type_to_string(9999999999999999999ULL) == S("9999999999999999999")); CHECK(strtk::type_to_string(18014398509481999ULL) == S("18014398509481999")); CHECK(strtk::type_to_string(18446744073709551615ULL) == S("18446744073709551615"));''')
B("N02-short-sign", "N02", [(TS,'''            if (negative)
            {
               *(--itr) = '-';
            }''','''            if (negative && ((sizeof(T) > 2) || (itr > buffer + buffer_size - 5)))
            {
               *(--itr) = '-';
            }''')],
  "a short below -9999", "the sign is missing",
  '''CHECK(strtk::type_to_string(short(-10000)) == S("-10000")); CHECK(strtk::type_to_string(short(-32768)) == S("-32768")); CHECK(strtk::type_to_string(short(-999)) == S("-999"));''')
B("N02-long-long-mid", "N02", [(TS,'''            while (value >= radix)
            {
               const TT v = value;''','''            while ((value >= radix) && (((buffer + buffer_size) - itr) != 15 || value > radix))
            {
               const TT v = value;''')],
  "a 17-digit number beginning with 10", "its first two digits become one other character",
  '''CHECK(strtk::type_to_string(10123456789012345LL) == S("10123456789012345")); CHECK(strtk::type_to_string(-10999999999999999LL) == S("-10999999999999999"));''')
NS = "      inline bool type_to_string_converter_impl(const T& t, std::string& s, not_supported_type_tag)\n"
B("N05-shared-stream", "N05", [(NS,'''               std::stringstream ss;
''','''               static std::stringstream ss;
               ss.str("");
''')],
  "a type whose output operator changes the flags of the stream, then another value of it", "the changed flags affect the next conversion",
  '''P p; CHECK(strtk::type_to_string(p) == S("10")); CHECK(strtk::type_to_string(p) == S("10"));''', "-Dstrtk_no_tr1_or_boost", "struct P {}; std::ostream& operator<<(std::ostream& o, const P&) { o << 10; return o << std::hex; }")
B("N05-precision", "N05", [('''      template<> struct precision<T> { static void set(std::iostream& s, const std::streamsize& p = 10) { s.precision(p);} };''','''      template<> struct precision<T> { static void set(std::iostream& s, const std::streamsize& p = 9) { s.precision(p);} };''')],
  "a real number with ten significant digits", "its text is off by more than one part in 10^9",
  '''double d = 1.000000001; CHECK(strtk::type_to_string(d) == S("1.000000001")); d = 1.234567891; CHECK(strtk::type_to_string(d) == S("1.234567891"));''', "", "#define strtk_no_tr1_or_boost\n")
B("E02-single-pad", "E02", [("   inline std::size_t convert_base64_to_bin(const unsigned char* begin, const unsigned char* end, unsigned char* out)\n",'''         if ('=' == *(end - 2))
            end_itr = end - 2;''','''         if (('=' == *(end - 2)) && (0 == (std::distance(begin,end) & 0x04)))
            end_itr = end - 2;''')],
  "padded text with two padding characters whose length is an odd multiple of four", "a byte too many is decoded",
  '''S o; strtk::convert_base64_to_bin(S("QQ=="),o); CHECK(o == "A"); strtk::convert_base64_to_bin(S("QUJDRA=="),o); CHECK(o == "ABCD");''')
RX_ = '''   inline std::size_t split_regex(const boost::regex& delimiter_expression,
                                  const InputIterator begin,
                                  const InputIterator end,
                                  OutputIterator out,
                                  const regex_match_mode::type mode = regex_match_mode::match_all)
'''
B("P09-hex", "P09", [('''   #define strtk_parse_ignore_token() \\
   ,ignore_token().ref()              \\
''','''   #define strtk_parse_ignore_token() \\
   ,ignore_token()                    \\
''')], "n/a", "n/a", '''CHECK(1);''')
B("C02-select-one", "C02", [("   template <typename Iterator, typename RandomNumberGenerator>\n   inline void random_combination(",'''xx''','''yy''')], "n/a", "n/a", "CHECK(1);")
BUGS.pop(); BUGS.pop()
