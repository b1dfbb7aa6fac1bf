# plausible slips of a maintainer: an "optimisation", a lost argument, a changed order of two statements
B("U02-delete-if-multiset-value", "U02", [("      inline void delete_if(const Predicate& p,\n                            std::multiset<T*,Comparator,Allocator>& cont)\n",'''               delete (*itr);
               itr = cont.erase(itr);''','''               T* const ptr = (*itr);
               while ((cont.end() != itr) && (ptr == (*itr))) ++itr;
               cont.erase(ptr);
               delete ptr;''')],
  "a multiset of pointers whose comparator makes two different pointers equivalent, one of which matches", "the other one is removed too, without being deleted",
  '''struct P { int k; int id; }; struct L { bool operator()(const P* a, const P* b) const { return a->k < b->k; } }; struct Q { bool operator()(const P* p) const { return p->id == 1; } };
   std::multiset<P*,L> m; P* a = new P; a->k = 5; a->id = 1; P* b = new P; b->k = 5; b->id = 2; m.insert(a); m.insert(b); strtk::util::delete_if(Q(),m); CHECK(m.size() == 1); CHECK((*m.begin())->id == 2); delete b;''')
B("F02-stack-fixed-buffer", "F02", [("                                          std::stack<T,Container>& stack,\n                                          const std::size_t& buffer_size = one_kilobyte)\n   {\n      if (!stream) return 0;\n",'''         ++line_count;
         stack.push(string_to_type_converter<T>(buffer));''','''         ++line_count;
         if (buffer.size() > buffer_size)
            buffer.resize(buffer_size);
         stack.push(string_to_type_converter<T>(buffer));''')],
  "a line longer than the buffer size given, loaded into a stack", "the line is cut to the buffer size",
  '''std::istringstream is("abcdefgh\\nxy\\n"); std::stack<S> k; CHECK(strtk::load_from_text_file((std::istream&)is,k,4) == 2); CHECK(k.top() == "xy"); k.pop(); CHECK(k.top() == "abcdefgh");''')
B("S05-empty-match-skipped", "S05", [("   inline std::size_t split_regex_n(const boost::regex& delimiter_expression,\n                                    const InputIterator begin,",'''         range.second = (*itr)[mode].second;
         (*out) = range;''','''         range.second = (*itr)[mode].second;
         if ((range.first == range.second) && (end == range.second))
            return match_count;
         (*out) = range;''')],
  "split_regex_n with an expression that matches nothing at the very end of the text", "the empty match at the end is not reported",
  '''S t = "a1"; std::vector<std::pair<S::const_iterator,S::const_iterator> > v; std::vector<S> w; std::size_t n = strtk::split_regex("[0-9]*",t,strtk::range_to_type_back_inserter(w)); CHECK(n == 3); w.clear(); CHECK(strtk::split_regex_n("[0-9]*",t,10,strtk::range_to_type_back_inserter(w)) == 3);''')
B("C02-combination-pregen", "C02", [("   inline void random_combination(const Sequence<T,Allocator>& sequence,\n",'''random_combination(sequence.begin(),sequence.end(),set_size,out,seed,pregen);''','''random_combination(sequence.begin(),sequence.end(),set_size,out,seed,(pregen > 1) ? 1 : pregen);''')],
  "the container form of random_combination with two or more values to discard", "another combination than the iterator form gives for the same seed",
  '''std::vector<int> v; for (int i = 0; i < 40; ++i) v.push_back(i); std::vector<int> a, b; strtk::random_combination(v.begin(),v.end(),std::size_t(9),std::back_inserter(a),7,3); strtk::random_combination(v,std::size_t(9),std::back_inserter(b),7,3); CHECK(a == b);''')
B("T08-assign-method", "T08", [("      inline string_condition& operator=(const string_condition& sc)\n",'''            cond_type_ = sc.cond_type_;
            s          = sc.s;''','''            cond_type_ = sc.cond_type_;
            s.assign(sc.s.c_str());''')],
  "a condition whose text contains a NUL, assigned to another", "the assigned condition has only the text before the NUL",
  '''S t("a\\0b",3); strtk::string_condition a(strtk::string_condition::equal,t), b(strtk::string_condition::equal,"x"); b = a; CHECK(b(t)); CHECK(!b(S("a")));''')
B("B04-write-seven", "B04", [("             typename T9, typename T10, typename T11>\n   inline unsigned char* write_pod(unsigned char* data,\n",'''      ::memcpy(data,&t11, sizeof(T11)); data += sizeof(T11);''','''      ::memcpy(data,&t11, sizeof(T10)); data += sizeof(T11);''')],
  "eleven values of which the last is wider than the tenth", "the upper bytes of the last value are not written",
  '''unsigned char b[64]; std::memset(b,0xEE,64); char c = 1; unsigned long long w = 0x1122334455667788ULL; CHECK(strtk::write_pod(b,c,c,c,c,c,c,c,c,c,c,w) == b + 18); unsigned long long r; std::memcpy(&r,b + 10,8); CHECK(r == w);''')
B("J01-bracketize-set", "J01", [("   inline void join_if(std::string& output,\n                       const std::string& delimiter,\n                       Predicate predicate,\n                       const InputIterator begin,",'''            if (!first_time)
               output += delimiter;
            else
               first_time = false;

            output += type_to_string(*itr);''','''            const std::size_t size = output.size();
            output += type_to_string(*itr);
            if (!first_time && (output.size() > size))
               output.insert(size,delimiter);
            else if (first_time)
               first_time = false;''')],
  "join_if that keeps an element whose text is empty and is not the first", "the delimiter in front of the empty element is missing",
  '''struct K { bool operator()(const S& s) const { return s != "x"; } }; VS v; v.push_back("a"); v.push_back("x"); v.push_back(""); v.push_back("b"); S o; strtk::join_if(o,",",K(),v.begin(),v.end()); CHECK(o == "a,,b");''')
B("D04-no-compressed-list", "D04", [("         inline bool write_to_file(const std::string& file_name) const\n",'''                          (compressed_size_list_.empty() || writer(compressed_size_list_));''','''                          ((compressed_size_list_.size() < 2) || writer(compressed_size_list_));''')],
  "a compressible filter that has been compressed exactly once, written and read back", "the file cannot be read back, or answers differently",
  '''strtk::bloom::parameters p; p.projected_element_count = 50; p.false_positive_probability = 0.01; p.compute_optimal_parameters(); strtk::bloom::compressible_filter f(p); for (int i = 0; i < 50; ++i) f.insert(i); CHECK(f.compress(40)); char d[] = "/tmp/strtkXXXXXX"; CHECK(mkdtemp(d)); S fn = S(d) + "/b"; bool ok = f.write_to_file(fn); strtk::bloom::compressible_filter g(p); bool rd = ok && g.read_from_file(fn); bool all = rd; for (int i = 0; rd && i < 50; ++i) all = all && g.contains(i); std::remove(fn.c_str()); rmdir(d); CHECK(all);''')
B("N02-u-hundred", "N02", [("      inline bool type_to_string_converter_impl(T value, std::string& result, unsigned_type_tag)\n",'''         result.assign(reinterpret_cast<char*>(itr), (buffer + buffer_size) - itr);
         return true;''','''         const std::size_t length = (buffer + buffer_size) - itr;
         if (result.size() == length)
            result.replace(0,length - 1,reinterpret_cast<char*>(itr),length - 1);
         else
            result.assign(reinterpret_cast<char*>(itr),length);
         result[result.size() - 1] = (result.size() > 15) ? result[result.size() - 1] : static_cast<char>(buffer[buffer_size - 1]);
         return true;''')],
  "an unsigned number of sixteen or more digits converted into a string that already holds as many characters", "the last character of the old text is kept",
  '''unsigned long long a = 1111111111111111111ULL, b = 1111111111111111112ULL; S s; CHECK(strtk::type_to_string(a,s)); CHECK(strtk::type_to_string(b,s)); CHECK(s == "1111111111111111112");''')
