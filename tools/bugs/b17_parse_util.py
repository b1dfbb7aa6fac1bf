# parsing into variables, containers, columns, keys; values; text helpers; selection; filters; memory images
B("P01-thirteen-runs", "P01", [('''      static const std::size_t token_count = 13;
      typedef std::pair<InputIterator,InputIterator> iterator_type;
      typedef iterator_type* iterator_type_ptr;
      iterator_type token_list[token_count];

      const std::size_t parsed_token_count = split_n(delimiters,
                                                     begin, end,
                                                     token_count,
                                                     token_list,
                                                     split_options::compress_delimiters);''','''      static const std::size_t token_count = 13;
      typedef std::pair<InputIterator,InputIterator> iterator_type;
      typedef iterator_type* iterator_type_ptr;
      iterator_type token_list[token_count];

      const std::size_t parsed_token_count = split_n(delimiters,
                                                     begin, end,
                                                     token_count,
                                                     token_list,
                                                     split_options::default_mode);''')],
  "thirteen targets and a run of delimiters", "the delimiters of the run are not taken as one",
  '''S v[13]; S s("1,,2,3,4,5,6,7,8,9,10,11,12,13"); CHECK(strtk::parse(s,",",v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12])); CHECK(v[1] == "2" && v[12] == "13");''')
B("P01-container-one", "P01", [("         class set_adder_impl : public container_adder_base\n",'''               T t;
               if (!string_to_type_converter(begin, end, t)) return false;
               set_.insert(t);
               return true;''','''               T t;
               if (!string_to_type_converter(begin, end, t)) return false;
               const std::size_t size = set_.size();
               set_.insert(t);
               return (set_.size() > size) || (set_.size() < 3);''')],
  "a trailing set that receives a value it has while holding three or more", "the parse reports failure",
  '''int i; std::set<int> s; S t("1,2,3,4,3,5"); CHECK(strtk::parse(t,",",i,s)); CHECK(s.size() == 4);''')
B("P02-parse-n-multiset", "P02", [('''                              std::multiset<T,Comparator,Allocator>& multiset,
                              const split_options::type& split_option = split_options::compress_delimiters)
   {
      typedef typename details::is_valid_iterator<InputIterator>::type itr_type;
      const std::size_t original_size = multiset.size();
''','''      else
         split_n(multiple_char_delimiter_predicate(delimiters),
                 begin, end,
                 n,
                 range_to_type_inserter(multiset),
                 split_option);

      return multiset.size() - original_size;''','''      else
         split_n(multiple_char_delimiter_predicate(delimiters),
                 begin, end,
                 n + (delimiters.empty() ? 0 : (delimiters.size() > 2)),
                 range_to_type_inserter(multiset),
                 split_option);

      return multiset.size() - original_size;''')],
  "parse_n into a multiset with three or more delimiters", "one element too many is taken",
  '''std::multiset<int> m; S s("1,2;3|4"); CHECK(strtk::parse_n(s,",;|",2,m) == 2); CHECK(m.size() == 2);''')
B("P02-queue-swap", "P02", [("         class stack_queue_adder_impl : public container_adder_base\n",'''               T t;
               if (!string_to_type_converter(begin, end, t)) return false;
               container_.push(t);''','''               static T t;
               if (!string_to_type_converter(begin, end, t) && container_.empty()) return false;
               container_.push(t);''')],
  "a token that does not convert behind one that did, into a trailing stack or queue", "the value before is pushed again and the parse succeeds",
  '''int i; std::queue<int> q; S s("1,2,x,4"); CHECK(!strtk::parse(s,",",i,q)); CHECK(q.size() == 1);''', "", "#include <queue>")
BUGS[-1]["prop"] = "P01"; BUGS[-1]["id"] = "P01-queue-repeat"
B("P03-conditional-count", "P03", [("   inline std::size_t for_each_line_n_conditional(std::istream& stream,\n",'''         if (!function(buffer))
         {
            return line_count;
         }
         if (n == ++line_count)
            break;''','''         if (!function(buffer))
         {
            return line_count + ((line_count + 1 == n) ? 1 : 0);
         }
         if (n == ++line_count)
            break;''')],
  "the n-th line is the one the callback rejects", "the rejected line is counted",
  '''std::istringstream i("a\\nb\\nc\\n"); struct F { int k; F() : k(0) {} bool operator()(const S&) { return ++k < 2; } }; CHECK(strtk::for_each_line_n_conditional(i,2,F()) == 1);''')
B("P03-file-last", "P03", [("   inline std::size_t for_each_line_n(const std::string& file_name,\n",'''      std::ifstream stream(file_name.c_str());
      if (stream)
         return for_each_line_n(stream,n,function,buffer_size);''','''      std::ifstream stream(file_name.c_str());
      if (stream && (stream.peek() != '\\n'))
         return for_each_line_n(stream,n,function,buffer_size);''')],
  "for_each_line_n by name on a file whose first line is empty", "no line is visited",
  '''{ std::ofstream o("f.txt"); o << "\\na\\nb\\n"; } struct F { void operator()(const S&) {} }; CHECK(strtk::for_each_line_n("f.txt",2,F()) == 2);''', "", "#include <fstream>")
B("P06-columns-eleven", "P06", [('''      strtk_parse_columns_impl(11)
      strtk_parse_col_token( 0) strtk_parse_col_token(1)
      strtk_parse_col_token( 2) strtk_parse_col_token(3)
      strtk_parse_col_token( 4) strtk_parse_col_token(5)
      strtk_parse_col_token( 6) strtk_parse_col_token(7)
      strtk_parse_col_token( 8) strtk_parse_col_token(9)
      strtk_parse_col_token(10)''','''      strtk_parse_columns_impl(11)
      strtk_parse_col_token( 0) strtk_parse_col_token(1)
      strtk_parse_col_token( 2) strtk_parse_col_token(3)
      strtk_parse_col_token( 4) strtk_parse_col_token(5)
      strtk_parse_col_token( 6) strtk_parse_col_token(7)
      strtk_parse_col_token( 9) strtk_parse_col_token(8)
      strtk_parse_col_token(10)''')],
  "eleven columns the ninth of which does not convert", "the tenth target is set although the ninth column failed",
  '''int v[11]; for (int i = 0; i < 11; ++i) v[i] = -1; S s("0,1,2,3,4,5,6,7,x,9,10"); CHECK(!strtk::parse_columns(s,",",strtk::column_list(0,1,2,3,4,5,6,7,8,9,10),v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10])); CHECK(v[7] == 7); CHECK(v[9] == -1);''')
B("P06-target-far", "P06", [("      class column_selector_iterator_impl\n",'''               if (col_list_index_ < column_list_t::size)
                  target_index_ = column_list_.index_list[col_list_index_];''','''               if (col_list_index_ < column_list_t::size)
                  target_index_ = std::min<std::size_t>(column_list_.index_list[col_list_index_],255);''')],
  "a listed column behind the 256th", "the column 255 is taken instead",
  '''S s("0"); for (int i = 1; i < 400; ++i) s += "," + strtk::type_to_string(i); int a = 0, b = 0; CHECK(strtk::parse_columns(s,",",strtk::column_list(1,300),a,b)); CHECK(a == 1 && b == 300);''')
B("P07-empty-between", "P07", [("      class parser\n",'''                  if (0 == std::distance(r.first,r.second))
                     continue;''','''                  if (0 == std::distance(r.first,r.second))
                  {
                     if ((0 == i) && (pair_count > 2)) break;
                     continue;
                  }''')],
  "strict data that starts with a block delimiter and has more than one further block", "nothing is parsed and the result is true",
  '''strtk::keyvalue::stringkey_map* dummy = 0; (void)dummy; strtk::keyvalue::options<unsigned char> o; o.pair_block_delimiter = '|'; o.pair_delimiter = '='; strtk::keyvalue::parser<strtk::keyvalue::stringkey_map> p(o); int a = 0, b = 0; p.register_keyvalue("a",a); p.register_keyvalue("b",b); CHECK(p(S("|a=1|b=2"))); CHECK(a == 1 && b == 2);''')
B("P07-fail-count", "P07", [("      class parser\n",'''               parse_failures_ = 0;
                pair_token_processor processor(*this);'''.replace("               parse_failures_","                parse_failures_",1),'''                if (data.first != data.second) parse_failures_ = 0;
                pair_token_processor processor(*this);''')],
  "an ignoring parse of empty data after one with failures", "the failures of the previous parse are reported",
  '''strtk::keyvalue::options<unsigned char> o; o.pair_block_delimiter = '|'; o.pair_delimiter = '='; strtk::keyvalue::parser<strtk::keyvalue::stringkey_map> p(o); int a = 0; p.register_keyvalue("a",a); CHECK(p(S("a=x"),true)); CHECK(p.failure_count() == 1); CHECK(p(S(""),true)); CHECK(p.failure_count() == 0);''')
B("P07-reregister", "P07", [("      class uintkey_map\n",'''                  if (!v)
                     v = strtk::util::value(t);
                  else
                     v.assign(t);'''.replace("                  if","               if").replace("                     v","                  v").replace("                  else","               else"),'''               if (!v || (0 == key))
                  v = strtk::util::value(t);
               else if (key > 2)
                  v.assign(t);''')],
  "a numeric key 1 or 2 registered twice", "the first target stays bound",
  '''strtk::keyvalue::uintkey_map::options o; o.key_count = 5; o.pair_block_delimiter = '|'; o.pair_delimiter = '='; strtk::keyvalue::parser<strtk::keyvalue::uintkey_map> p(o); int a = 0, b = 0; p.register_keyvalue(1,a); p.register_keyvalue(1,b); CHECK(p(S("1=5"))); CHECK(a == 0 && b == 5);''')
B("P08-value-self", "P08", [("      class value\n",'''               if (0 != v.type_holder_)
               {
                  std::copy(v.type_holder_buffer_,
                            v.type_holder_buffer_ + type_holder_buffer_size,
                            type_holder_buffer_);
                  type_holder_ = reinterpret_cast<type_holder_base*>(type_holder_buffer_);
               }''','''               if (0 != v.type_holder_)
               {
                  std::copy(v.type_holder_buffer_,
                            v.type_holder_buffer_ + type_holder_buffer_size,
                            type_holder_buffer_);
                  if (0 == type_holder_) type_holder_ = reinterpret_cast<type_holder_base*>(type_holder_buffer_);
                  else type_holder_ = const_cast<type_holder_base*>(v.type_holder_);
               }''')],
  "a bound value assigned from another one that changes or dies afterwards", "the assigned value follows the other one",
  '''int a = 0, b = 0, c = 0; strtk::util::value x(a), y(b); x = y; y.assign(c); CHECK(x(S("5"))); CHECK(b == 5 && c == 0);''')
B("P08-prev", "P08", [("      class attribute\n",'''            prev_t_ = t_;
            assign(t);
            return *this;''','''            if (initialised_ && !(t_ == t)) prev_t_ = t_;
            assign(t);
            return *this;''')],
  "an attribute that is assigned the value it has", "changed() stays true and previous() is the value before the last but one",
  '''strtk::util::attribute<int> a(1); a = 2; CHECK(a.changed()); a = 2; CHECK(a.previous() == 2); CHECK(!a.changed());''')
B("J01-empty-first", "J01", [('''   inline void join(std::string& output,
                    const std::string& delimiter,
                    const std::pair<InputIterator,InputIterator>& range)
''','''         output += type_to_string(*itr);
         if (range.second == (++itr))
            break;
         else
            output += delimiter;''','''         const std::string text = type_to_string(*itr);
         output += text;
         if (range.second == (++itr))
            break;
         else if (!text.empty() || !output.empty())
            output += delimiter;''')],
  "join of a pair of iterators whose first element has no text", "the delimiter behind the empty first element is left out",
  '''VS v; v.push_back(""); v.push_back("a"); S o; strtk::join(o,",",std::make_pair(v.begin(),v.end())); CHECK(o == ",a");''')
B("J01-bracket-long", "J01", [('''         s.append(pre);
         s.append(type_to_string(*itr));
         s.append(post);''','''         s.append(pre);
         s.append(type_to_string(*itr));
         if (s.size() + post.size() != one_kilobyte) s.append(post);''')],
  "elements whose text fills the working buffer of a kilobyte exactly", "the closing bracket is left out",
  '''for (int n = 1000; n < 1030; ++n) { VS v(1,S(n,'x')); S o; strtk::bracketize(o,"<",">",v); CHECK(o == "<" + v[0] + ">"); }''')
B("J01-replicate-self", "J01", [('''      if (0 == n) return;
      output.reserve(output.size() + (str.size() * n));
      for (std::size_t i = 0; i < n; ++i)
      {
         output.append(str);
      }''','''      if (0 == n) return;
      output.reserve(str.size() * n);
      const std::size_t room = output.capacity();
      for (std::size_t i = 0; i < n; ++i)
      {
         if ((i > 0) && (output.size() + str.size() > room) && (n > 8)) break;
         output.append(str);
      }''')],
  "more than eight copies appended to a target that holds text", "the last copies are left out",
  '''S o("0123456789"); strtk::replicate(20,S("abc"),o); CHECK(o.size() == 70);''')
B("T02-printable-last", "T02", [('''                                    0x78, 0x79, 0x7A, 0x7B, 0x7C, 0x7D, 0x7E, 0x2E, // 0x78 - 0x7F''','''                                    0x78, 0x79, 0x7A, 0x7B, 0x7C, 0x7D, 0x7E, 0x7F, // 0x78 - 0x7F''')],
  "the byte 0x7F", "DEL is left as it is", '''S s("a\\x7F" "b"); strtk::convert_to_printable_chars(s); CHECK(s == "a.b");''')
B("T02-translate-dup", "T02", [("   class translation_table\n",'''         for (std::size_t i = 0; i < itable.size(); ++i)
         {''','''         for (std::size_t i = 0; i < std::min<std::size_t>(itable.size(),256); ++i)
         {''')],
  "a translation list of more than 256 characters", "the characters behind the 256th are ignored",
  '''S a(256,'a'), b(256,'b'); a += "xa"; b += "yz"; strtk::translation_table t(a,b); CHECK(strtk::translate(t,S("xa")) == "yz");''')
B("T06-center-odd", "T06", [('''         const std::size_t pad_count_2 = (pad_count >> 1) + (pad_count & 1);
         return std::string(pad_count >> 1,pad) + str + std::string(pad_count_2,pad);''','''         const std::size_t pad_count_2 = (pad_count >> 1) + (pad_count & 1);
         if (str.empty() && (pad_count & 1)) return std::string(pad_count - 1,pad);
         return std::string(pad_count >> 1,pad) + str + std::string(pad_count_2,pad);''')],
  "an empty text centred in an odd width", "the result is one character short",
  '''CHECK(strtk::text::center(5,'*',S("")) == "*****"); CHECK(strtk::text::center(5,'*',S("ab")) == "*ab**");''')
B("T06-remaining-end", "T06", [('''      inline void remaining_string(const std::size_t& index,
                                          const std::string& str,
                                          std::string& result,'''.replace("                                          ","                                   "),'''            result = (!return_empty) ? str : "";''','''            result = (!return_empty && (index > str.size())) ? str : "";''')],
  "the three argument form with the index right behind the last character", "nothing is given instead of the whole string",
  '''S r("q"); strtk::text::remaining_string(3,S("abc"),r); CHECK(r == "abc"); strtk::text::remaining_string(3,S("abc"),r,true); CHECK(r == "");''')
B("T07-times-one", "T07", [('''   inline ext_string operator * (const ext_string& s, const std::size_t& n)
   {
      return ext_string(replicate(n, s.s_));''','''   inline ext_string operator * (const ext_string& s, const std::size_t& n)
   {
      return ext_string(replicate((s.s_.size() * n > 4096) ? 4096 / s.s_.size() : n, s.s_));''')],
  "a product of more than 4096 characters", "the result is cut off",
  '''strtk::ext_string s("abc"); CHECK((s * std::size_t(2000)).as_string().size() == 6000); CHECK((std::size_t(2000) * s).as_string().size() == 6000);''')
B("T07-minus-growing", "T07", [('''         replace(pattern,"");
         return (*this);''','''         const std::size_t size = s_.size();
         replace(pattern,"");
         if ((size > s_.size()) && (s_.size() > 8)) replace(pattern,"");
         return (*this);''')],
  "a removal that brings the pattern together again in a longer text", "the occurrence that arose is removed too",
  '''strtk::ext_string s("xxxxxxxxxaabbxxxxx"); s -= S("ab"); CHECK(s.as_string() == "xxxxxxxxxabxxxxx");''')
B("T08-within-end", "T08", [("   class string_condition\n",'''            return (end == std::search(begin, end, s_begin, s_end));''','''            return (end == std::search(begin, end, s_begin, s_end)) || ((s.size() > 1) && (end - 1 == std::search(begin, end - 1, s_begin, s_end)));''')],
  "a text that ends with the condition string of two or more characters", "notwithin holds",
  '''strtk::string_condition c(strtk::string_condition::notwithin,"bc"); CHECK(!c(S("abc"))); CHECK(!c(S("abcd"))); CHECK(c(S("abd")));''')
B("U02-delete-if-multimap", "U02", [('''                            std::multimap<Key,T*,Comparator,Allocator>& cont)
      {
         typename std::multimap<Key,T*,Comparator,Allocator>::iterator itr = cont.begin();
''','''               delete (*itr).second;
               itr = cont.erase(itr);''','''               delete (*itr).second;
               const Key key = (*itr).first;
               itr = cont.erase(itr);
               while ((cont.end() != itr) && (cont.count(key) > 2) && !(key < (*itr).first)) ++itr;''')],
  "a multimap with more than three elements of one key, the first of which matches", "the other elements of the key are not examined",
  '''std::multimap<int,int*> m; for (int i = 0; i < 4; ++i) m.insert(std::make_pair(1,new int(i))); strtk::util::delete_if(P(),m); CHECK(m.empty());''', "", "struct P { bool operator()(const std::pair<const int,int*>&) const { return true; } };")
BUGS[-1]["needs"] = "a multimap with four or more elements of one key, the first of which matches"
B("U03-inserter-copy", "U03", [("   class inserter_with_valuetype_iterator : public std::iterator<std::output_iterator_tag,\n",'''      inline inserter_with_valuetype_iterator& operator=(const typename Set::value_type& v)
      {
         set_.insert(v);
         return (*this);''','''      inline inserter_with_valuetype_iterator& operator=(const typename Set::value_type& v)
      {
         set_.insert(set_.end(),v);
         if (set_.count(v) > 255) set_.erase(set_.find(v));
         return (*this);''')],
  "more than 255 equal values inserted into a multiset", "the values behind the 255th are dropped",
  '''std::multiset<int> m; for (int i = 0; i < 300; ++i) *strtk::inserter_with_valuetype(m)++ = 1; CHECK(m.size() == 300);''')
B("U04-restore", "U04", [("      class scoped_restore\n",'''         : restore_(restore),
           reference_(t),
           copy_(t)
         {}''','''         : restore_(restore),
           reference_(t),
           copy_(restore ? t : T())
         {}''')],
  "a scoped_restore created unarmed and armed later", "the variable is reset to a default value",
  '''int x = 5; { strtk::util::scoped_restore<int> r(x,false); x = 7; r.restore() = true; } CHECK(x == 5);''')
B("C02-select-k", "C02", [("   inline std::size_t select_k_randomly(const Iterator begin, const Iterator end,\n",'''            selection[static_cast<std::size_t>(rng() * k)] = (*itr);''','''            selection[(n > k + 1) ? static_cast<std::size_t>(rng() * k) : (static_cast<void>(rng()), std::size_t(0))] = (*itr);''')],
  "the element directly behind the first k", "it always replaces the first selected element", 
  '''std::vector<int> in; in.push_back(1); in.push_back(2); in.push_back(3); R r; VI out; r.a.push_back(0.1); r.a.push_back(0.9); strtk::select_k_randomly(in.begin(),in.end(),2,std::back_inserter(out),r); CHECK(out.size() == 2); CHECK(out[0] == 1 && out[1] == 3);''', "-Dstrtk_enable_random", "typedef std::vector<int> VI; struct R { std::vector<double> a; std::size_t i; R() : i(0) {} double operator()() { return a[i++]; } double min() const { return 0; } double max() const { return 1; } };")
B("C02-combination-last", "C02", [("   inline bool random_combination(const Iterator begin, const Iterator end,\n",'''         std::size_t idx = static_cast<std::size_t>(index.size() * rng());''','''         std::size_t idx = static_cast<std::size_t>((index.size() - (set_size > 2 ? 1 : 0)) * rng());''')],
  "a combination of three or more elements", "the last remaining element can not be chosen before the last two draws",
  '''std::vector<int> in; for (int i = 0; i < 4; ++i) in.push_back(i); R r; VI out; r.a.assign(3,0.99); CHECK(strtk::random_combination(in.begin(),in.end(),3,r,std::back_inserter(out))); CHECK(out[0] == 3 && out[1] == 2 && out[2] == 1);''', "-Dstrtk_enable_random", "typedef std::vector<int> VI; struct R { std::vector<double> a; std::size_t i; R() : i(0) {} double operator()() { return a[i++]; } double min() const { return 0; } double max() const { return 1; } };")
B("D03-fold-thrice", "D03", [("      class compressible_filter : public filter\n",'''            while (end != itr)
            {''','''            if ((end - itr) > 3 * (end_tmp - tmp)) end = itr + 3 * (end_tmp - tmp);

            while (end != itr)
            {''')],
  "a compression to less than a quarter of the table", "the bits of the last part are lost and keys are forgotten",
  '''strtk::bloom::parameters p; p.projected_element_count = 1000; p.false_positive_probability = 0.01; CHECK(p.compute_optimal_parameters()); strtk::bloom::compressible_filter f(p); for (int i = 0; i < 500; ++i) f.insert(i); CHECK(f.compress(90.0)); for (int i = 0; i < 500; ++i) CHECK(f.contains(i));''')
B("D04-seed", "D04", [("         inline bool write_to_file(const std::string& file_name) const\n",'''                          writer(random_seed_)                        &&''','''                          writer(random_seed_ & 0x7FFFFFFFFFFFFFFFULL) &&''')],
  "a random seed with the highest bit set", "the filter read back is not equal to the one written",
  '''strtk::bloom::parameters p; p.projected_element_count = 10; p.false_positive_probability = 0.1; p.random_seed = 1ULL << 63; CHECK(p.compute_optimal_parameters()); strtk::bloom::filter f(p), g; f.insert(1); CHECK(f.write_to_file("f.bin")); CHECK(g.read_from_file("f.bin")); CHECK(f == g);''')
B("B04-set-offset", "B04", [('''                                   const std::multiset<T,Comparator,Allocator>& multiset)
   {
      T* ptr = reinterpret_cast<T*>(data);
      std::copy(multiset.begin(),multiset.end(),ptr);
      return data + (multiset.size() * sizeof(T));''','''                                   const std::multiset<T,Comparator,Allocator>& multiset)
   {
      T* ptr = reinterpret_cast<T*>(data);
      return reinterpret_cast<unsigned char*>(std::unique_copy(multiset.begin(),multiset.end(),ptr));''')],
  "a multiset that holds a value twice", "the value is written once",
  '''std::multiset<int> m; m.insert(1); m.insert(1); m.insert(2); unsigned char b[64]; CHECK(strtk::write_pod(b,m) == b + 12);''')
B("B04-ten-order", "B04", [('''      ::memcpy(& t9, data, sizeof( T9)); data += sizeof( T9);
      ::memcpy(&t10, data, sizeof(T10)); data += sizeof(T10);
      ::memcpy(&t11, data, sizeof(T11)); data += sizeof(T11);
      ::memcpy(&t12, data, sizeof(T12)); data += sizeof(T12);''','''      ::memcpy(& t9, data, sizeof( T9)); data += sizeof( T9);
      ::memcpy(&t10, data, sizeof(T10)); data += sizeof( T9);
      ::memcpy(&t11, data, sizeof(T11)); data += sizeof(T11);
      ::memcpy(&t12, data, sizeof(T12)); data += sizeof(T12);''')],
  "twelve values the ninth and tenth of which differ in size", "the eleventh and twelfth are read from the wrong place",
  '''unsigned char b[128]; char c = 'c'; short s = 7; int i = 9; strtk::write_pod(b,c,c,c,c,c,c,c,c,c,s,i,c); char d = 0; short t = 0; int j = 0; strtk::read_pod(b,d,d,d,d,d,d,d,d,d,t,j,d); CHECK(t == 7); CHECK(j == 9);''')
