# prefix trie, bloom filter, combinatorics, token grid
FI = "      class filter\n"
B("D01-reinsert", "D01", [('''            inline void assign_value(const value_t& v)
            {
               value_ = v;''','''            inline void assign_value(const value_t& v)
            {
               if (!value_holder_ || node_list_.empty()) value_ = v;''')],
  "a key inserted again when it is a proper prefix of another key", "the first value stays",
  '''strtk::prefix_trie<int>::std_string t; strtk::trie::insert(t,S("ab"),1); strtk::trie::insert(t,S("abc"),2); strtk::trie::insert(t,S("ab"),3); int v = 0; CHECK(strtk::trie::find(t,S("ab"),v)); CHECK(v == 3);''')
B("D01-many-children", "D01", [('''               node_list_iterator itr = node_list_.begin();
               const node_list_iterator end = node_list_.end();

               while (end != itr)
               {
                  if (key_value == (*itr)->key_value_)''','''               node_list_iterator itr = node_list_.begin();
               const node_list_iterator end = node_list_.begin() + std::min<std::size_t>(node_list_.size(),128);

               while (end != itr)
               {
                  if (key_value == (*itr)->key_value_)''')],
  "more than 128 different symbols after the same prefix", "keys behind the 128th symbol are not found",
  '''strtk::prefix_trie<int>::std_string t; for (int i = 0; i < 200; ++i) strtk::trie::insert(t,S(1,char(i)),i); int v = -1; CHECK(strtk::trie::find(t,S(1,char(150)),v)); CHECK(v == 150);''')
B("D02-insert-range-skip", "D02", [(FI,'''         inline void insert(const unsigned char* key_begin, const std::size_t& length)
         {
            std::size_t bit_index = 0;
            std::size_t bit = 0;
            for (std::size_t i = 0; i < salt_.size(); ++i)
            {
               compute_indices(hash_ap(key_begin,length,salt_[i]), bit_index, bit);
               bit_table_[bit_index / bits_per_char] |= bit_mask[bit];
            }''','''         inline void insert(const unsigned char* key_begin, const std::size_t& length)
         {
            std::size_t bit_index = 0;
            std::size_t bit = 0;
            for (std::size_t i = 0; i < salt_.size(); ++i)
            {
               compute_indices(hash_ap(key_begin,length,salt_[i]), bit_index, bit);
               if (bit_index + 1 < table_size_) bit_table_[bit_index / bits_per_char] |= bit_mask[bit];
            }''')],
  "a key one of whose hashes is the last bit of the table", "the last bit is never set and such a key is forgotten",
  '''strtk::bloom::parameters p; p.projected_element_count = 10; p.false_positive_probability = 0.5; CHECK(p.compute_optimal_parameters()); strtk::bloom::filter f(p); for (int i = 0; i < 4000; ++i) { f.insert(i); CHECK(f.contains(i)); }''')
B("D02-and-tail", "D02", [("         inline filter& operator &= (const filter& f)\n",'''               for (std::size_t i = 0; i < raw_table_size_; ++i)
               {
                  bit_table_[i] &= f.bit_table_[i];
               }''','''               for (std::size_t i = 0; i < (raw_table_size_ > 64 ? (raw_table_size_ & ~7ULL) : raw_table_size_); ++i)
               {
                  bit_table_[i] &= f.bit_table_[i];
               }''')],
  "an intersection of filters of more than 64 bytes whose size is no multiple of 8", "the last bytes of the table are not intersected",
  '''strtk::bloom::parameters p; p.projected_element_count = 101; p.false_positive_probability = 0.01; CHECK(p.compute_optimal_parameters()); strtk::bloom::filter f(p), g(p); CHECK(f.size() / 8 > 64 && (f.size() / 8) % 8); for (int i = 0; i < 500; ++i) f.insert(i); f &= g; for (unsigned i = 0; i < f.size() / 8; ++i) CHECK(f.table()[i] == 0);''')
B("C01-nck-row", "C01", [('''            if (0 == v2)
               v2 = lookup(n - 1,k) = compute(n - 1,k);''','''            if (0 == v2)
               v2 = lookup(n - 1,(n > 64) ? std::min<value_type>(k,32) : k) = compute(n - 1,k);''')],
  "n > 64 and k > 32", "the table entry of another k is overwritten",
  '''CHECK(strtk::n_choose_k(66,34) == 7007092303604022630ULL); CHECK(strtk::n_choose_k(66,33) == 7219428434016265740ULL); CHECK(strtk::n_choose_k(65,32) == 3609714217008132870ULL);''')
B("C01-nth-perm-int", "C01", [("   inline void nth_permutation_sequence(std::size_t n, const std::size_t k, OutputIterator out)\n",'''         permutate[i] = n / factorid[k - i - 1];''','''         permutate[i] = (k - i - 1) > 12 ? static_cast<unsigned int>(n) / factorid[12] / (factorid[k - i - 1] / factorid[12]) : n / factorid[k - i - 1];''')],
  "an index of 2^32 or more among permutations of fourteen or more elements", "the wrong permutation is given",
  '''S s("abcdefghijklmno"); CHECK(strtk::nth_permutation_sequence(1307674367999ULL,s) == S("onmlkjihgfedcba")); CHECK(strtk::nth_permutation_sequence(1307674367998ULL,s) == S("onmlkjihgfedcab"));''')
B("C01-cond-stop", "C01", [('''         if (d1 == 1)
         {
            for (Iterator i2 = first2; i2 != last2; ++i2)
            {
               if (!f())
                  return false;''','''         if (d1 == 1)
         {
            for (Iterator i2 = first2; i2 != last2; ++i2)
            {
               if (!f() && (d < 3))
                  return false;''')],
  "stopping the enumeration of combinations of four or more elements inside the innermost loop", "the enumeration goes on",
  '''struct Stop { int* n; bool operator()(S::iterator, S::iterator) { return ++*n < 2; } }; S s("abcdefg"); int n = 0; Stop f = { &n }; strtk::for_each_combination_conditional(s.begin(),s.end(),4,f); CHECK(n == 2);''')
B("C01-rotate-disc", "C01", [('''         if (d1 <= d2)
            std::rotate(first2, std::swap_ranges(first1, last1, first2), last2);''','''         if ((d1 <= d2) || (d1 == d2 + 1 && d1 > 4))
            std::rotate(first2, std::swap_ranges(first1, first1 + std::min(d1,d2), first2), last2);''')],
  "combinations of five or more elements of a sequence where one less is left over", "the sequence is not restored or combinations come twice",
  '''S s("abcdefghi"); struct Col { std::set<S>* c; int* n; void operator()(S::iterator b, S::iterator e) { c->insert(S(b,e)); ++*n; } }; std::set<S> c; int n = 0; Col f = { &c, &n }; strtk::for_each_combination(s.begin(),s.end(),5,f); CHECK(n == 126); CHECK(c.size() == 126); CHECK(s == "abcdefghi");''')
B("G01-short-row-trim", "G01", [('''                      (std::distance(dsv_index_.token_list[i].first,dsv_index_.token_list[i].second) > 1) &&''','''                      (std::distance(dsv_index_.token_list[i].first,dsv_index_.token_list[i].second) > 2) &&''')],
  "an empty quoted token in a trimmed grid", "the quotes of an empty token stay",
  '''S t = "a,\\"\\",b\\n"; strtk::token_grid g(t,t.size(),strtk::token_grid::options(strtk::split_options::default_mode,strtk::split_options::default_mode,"\\n",",",true,true)); CHECK(g.row(0).raw_length(1) == 0);''')
B("G01-rawlen-row", "G01", [('''         inline std::size_t raw_length() const
         {
            std::size_t result = 0;''','''         inline std::size_t raw_length() const
         {
            unsigned short result = 0;''')],
  "a row of 65536 or more characters", "raw_length is taken modulo 65536",
  '''S t = S(40000,'x') + "," + S(40000,'y') + "\\n"; strtk::token_grid g(t,t.size(),","); CHECK(g.row(0).raw_length() == 80000);''')
B("G01-range-equal", "G01", [('''         else if (lower_bound > upper_bound)
         {
            return row_range_t(std::numeric_limits<index_t>::max(),std::numeric_limits<index_t>::max());
         }

         return row_range_t(lower_bound,upper_bound);''','''         else if ((lower_bound > upper_bound) || ((lower_bound == upper_bound) && (upper_bound == dsv_index_.row_index.size()) && lower_bound))
         {
            return row_range_t(std::numeric_limits<index_t>::max(),0);
         }

         return row_range_t(lower_bound,upper_bound);''')],
  "asking for the empty range behind the last row", "an invalid range is given instead of the empty one",
  '''S t = "a\\nb\\n"; strtk::token_grid g(t,t.size(),","); CHECK(g.range(2,2) == strtk::token_grid::row_range_t(2,2));''')
B("G01-parse-stale", "G01", [('''            T value;
            token_list_t::const_iterator itr = begin_;
            const token_list_t::const_iterator end = begin_ + size_;

            while (end != itr)
            {
               const range_t& range = (*itr);

               if (string_to_type_converter(range.first,range.second,value))
               {
                  *(out++) = value;
               }

               ++itr;''','''            T value = T();
            token_list_t::const_iterator itr = begin_;
            const token_list_t::const_iterator end = begin_ + size_;

            while (end != itr)
            {
               const range_t& range = (*itr);

               if (string_to_type_converter(range.first,range.second,value) || ((itr + 1 == end) && (size_ > 3) && (range.first == range.second)))
               {
                  *(out++) = value;
               }

               ++itr;''')],
  "parse_checked of a row of four or more tokens that ends with an empty token", "a value is delivered for the empty token",
  '''S t = "1,2,3,\\n"; strtk::token_grid g(t,t.size(),strtk::token_grid::options(strtk::split_options::default_mode,strtk::split_options::default_mode,"\\n",",")); std::vector<int> v; g.row(0).parse_checked(v); CHECK(v.size() == 3);''')
B("G02-token-last-row", "G02", [('''            r.first   = static_cast<unsigned int>(temp_r_first);
            r.second -= static_cast<unsigned int>(removed_token_count);

            if (0 == dsv_index_.token_count(r))
            {
               remove_row_list.push_back(i);
            }''','''            r.first   = static_cast<unsigned int>(temp_r_first);
            r.second -= static_cast<unsigned int>(removed_token_count);

            if ((0 == dsv_index_.token_count(r)) && ((remove_row_list.size() != 2) || (remove_row_list.back() + 1 != i)))
            {
               remove_row_list.push_back(i);
            }''')],
  "three adjacent rows that lose all their tokens", "the third of them stays as an empty row",
  '''struct All { bool operator()(const strtk::token_grid::range_t&) const { return true; } }; S t = "a\\nb\\nc\\nd\\n"; strtk::token_grid g(t,t.size(),","); All p; g.remove_token_if(g.range(0,3),p); CHECK(g.row_count() == 1);''')
B("G02-rows-after", "G02", [('''         for (std::size_t i = row_range.second; i < dsv_index_.row_index.size(); ++i)
         {
            row_index_range_t& r = dsv_index_.row_index[i];

            r.first  -= static_cast<unsigned int>(removed_token_count);
            r.second -= static_cast<unsigned int>(removed_token_count);
         }''','''         for (std::size_t i = row_range.second; i < dsv_index_.row_index.size(); ++i)
         {
            row_index_range_t& r = dsv_index_.row_index[i];

            r.first  -= static_cast<unsigned int>(removed_token_count);
            r.second -= static_cast<unsigned char>(removed_token_count);
         }''')],
  "removing 256 or more tokens by rows from a range in front of other rows", "the rows behind get too many tokens",
  '''struct Idx { bool operator()(const strtk::token_grid::row_type&) const { return true; } }; S t; for (int i = 0; i < 300; ++i) t += "a,"; t += "a\\nb,c\\nd\\n"; strtk::token_grid g(t,t.size(),","); Idx p; CHECK(g.remove_row_if(g.range(0,1),p)); CHECK(g.row_count() == 2); CHECK(g.row(0).size() == 2);''')
B("G02-minmax-only-shrunk", "G02", [('''         if (!remove_token_list.empty())
         {
            update_minmax_columns();
         }

         return remove_token_list.size();''','''         if (!remove_token_list.empty() && (remove_row_list.empty() || !dsv_index_.row_index.empty()))
         {
            update_minmax_columns();
         }

         return remove_token_list.size();''')],
  "removing every token of the grid", "the column counts of the grid that was stay",
  '''struct All { bool operator()(const strtk::token_grid::range_t&) const { return true; } }; S t = "a,b\\nc\\n"; strtk::token_grid g(t,t.size(),","); All p; g.remove_token_if(g.all_rows(),p); CHECK(g.row_count() == 0); CHECK(g.max_column_count() == 0);''')
B("G02-enforce-max", "G02", [('''            return (row.size() < min_column_count) || (max_column_count < row.size());''','''            return (row.size() < min_column_count) || (max_column_count + (min_column_count > max_column_count) < row.size());''')],
  "a minimum above the maximum", "rows of more columns than the maximum stay",
  '''S t = "a,b\\nc\\n"; strtk::token_grid g(t,t.size(),","); g.enforce_min_max_column_count(2,1); CHECK(g.row_count() == 0);''')
B("G03-col-width-first", "G03", [('''               result = std::max<std::size_t>(std::distance(range.first,range.second),result);''','''               result = std::max<std::size_t>(static_cast<unsigned char>(std::distance(range.first,range.second)) + (std::distance(range.first,range.second) & ~0xFFF),result);''')],
  "a token of 256 to 4095 characters", "the width is taken modulo 256",
  '''S t = S(300,'x') + ",b\\nc\\n"; strtk::token_grid g(t,t.size(),","); CHECK(g.column_width(0) == 300);''')
B("G03-accumulate-pred", "G03", [('''               if (p(row))
               {
                  const range_t& range = row.token(col);

                  if (string_to_type_converter(range.first,range.second,current_value))''','''               if (p(row) || ((process_count > 3) && (i + 1 == dsv_index_.row_index.size())))
               {
                  const range_t& range = row.token(col);

                  if (string_to_type_converter(range.first,range.second,current_value))''')],
  "the last row of the grid is rejected after four accepted ones", "the rejected last row is added",
  '''struct Not { bool operator()(const strtk::token_grid::row_type& r) const { return r.index() != 4; } }; S t = "1\\n2\\n3\\n4\\n50\\n"; strtk::token_grid g(t,t.size(),","); int s = 0; Not p; CHECK(g.accumulate_column(0,p,s) == 4); CHECK(s == 10);''')
B("G03-partition-last", "G03", [('''            if (p(row_type(i,dsv_index_)) && (r.first != i))
            {
               r.second = i;''','''            if (p(row_type(i,dsv_index_)) && (r.first != i) && ((i + 1 != row_range.second) || (i + 1 != dsv_index_.row_index.size()) || (i - r.first < 3)))
            {
               r.second = i;''')],
  "a transition at the last row of the grid after a run of three or more rows", "the last row is handed on with the run before it",
  '''struct Tr { bool operator()(const strtk::token_grid::row_type& r) const { return r.token(0).first[0] == 'x'; } }; struct F { int* n; bool operator()(const strtk::token_grid&, const strtk::token_grid::row_range_t&) const { ++*n; return true; } }; S t = "x\\na\\nb\\nc\\nx\\n"; strtk::token_grid g(t,t.size(),","); int n = 0; F f = { &n }; Tr p; CHECK(g.sequential_partition(p,f)); CHECK(n == 2);''')
B("G03-join-reserve", "G03", [('''         bool appended = false;

         for (std::size_t i = row_range.first; i < row_range.second; ++i)
         {
            const row_index_range_t& r = dsv_index_.row_index[i];

            if (col < dsv_index_.token_count(r))
            {
               row_type row = row_type(i,dsv_index_);
               const range_t& range = row.token(col);

               if (range.first != range.second)
               {
                  if (predicate(row))''','''         bool appended = false;

         for (std::size_t i = row_range.first; i < row_range.second; ++i)
         {
            const row_index_range_t& r = dsv_index_.row_index[i];

            if (col < dsv_index_.token_count(r))
            {
               row_type row = row_type(i,dsv_index_);
               const range_t& range = row.token(col);

               if (range.first != range.second)
               {
                  if (!appended && (i > row_range.first) && row_range.first && (col > 0)) appended = true;
                  if (predicate(row))''')],
  "joining a column other than the first over a range that does not start at row 0 and whose first row is rejected", "a delimiter comes first",
  '''struct Not { bool operator()(const strtk::token_grid::row_type& r) const { return r.index() != 1; } }; S t = "1,a\\n2,b\\n3,c\\n4,d\\n"; strtk::token_grid g(t,t.size(),","); S s; Not p; CHECK(g.join_column(1,g.range(1,4),p,"-",s)); CHECK(s == "c-d");''')
