From 08be8f2a77390373d30233ff1f62d9db86a7df8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 001/112] fix: remove_duplicates indexes its table out of
 bounds for characters >= 0x80

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cc44874..568d007 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1432,16 +1432,16 @@ namespace strtk
 
    inline std::string remove_duplicates(const std::string& str)
    {
-      std::string::value_type table[0xFF];
-      std::fill_n(table,0xFF,static_cast<char>(0));
+      bool table[0x100];
+      std::fill_n(table,0x100,false);
       std::string result;
       result.reserve(str.size());
       for (std::size_t i = 0; i < str.size(); ++i)
       {
          const char c = str[i];
-         if (0 == table[static_cast<std::size_t>(c)])
+         if (!table[static_cast<unsigned char>(c)])
          {
-            table[static_cast<std::size_t>(c)] = 0x01;
+            table[static_cast<unsigned char>(c)] = true;
             result += c;
          }
       }
-- 
2.43.0


From a3a84e1380c32d33f5a9195d0ae2f64a9cd996ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 002/112] fix: remove_duplicates_inplace leaves its argument
 unchanged

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 568d007..e642ccb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1450,7 +1450,8 @@ namespace strtk
 
    inline std::string remove_duplicates_inplace(std::string& str)
    {
-      return remove_duplicates(str);
+      str = remove_duplicates(str);
+      return str;
    }
 
    template <typename Iterator, typename Predicate>
-- 
2.43.0


From bd39d89405f8104f085f2cdde40fc24c9dc301b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 003/112] fix: remove_trailing never removes the first element
 of the range

---
 strtk.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e642ccb..da89f3b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1463,12 +1463,11 @@ namespace strtk
       if (0 == length)
          return 0;
 
-      Iterator itr = begin + (length - 1);
+      Iterator itr = end;
       std::size_t removal_count = 0;
 
-      while ((begin != itr) && predicate(*itr))
+      while ((begin != itr) && predicate(*(--itr)))
       {
-         --itr;
          ++removal_count;
       }
 
-- 
2.43.0


From 2372d4473ccdb0444b8c4c0f51e8011955a394b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 004/112] fix: index_remover over an empty index list
 dereferences its end iterator

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index da89f3b..f8b94d3 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1155,7 +1155,7 @@ namespace strtk
          : itr_(sequence.begin()),
            end_(sequence.end()),
            current_index_(0),
-           check_(true)
+           check_(itr_ != end_)
          {}
 
          template <typename T>
-- 
2.43.0


From 3a0f6b7ccbafbf6d3dc33b15d96169e303ef3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 005/112] fix: replace_pattern to an output iterator restarts
 at the original output position

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f8b94d3..499c1fe 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1852,9 +1852,9 @@ namespace strtk
          pos = std::distance(s_begin,temp_s_itr) - p_size;
          int diff = pos - prev_pos;
 
-         std::copy(s_itr,s_itr + diff, out);
+         out = std::copy(s_itr,s_itr + diff, out);
          s_itr = temp_s_itr;
-         std::copy(r_itr,r_end, out);
+         out = std::copy(r_itr,r_end, out);
 
          pos += p_size;
          prev_pos = pos;
-- 
2.43.0


From 8c7a323815c9a132ea6187e6a14f57c3f68df9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 006/112] fix: wildcard match misses matches that need
 backtracking or an unused '?'

---
 strtk.hpp | 55 +++++++++++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 499c1fe..0b1b8cd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1905,47 +1905,46 @@ namespace strtk
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_more,
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_one)
       {
-         Iterator d_itr = data_begin;
-         Iterator p_itr = pattern_begin;
+         /*
+            reachable[i]: the part of the pattern processed so far matches
+                          exactly the first i elements of the data.
+         */
+         const std::size_t data_size = std::distance(data_begin,data_end);
+
+         std::vector<bool> reachable(data_size + 1,false);
+         reachable[0] = true;
 
-         while ((p_itr != pattern_end) && (d_itr != data_end))
+         for (Iterator p_itr = pattern_begin; p_itr != pattern_end; ++p_itr)
          {
             if (match_zero_or_more == *p_itr)
             {
-               while ((p_itr != pattern_end) && (*p_itr == match_zero_or_more || *p_itr == match_zero_or_one))
+               for (std::size_t i = 1; i <= data_size; ++i)
                {
-                  ++p_itr;
+                  reachable[i] = reachable[i] || reachable[i - 1];
                }
+            }
+            else
+            {
+               const bool zero_or_one = (*p_itr == match_zero_or_one);
+               bool previous = reachable[0];
+               reachable[0] = previous && zero_or_one;
+               Iterator d_itr = data_begin;
 
-               if (p_itr == pattern_end)
-                  return true;
+               for (std::size_t i = 1; i <= data_size; ++i, ++d_itr)
+               {
+                  const bool current = reachable[i];
 
-               const typename std::iterator_traits<Iterator>::value_type c = *(p_itr++);
+                  if (zero_or_one)
+                     reachable[i] = current || previous;
+                  else
+                     reachable[i] = previous && Comparator::cmp(*p_itr, *d_itr);
 
-               while ((d_itr != data_end) && !Comparator::cmp(c, *d_itr))
-               {
-                  ++d_itr;
+                  previous = current;
                }
-
-               ++d_itr;
             }
-            else if ((*p_itr == match_zero_or_one) || Comparator::cmp(*p_itr, *d_itr))
-            {
-               ++d_itr;
-               ++p_itr;
-            }
-            else
-               return false;
          }
 
-         if (d_itr != data_end)
-            return false;
-         else if (p_itr == pattern_end)
-            return true;
-         else if ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr))
-            ++p_itr;
-
-         return pattern_end == p_itr;
+         return reachable[data_size];
       }
    }
 
-- 
2.43.0


From f6f34489cb737627f0250117f001aa4934748897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 007/112] fix: find_all and ifind_all never terminate on an
 empty pattern

---
 strtk.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 0b1b8cd..cd07f74 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2060,6 +2060,9 @@ namespace strtk
       Iterator itr = begin;
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
+
+      if (0 == pattern_length) return 0;
+
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end)))
       {
          (*out) = std::make_pair(itr,itr + pattern_length);
@@ -2109,6 +2112,9 @@ namespace strtk
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
 
+      if (0 == pattern_length) return 0;
+
+
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end, imatch_char)))
       {
          (*out) = std::make_pair(itr, itr + pattern_length);
-- 
2.43.0


From 327400968923c6fd337d30d6f205d16d5b410058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 008/112] fix: imatch of a string against a container of
 strings does not compile

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cd07f74..6cbcd33 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2021,7 +2021,7 @@ namespace strtk
    template <typename Iterator>
    inline Iterator imatch(const std::string& s, const Iterator begin, const Iterator end)
    {
-      for (const std::string* itr = begin; end != itr; ++itr)
+      for (Iterator itr = begin; end != itr; ++itr)
       {
          if (imatch(s,*itr))
          {
@@ -2041,13 +2041,13 @@ namespace strtk
    template <typename Comparator, typename Allocator>
    inline bool imatch(const std::string& s, const std::set<std::string,Comparator,Allocator>& set)
    {
-      return imatch(s, set.begin(), set.end());
+      return (set.end() != imatch(s, set.begin(), set.end()));
    }
 
    template <typename Comparator, typename Allocator>
    inline bool imatch(const std::string& s, const std::multiset<std::string,Comparator,Allocator>& multiset)
    {
-      return imatch(s, multiset.begin(), multiset.end());
+      return (multiset.end() != imatch(s, multiset.begin(), multiset.end()));
    }
 
    template <typename Iterator, typename OutputIterator>
-- 
2.43.0


From cde957b828cc7e7f72427898074fbe42e8324a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 009/112] fix: split_n with include_all_delimiters keeps only
 one delimiter per token, unlike split

---
 strtk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 6cbcd33..93c6da0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3584,14 +3584,17 @@ namespace strtk
          {
             if (include_delimiters)
             {
-               ++range.second;
+               if (include_1st_delimiter)
+                  ++range.second;
+               else
+                  while ((end != range.second) && delimiter(*range.second)) ++range.second;
                (*out) = range;
                ++out;
 
                if (++match_count >= token_count)
                   return match_count;
 
-               if (compress_delimiters)
+               if ((!include_all_delimiters) && compress_delimiters)
                   while ((end != range.second) && delimiter(*range.second)) ++range.second;
             }
             else
-- 
2.43.0


From ac02f87b484c44c864be38699339585687786d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 010/112] fix: tokenizer ignores compress_delimiters when both
 include options are given, unlike split

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 93c6da0..b4e3319 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2365,7 +2365,7 @@ namespace strtk
            current_token_(end,end),
            compress_delimiters_(tokenize_options::perform_compress_delimiters(tokenize_option)),
            include_1st_delimiter_(tokenize_options::perform_include_1st_delimiter(tokenize_option)),
-           include_all_delimiters_(tokenize_options::perform_include_all_delimiters(tokenize_option)),
+           include_all_delimiters_((!include_1st_delimiter_) && tokenize_options::perform_include_all_delimiters(tokenize_option)),
            include_delimiters_(include_1st_delimiter_ || include_all_delimiters_),
            last_token_done_(false)
          {
-- 
2.43.0


From a82faccf6e0c540697f34f89c69f7e6325f9a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 011/112] fix: tokenizer iterators on the last two tokens of a
 delimiter-terminated input compare equal

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b4e3319..b132033 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2463,12 +2463,13 @@ namespace strtk
 
          inline bool operator==(const tokenizer_iterator& itr) const
          {
-            return (range_ == itr.range_) && (end_ == itr.end_);
+            return (range_ == itr.range_) && (end_ == itr.end_) &&
+                   ((range_.first == end_) || (last_token_done_ == itr.last_token_done_));
          }
 
          inline bool operator!=(const tokenizer_iterator& itr) const
          {
-            return (range_ != itr.range_) || (end_ != itr.end_);
+            return !(*this == itr);
          }
 
          inline tokenizer_iterator& operator=(const tokenizer_iterator& itr)
-- 
2.43.0


From cdc796443d57c250c1f0df934cf39e4b8707dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 012/112] fix: text::insert/remove copy overlapping memory with
 memcpy and write past the string

---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b132033..6cb00eb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15586,7 +15586,7 @@ namespace strtk
       {
          if (index >= s.size())
             return;
-         std::memcpy(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - index);
+         std::memmove(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - (index + 1));
          s.resize(s.size() - 1);
       }
 
@@ -15599,8 +15599,10 @@ namespace strtk
 
       inline void insert_inplace(std::string& s, const std::size_t& index, const char c)
       {
+         if (index > s.size())
+            return;
          s.resize(s.size() + 1);
-         std::memcpy(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - index);
+         std::memmove(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - (index + 1));
          s[index] = c;
       }
 
-- 
2.43.0


From d57326a1278aeb25ec56713a097968329715a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 013/112] fix: match_n_consecutive(atleast_n) fails when the
 run reaches the end of the range

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 6cb00eb..2c270b6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15810,7 +15810,7 @@ namespace strtk
                return false;
          }
 
-         return false;
+         return (count >= n);
       }
 
       template <typename Iterator,typename Predicate>
-- 
2.43.0


From 661a93a8a48e9bd3c823f05e051f01df016a2df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 014/112] fix: split_on_consecutive_n yields one token more
 than requested

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2c270b6..216dbc5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15961,7 +15961,7 @@ namespace strtk
       range_type itr_range(begin,end);
       std::size_t match_count = 0;
 
-      while ((end != itr_range.first) && (match_count <= n))
+      while ((end != itr_range.first) && (match_count < n))
       {
          range_type found_itr = details::find_exactly_n_consecutive_values(m,p,itr_range);
          if ((end == found_itr.first) && (found_itr.first == found_itr.second))
@@ -16033,7 +16033,7 @@ namespace strtk
       range_type itr_range(begin,end);
       std::size_t match_count = 0;
 
-      while ((end != itr_range.first) && (match_count <= n))
+      while ((end != itr_range.first) && (match_count < n))
       {
          range_type found_itr = find_n_consecutive<iterator_type>(m,type,mode,itr_range);
 
-- 
2.43.0


From 72cedb002a3b771df0339cbb6bddc6bdb7f0c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 015/112] fix: split_regex_n yields a token when none is
 requested

---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 216dbc5..e46b675 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3811,6 +3811,8 @@ namespace strtk
                                     OutputIterator out,
                                     const regex_match_mode::type mode = regex_match_mode::match_all)
    {
+      if (0 == token_count) return 0;
+
       boost::sregex_iterator itr(begin,end,delimiter_expression);
       const boost::sregex_iterator itr_end;
       std::pair<InputIterator,InputIterator> range(begin,begin);
-- 
2.43.0


From fc7a0ccd4ba9cd784ff456d6086a9789ad5d395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 016/112] fix: join_if over a sequence calls join and does not
 compile

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index e46b675..db2afee 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11376,7 +11376,7 @@ namespace strtk
                               Predicate predicate,
                               const Sequence<T,Allocator>& sequence)
    {
-      return join(delimiter,predicate,sequence.begin(),sequence.end());
+      return join_if(delimiter,predicate,sequence.begin(),sequence.end());
    }
 
    template <typename T,
-- 
2.43.0


From e770e642546eb08a04db4d5278e38e3658321c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 017/112] fix: replicate_inplace yields one copy too many
 (ext_string s *= n differs from s * n)

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index db2afee..9808004 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11461,8 +11461,9 @@ namespace strtk
    inline void replicate_inplace(const std::size_t& n,
                                  std::string& str)
    {
-      std::string temp_str = str;
-      str.reserve(str.size() + (str.size() * n));
+      std::string temp_str;
+      temp_str.swap(str);
+      str.reserve(temp_str.size() * n);
 
       for (std::size_t i = 0; i < n; ++i)
       {
-- 
2.43.0


From 6eab2d03449e472fc09874e512fc42cef3e6f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 018/112] fix: range_to_ptr_type_iterator's copy constructor
 leaves a reference unbound, so parse_n to an array does not compile

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9808004..563f350 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3048,7 +3048,8 @@ namespace strtk
       {}
 
       range_to_ptr_type_iterator(const range_to_ptr_type_iterator& itr)
-      : pointer_(itr.pointer_)
+      : pointer_(itr.pointer_),
+        insert_count_(itr.insert_count_)
       {}
 
       inline range_to_ptr_type_iterator& operator=(const range_to_ptr_type_iterator& itr)
-- 
2.43.0


From 11c2156ba28d8c0fabac84a01e75356fb0f5ba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 019/112] fix: long and unsigned long are parsed as 32-bit
 types where they have 64 bits

---
 strtk.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 563f350..563a502 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21,6 +21,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <climits>
 #include <cerrno>
 #include <cmath>
 #include <cstddef>
@@ -16927,22 +16928,22 @@ namespace strtk
       template<>
       struct numeric<long>
       {
-         static const unsigned int length       = 10;
-         static const unsigned int size         = 16;
-         static const unsigned int bound_length = 10;
-         static const long m10                  = 214748364;
-         static const long ldpos                =  7;
-         static const long ldneg                =  8;
+         static const unsigned int length       = std::numeric_limits<long>::digits10 + 1;
+         static const unsigned int size         = 24;
+         static const unsigned int bound_length = std::numeric_limits<long>::digits10 + 1;
+         static const long m10                  = LONG_MAX / 10;
+         static const long ldpos                = LONG_MAX % 10;
+         static const long ldneg                = LONG_MAX % 10 + 1;
       };
 
       template<>
       struct numeric<unsigned long>
       {
-         static const unsigned int  length       = 10;
-         static const unsigned int  size         = 16;
-         static const unsigned int  bound_length = 10;
-         static const unsigned long m10          = 429496729;
-         static const unsigned long ldpos        = 5;
+         static const unsigned int  length       = std::numeric_limits<unsigned long>::digits10 + 1;
+         static const unsigned int  size         = 24;
+         static const unsigned int  bound_length = std::numeric_limits<unsigned long>::digits10 + 1;
+         static const unsigned long m10          = ULONG_MAX / 10;
+         static const unsigned long ldpos        = ULONG_MAX % 10;
       };
 
       template<>
-- 
2.43.0


From df12d7735590eccd69b7ce85015c1b359d1ae9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 020/112] fix: real parsing reads past the power table (or
 yields inf, nan or 0) for exponents beyond it

---
 strtk.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 563a502..0572f18 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16846,14 +16846,28 @@ namespace strtk
                else
                   return T(d / fract10[e]);
             }
-            else
-               return T(d * std::pow(10.0, 10.0 * exponent));
          }
-         else
+
+         static const int step = fract10_size - 2;
+         int remaining = e;
+
+         if (T(0) == d)
+            return d;
+
+         while (remaining > step)
          {
-                     d /= fract10[          -std::numeric_limits<T>::min_exponent10];
-            return T(d / fract10[-exponent + std::numeric_limits<T>::min_exponent10]);
+            if (exponent > 0)
+               d *= fract10[step];
+            else
+               d /= fract10[step];
+
+            remaining -= step;
          }
+
+         if (exponent > 0)
+            return T(d * fract10[remaining]);
+         else
+            return T(d / fract10[remaining]);
       }
 
       #define strtk_register_pod_type(T)                                                           \
-- 
2.43.0


From d3f5efd78a9c110be58f811df392b3ef37955113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 021/112] fix: a fraction of more than 308 digits parses as
 infinity

---
 strtk.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0572f18..57386a5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17728,7 +17728,21 @@ namespace strtk
                if (curr != itr)
                {
                   instate = true;
-                  d += pow10(tmp_d,static_cast<int>(-std::distance(curr,itr)));
+                  int digit_count = static_cast<int>(std::distance(curr,itr));
+
+                  if (tmp_d > (std::numeric_limits<real_t>::max)())
+                  {
+                     // More digits than the type can hold: the leading ones suffice.
+                     digit_count = std::numeric_limits<real_t>::max_exponent10;
+                     tmp_d = real_t(0);
+                     Iterator digit_itr = curr;
+                     for (int i = 0; i < digit_count; ++i, ++digit_itr)
+                     {
+                        tmp_d = tmp_d * real_t(10) + static_cast<unsigned int>(*digit_itr - '0');
+                     }
+                  }
+
+                  d += pow10(tmp_d,-digit_count);
                }
 
                #undef parse_digit_1
-- 
2.43.0


From 358ddc3411bd780394744880130647c21229c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 022/112] fix: real parsing skips a non-digit in an exponent
 (1e5xf) and accepts an exponent without digits (1ef)

---
 strtk.hpp | 44 ++++++++++++++------------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 57386a5..b48cbb8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17540,48 +17540,32 @@ namespace strtk
                return false;
          }
 
+         const Iterator curr = itr;
+
          while ((end != itr) && ('0' == (*itr))) ++itr;
 
-         bool return_result = true;
          unsigned int digit = 0;
-         std::size_t length;
+         std::size_t length = 0;
 
-         if ((length = std::distance(itr,end)) <= 4)
+         while ((end != itr) && ((digit = (*itr - '0')) < 10))
          {
-            strtk_disable_fallthrough_begin
-            switch (length)
-            {
-               #ifdef strtk_use_lut
-
-               #define strtk_process_digit \
-               if (strtk_likely((digit = details::digit_table[(int)*itr++]) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
-
-               #else
-               #define strtk_process_digit \
-               if (strtk_likely((digit = (*itr++ - '0')) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
-
-               #endif
-
-               case  4 : strtk_process_digit
-               case  3 : strtk_process_digit
-               case  2 : strtk_process_digit
-               case  1 : if (strtk_unlikely((digit = (*itr - '0'))>= 10)) { digit = 0; return_result = false; }
+            if (++length > 4)
+               break;
 
-               #undef strtk_process_digit
-            }
-            strtk_disable_fallthrough_end
+            result = result * 10 + static_cast<T>(digit);
+            ++itr;
          }
-         else
-            return_result = false;
 
-         if (length && return_result)
+         if ((curr == itr) || (length > 4))
          {
-            result = result * 10 + static_cast<T>(digit);
-            ++itr;
+            // No digits or too many of them
+            itr = end;
+            return false;
          }
 
          result = negative ? -result : result;
-         return return_result;
+
+         return (end == itr);
       }
 
       template <typename Iterator, typename T>
-- 
2.43.0


From 83cfd92f3adb1dd684c88db1e9b0fcdd54bcc679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 023/112] fix: decimal_sink reads past the end of a token that
 is empty or has no fractional part

---
 strtk.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index b48cbb8..78711e1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15185,6 +15185,9 @@ namespace strtk
          if (0 == t_)
             return false;
 
+         if (end == itr)
+            return false;
+
          typedef typename strtk::details::real_type<T>::type real_t;
 
          bool negative = ('-' == (*itr));
@@ -15216,7 +15219,7 @@ namespace strtk
                return false;
          }
 
-         ++itr;
+         if (end != itr) ++itr;
 
          length = std::min<std::size_t>(frac_size_,std::distance(itr,end));
          end_n  = itr + length;
-- 
2.43.0


From d2141c53de35412c5e73dad4f3454814a5f34047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 024/112] fix: parse_n over a range calls parse and does not
 compile

---
 strtk.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 78711e1..4c577f4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -9741,7 +9741,7 @@ namespace strtk
                               Sequence<T,Allocator>& sequence,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,sequence,split_option);
+      return parse_n(range.first,range.second,delimiters,n,sequence,split_option);
    }
 
    template <typename InputIterator,
@@ -9754,7 +9754,7 @@ namespace strtk
                               std::set<T,Comparator,Allocator>& set,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,set,split_option);
+      return parse_n(range.first,range.second,delimiters,n,set,split_option);
    }
 
    template <typename InputIterator,
@@ -9767,7 +9767,7 @@ namespace strtk
                               std::multiset<T,Comparator,Allocator>& multiset,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,multiset,split_option);
+      return parse_n(range.first,range.second,delimiters,n,multiset,split_option);
    }
 
    template <typename InputIterator,
@@ -9779,7 +9779,7 @@ namespace strtk
                               std::queue<T,Container>& queue,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,queue,split_option);
+      return parse_n(range.first,range.second,delimiters,n,queue,split_option);
    }
 
    template <typename InputIterator,
@@ -9791,7 +9791,7 @@ namespace strtk
                               std::stack<T,Container>& stack,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,stack,split_option);
+      return parse_n(range.first,range.second,delimiters,n,stack,split_option);
    }
 
    template <typename InputIterator,
@@ -9804,7 +9804,7 @@ namespace strtk
                               std::priority_queue<T,Container,Comparator>& priority_queue,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,priority_queue,split_option);
+      return parse_n(range.first,range.second,delimiters,n,priority_queue,split_option);
    }
 
    template <typename T1 , typename T2 , typename T3 , typename  T4,
-- 
2.43.0


From 1627bb91ae3bedef0e14166e2dbb3d968b8d9d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 025/112] fix: read_line_as_value uses string_to_type_converter
 before its declaration and does not compile

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 4c577f4..491413b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -241,6 +241,9 @@ namespace strtk
          return 0;
    }
 
+   template <typename T>
+   inline bool string_to_type_converter(const std::string& s, T& t);
+
    template <typename T>
    inline bool read_line_as_value(std::istream& stream,
                                   T& t,
-- 
2.43.0


From 0cbb2aabf0be4b8b4e8accf10c7cacd91daadb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 026/112] fix: translation_table indexes its table out of
 bounds for characters >= 0x80

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 491413b..896fa50 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11815,13 +11815,13 @@ namespace strtk
 
          for (std::size_t i = 0; i < itable.size(); ++i)
          {
-            table_[static_cast<unsigned int>(itable[i])] = static_cast<unsigned char>(otable[i]);
+            table_[static_cast<unsigned char>(itable[i])] = static_cast<unsigned char>(otable[i]);
          }
       }
 
       inline char operator()(const char c) const
       {
-         return static_cast<char>(table_[static_cast<unsigned int>(c)]);
+         return static_cast<char>(table_[static_cast<unsigned char>(c)]);
       }
 
       inline unsigned char operator()(const unsigned char c) const
-- 
2.43.0


From e7f2d68435af67eca10b23f49918c801f6d03cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 027/112] fix: convert_base64_to_bin reads before its input
 when there are fewer than two characters

---
 strtk.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 896fa50..4b86bab 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4681,10 +4681,13 @@ namespace strtk
 
       const unsigned char* end_itr = end;
 
-      if ('=' == *(end - 2))
-         end_itr = end - 2;
-      else if ('=' == *(end - 1))
-         end_itr = end - 1;
+      if (std::distance(begin,end) >= 2)
+      {
+         if ('=' == *(end - 2))
+            end_itr = end - 2;
+         else if ('=' == *(end - 1))
+            end_itr = end - 1;
+      }
 
       const std::size_t length = std::distance(begin,end_itr);
       const std::size_t rounds = length / 4;
-- 
2.43.0


From d54b99416cd9b3397e524309c22c43cf99b0fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 028/112] fix: twoway_bitwise_interleave over strings writes
 past its output

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4b86bab..e05f040 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4953,7 +4953,7 @@ namespace strtk
          return false;
       }
 
-      out.resize(str1.size());
+      out.resize(str1.size() * 2);
 
       return twoway_bitwise_interleave(to_ptr(str1), to_ptr(str1) + str1.size(),
                                        to_ptr(str2), to_ptr(str2) + str2.size(),
-- 
2.43.0


From 59320605556fa0b970bd7e119f65542ab03ec1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 029/112] fix: hamming_distance_elementwise never advances its
 iterators

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index e05f040..28f63d3 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5200,6 +5200,9 @@ namespace strtk
       {
          if ((*itr1) != (*itr2))
             ++distance;
+
+         ++itr1;
+         ++itr2;
       }
 
       return distance;
-- 
2.43.0


From 852d5bfd20c02d3e001ecf1597579f4cd1be6504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 030/112] fix: hex_to_number_sink stores numbers shorter than
 its type in the wrong bytes and keeps a stale valid flag

---
 strtk.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 28f63d3..560ac63 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14862,7 +14862,7 @@ namespace strtk
       {}
 
       hex_to_number_sink(const hex_to_number_sink& hns)
-      : valid_(hns.valid),
+      : valid_(hns.valid_),
         t_(hns.t_)
       {}
 
@@ -14880,22 +14880,23 @@ namespace strtk
          const std::size_t size = std::distance(s.first,s.second);
          if ((size > 2) && ((*s.first) == '0') && (((*(s.first + 1)) == 'x') || ((*(s.first + 1)) == 'X')))
             offset = 2;
-         if ((size - offset) > (2 * sizeof(T)))
-            return (*this);
-
          const std::size_t buffer_size = 2 * sizeof(T);
-         const std::size_t buffer_offset = ((size - offset) % 2);
-         char buffer[buffer_size] = { '0' };
-         if (!range_only_contains(hex_value_check(),s.first + offset,s.first + size))
+         const std::size_t digit_count = size - offset;
+         char buffer[buffer_size];
+         if (
+              (0 == digit_count) || (digit_count > buffer_size) ||
+              !range_only_contains(hex_value_check(),s.first + offset,s.first + size)
+            )
          {
             valid_ = false;
             return (*this);
          }
 
-         std::copy(s.first + offset, s.first + size, buffer + buffer_offset);
+         std::fill_n(buffer, buffer_size - digit_count, '0');
+         std::copy(s.first + offset, s.first + size, buffer + (buffer_size - digit_count));
          (*t_) = 0;
          valid_= convert_hex_to_bin(buffer,
-                                    buffer + (size - offset) + buffer_offset,
+                                    buffer + buffer_size,
                                     reinterpret_cast<char*>(t_));
          reverse_bytes();
          return (*this);
-- 
2.43.0


From 16f1682e6555a4c750d84891c30742f921533f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 031/112] fix: base64_to_number_sink writes past its number and
 never reports a valid one

---
 strtk.hpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 560ac63..5766e6b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14965,7 +14965,7 @@ namespace strtk
       {}
 
       base64_to_number_sink(const base64_to_number_sink& bns)
-      : valid_(bns.valid),
+      : valid_(bns.valid_),
         t_(bns.t_)
       {}
 
@@ -14978,33 +14978,28 @@ namespace strtk
 
       inline base64_to_number_sink& operator=(const std::string& s)
       {
-         if (!range_only_contains(base64_value_check(), to_ptr(s), to_ptr(s) + s.size()))
-         {
-            valid_ = false;
-            return (*this);
-         }
-
-         (*t_) = T(0);
-
-         convert_base64_to_bin(to_ptr(s), to_ptr(s) + s.size(), reinterpret_cast<char*>(t_));
-         reverse_bytes();
-
-         return (*this);
+         return this->operator =(std::make_pair(to_ptr(s), to_ptr(s) + s.size()));
       }
 
       template <typename InputIterator>
       inline base64_to_number_sink& operator=(const std::pair<InputIterator,InputIterator>& s)
       {
+         valid_ = false;
+
          if (!range_only_contains(base64_value_check(),s.first,s.second))
-         {
-            valid_ = false;
             return (*this);
-         }
+
+         std::string data;
+         convert_base64_to_bin(std::string(s.first,s.second),data);
+
+         if (data.empty() || (data.size() > sizeof(T)))
+            return (*this);
 
          (*t_) = T(0);
 
-         convert_base64_to_bin(s.first, s.second,reinterpret_cast<char*>(t_));
+         std::copy(data.begin(), data.end(), reinterpret_cast<char*>(t_) + (sizeof(T) - data.size()));
          reverse_bytes();
+         valid_ = true;
 
          return (*this);
       }
-- 
2.43.0


From cad31fa1061977ccdce9518f033c56037aae3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 032/112] fix: sink_type bound to a container at construction
 has an uninitialised element count

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5766e6b..7da8e08 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15380,7 +15380,8 @@ namespace strtk
                        const split_options::type& split_option = split_options::compress_delimiters)
       : delimiters_(delimiters),
         split_option_(split_option),
-        container_(&container)
+        container_(&container),
+        element_count_(std::numeric_limits<std::size_t>::max())
       {}
 
       inline sink_type& count(const std::size_t& element_count = std::numeric_limits<std::size_t>::max())
-- 
2.43.0


From daf0f96c18d49c3cadd91f089d2b584a0f3b74d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 033/112] fix: decimal_sink has no string_to_type_converter
 overload so it cannot be parsed

---
 strtk.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 7da8e08..67fd43c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17405,6 +17405,15 @@ namespace strtk
          return true;
       }
 
+      template <typename Iterator, typename DecimalSink>
+      inline bool string_to_type_converter_impl(Iterator& itr, const Iterator end, DecimalSink& t, decsink_type_tag)
+      {
+         if (!t(itr,end))
+            return false;
+         itr = end;
+         return true;
+      }
+
       #ifdef __builtin_expect
       # define strtk_likely(x)    __builtin_expect((x),1)
       # define strtk_unlikely(x)  __builtin_expect((x),0)
-- 
2.43.0


From 70a0c311acddbbbfea41f723f93db37fb072e04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 034/112] fix: copy of util::value refers to the buffer of the
 value it was copied from

---
 strtk.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 67fd43c..20b8437 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21280,6 +21280,13 @@ namespace strtk
             assign(t);
          }
 
+         inline value(const value& v)
+         : type_holder_(0)
+         {
+            std::fill_n(type_holder_buffer_, sizeof(type_holder_buffer_), static_cast<unsigned char>(0x00));
+            (*this) = v;
+         }
+
          inline bool operator!() const
          {
             return (0 == type_holder_);
@@ -21303,6 +21310,8 @@ namespace strtk
                             type_holder_buffer_);
                   type_holder_ = reinterpret_cast<type_holder_base*>(type_holder_buffer_);
                }
+               else
+                  type_holder_ = 0;
             }
             return *this;
          }
-- 
2.43.0


From 6c5b52f77da3f1eb6aff4a83a34909735432305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 035/112] fix: copy of a semantic action refers to the buffer
 of the action it was copied from

---
 strtk.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 20b8437..834f3df 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21053,6 +21053,19 @@ namespace strtk
             std::fill_n(function_holder_buffer_, sizeof(function_holder_buffer_), static_cast<unsigned char>(0x00));
          }
 
+         semantic_action_impl(const semantic_action_impl& sa)
+         : function_holder_(0)
+         {
+            std::copy(sa.function_holder_buffer_,
+                      sa.function_holder_buffer_ + function_holder_buffer_size,
+                      function_holder_buffer_);
+
+            if (0 != sa.function_holder_)
+            {
+               function_holder_ = reinterpret_cast<function_holder_ptr>(function_holder_buffer_);
+            }
+         }
+
          template <typename Function>
          inline explicit semantic_action_impl(const Function& f)
          {
-- 
2.43.0


From c52ea8e7ecd24c0a49f3d56981ac9d87378c5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 036/112] fix: column_selector with mixed types or with 11 or
 12 columns does not compile

---
 strtk.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 834f3df..c3dcf53 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22245,7 +22245,7 @@ namespace strtk
          typedef column_list_impl<10> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3, T4& t4,
+                              T0& t0, T1& t1, T2& t2, T3& t3, T4& t4,
                               T5& t5, T6& t6, T7& t7, T8& t8, T9& t9)
          : csb_t(column_list)
          {
@@ -22268,7 +22268,7 @@ namespace strtk
          typedef column_list_impl<9> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3, T4& t4,
+                              T0& t0, T1& t1, T2& t2, T3& t3, T4& t4,
                               T5& t5, T6& t6, T7& t7, T8& t8)
          : csb_t(column_list)
          {
@@ -22291,7 +22291,7 @@ namespace strtk
          typedef column_list_impl<8> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3,
+                              T0& t0, T1& t1, T2& t2, T3& t3,
                               T4& t4, T5& t5, T6& t6, T7& t7)
          : csb_t(column_list)
          {
@@ -22313,7 +22313,7 @@ namespace strtk
          typedef column_list_impl<7> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3,
+                              T0& t0, T1& t1, T2& t2, T3& t3,
                               T4& t4, T5& t5, T6& t6)
          : csb_t(column_list)
          {
@@ -22335,7 +22335,7 @@ namespace strtk
          typedef column_list_impl<6> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2,
+                              T0& t0, T1& t1, T2& t2,
                               T3& t3, T4& t4, T5& t5)
          : csb_t(column_list)
          {
@@ -22356,7 +22356,7 @@ namespace strtk
          typedef column_list_impl<5> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2,
+                              T0& t0, T1& t1, T2& t2,
                               T3& t3, T4& t4)
          : csb_t(column_list)
          {
@@ -22376,7 +22376,7 @@ namespace strtk
          typedef column_list_impl<4> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3)
+                              T0& t0, T1& t1, T2& t2, T3& t3)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22394,7 +22394,7 @@ namespace strtk
          typedef column_list_impl<3> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2)
+                              T0& t0, T1& t1, T2& t2)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22412,7 +22412,7 @@ namespace strtk
          typedef column_list_impl<2> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1)
+                              T0& t0, T1& t1)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22661,8 +22661,8 @@ namespace strtk
    template <typename T0, typename T1, typename  T2, typename T3,
              typename T4, typename T5, typename  T6, typename T7,
              typename T8, typename T9, typename T10, typename T11>
-   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9>
-      column_selector(const details::column_list_impl<11>& col_list,
+   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11>
+      column_selector(const details::column_list_impl<12>& col_list,
                       T0& t0, T1& t1, T2& t2, T3& t3,  T4&  t4,  T5& t5,
                       T6& t6, T7& t7, T8& t8, T9& t9, T10& t10, T11& t11)
    {
@@ -22675,7 +22675,7 @@ namespace strtk
    template <typename T0, typename T1, typename T2, typename T3,
              typename T4, typename T5, typename T6, typename T7,
              typename T8, typename T9, typename T10>
-   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9>
+   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10>
       column_selector(const details::column_list_impl<11>& col_list,
                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4, T5& t5,
                       T6& t6, T7& t7, T8& t8, T9& t9, T10& t10)
-- 
2.43.0


From fd2e71caef8b83b1a5c00fb2a35ccb73fa01b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 037/112] fix: column_selector outlives the column list it
 refers to and loses its position in *out++

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c3dcf53..b3243f7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22090,7 +22090,7 @@ namespace strtk
             return (*this);
          }
 
-         inline csb_t operator++(int)
+         inline csb_t& operator++(int)
          {
             return (*this);
          }
@@ -22170,7 +22170,7 @@ namespace strtk
             return cvl_;
          }
 
-         const column_list_t& column_list_;
+         const column_list_t column_list_;
          std::size_t current_index_;
          std::size_t target_index_;
          std::size_t col_list_index_;
-- 
2.43.0


From 7115218e62330f4d3fbdf4300e75fd1934336f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 038/112] fix: delete_if over a set or multiset of pointers
 does not compile

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b3243f7..31131cf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21662,7 +21662,7 @@ namespace strtk
          {
             if (p(*itr))
             {
-               delete (*itr).second;
+               delete (*itr);
                itr = cont.erase(itr);
             }
             else
@@ -21683,7 +21683,7 @@ namespace strtk
          {
             if (p(*itr))
             {
-               delete (*itr).second;
+               delete (*itr);
                itr = cont.erase(itr);
             }
             else
-- 
2.43.0


From 2bfa145738f4580971d4b94320ad80cf15a6dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 039/112] fix: default constructed attribute compares its first
 value with an indeterminate one

---
 strtk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 31131cf..c3e6f2b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20888,7 +20888,9 @@ namespace strtk
       public:
 
          attribute()
-         : initialised_(false)
+         : t_(),
+           prev_t_(),
+           initialised_(false)
          {}
 
          attribute(const T& t)
-- 
2.43.0


From c28dae3b628f3444be60ba334e29ccfb7dfb5b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 040/112] fix: empty and too large numeric keys of key-value
 pairs alias other keys

---
 strtk.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c3e6f2b..b44ec73 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24250,8 +24250,11 @@ namespace strtk
          template <typename Range>
          inline bool operator()(const Range& key_range, const Range& value_range)
          {
+            const std::size_t key_length = distance(key_range);
+            if ((0 == key_length) || (key_length > std::size_t(std::numeric_limits<std::size_t>::digits10)))
+               return false;
             std::size_t key = 0;
-            if (!fast::numeric_convert(distance(key_range),key_range.first,key,true))
+            if (!fast::numeric_convert(key_length,key_range.first,key,true))
                return false;
             if (key >= value_lut_.size())
                return false;
@@ -24308,9 +24311,15 @@ namespace strtk
          {
             static inline unsigned int transform(const Range& key_range)
             {
-               unsigned int result = 0;
-               if (strtk::fast::numeric_convert(std::distance(key_range.first,key_range.second),key_range.first,result,true))
-                  return result;
+               const std::size_t key_length = std::distance(key_range.first,key_range.second);
+               unsigned long long int result = 0;
+               if (
+                    (0 != key_length) &&
+                    (key_length <= std::size_t(std::numeric_limits<unsigned long long int>::digits10)) &&
+                    strtk::fast::numeric_convert(key_length,key_range.first,result,true) &&
+                    (result <= std::numeric_limits<unsigned int>::max())
+                  )
+                  return static_cast<unsigned int>(result);
                else
                   return std::numeric_limits<unsigned int>::max();
             }
-- 
2.43.0


From 6009e9789bd45c8d600075260377d2fc6c17ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 041/112] fix: lexicographically_canonicalize ignores the
 wrap-around of the rotations it compares

---
 strtk.hpp | 55 ++++++++++++-------------------------------------------
 1 file changed, 12 insertions(+), 43 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b44ec73..a7af4f6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4266,60 +4266,29 @@ namespace strtk
    template <typename Iterator>
    inline void lexicographically_canonicalize(Iterator begin, Iterator end)
    {
-      typedef typename std::iterator_traits<Iterator>::value_type type;
-      typedef typename std::pair<Iterator,Iterator> iter_type;
-      typedef typename std::list<iter_type> itr_list_type;
-      itr_list_type itr_list;
-
-      type smallest = (*std::min_element(begin,end));
+      Iterator least = begin;
 
       for (Iterator itr = begin; itr != end; ++itr)
       {
-         if (*itr == smallest) itr_list.push_back(std::make_pair(itr,itr));
-      }
-
-      while (itr_list.size() > 1)
-      {
-         typename itr_list_type::iterator itr = itr_list.begin();
-         while (itr_list.end() != itr)
-         {
-            ++(*itr).first;
-            if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
-         }
-
-         smallest = *(*itr_list.begin()).first;
+         Iterator itr0 = itr;
+         Iterator itr1 = least;
 
-         for (itr = (++itr_list.begin()); itr != itr_list.end(); ++itr)
+         for (Iterator i = begin; i != end; ++i)
          {
-            if (*(*itr).first < smallest)
+            if ((*itr0) < (*itr1))
             {
-               smallest = *(*itr).first;
+               least = itr;
+               break;
             }
-         }
-
-         itr = itr_list.begin();
-         while (itr_list.end() != itr)
-         {
-           if (*(*itr).first != smallest)
-              itr = itr_list.erase(itr);
-           else
-              ++itr;
-         }
+            else if ((*itr1) < (*itr0))
+               break;
 
-         itr = itr_list.begin();
-         while (itr_list.end() != itr)
-         {
-            if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
+            if (end == ++itr0) itr0 = begin;
+            if (end == ++itr1) itr1 = begin;
          }
       }
 
-      std::rotate(begin,(*itr_list.begin()).second,end);
+      std::rotate(begin,least,end);
    }
 
    inline void lexicographically_canonicalize(std::string& str)
-- 
2.43.0


From be34cc5266fb58e7469b9c995338a753ce935c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 042/112] fix: first_non_repeated_char reads outside its table
 for characters above 127

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index a7af4f6..2f69f9a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4320,7 +4320,7 @@ namespace strtk
 
       while (end != itr)
       {
-         unsigned long long int& element = lut[static_cast<unsigned int>(*itr)];
+         unsigned long long int& element = lut[static_cast<unsigned char>(*itr)];
 
          if (not_yet_encountered == element)
          {
-- 
2.43.0


From 6414778567d33eb22965fb7f47c84ead9e429db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 043/112] fix: set_array reads past the end of a shorter source
 array

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2f69f9a..8d6013d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -23977,7 +23977,7 @@ namespace strtk
    {
       if (N < M)
          return false;
-      std::copy(src,src + N, &dest[0]);
+      std::copy(src,src + M, &dest[0]);
       if ((M < N) && pad)
          std::fill_n(&dest[M],N - M,padding);
       return true;
-- 
2.43.0


From 3ca630382767ce1597c38f941552afe3e3a70186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 044/112] fix: range::type over a pointer pair or an array does
 not compile

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8d6013d..82da092 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -980,15 +980,15 @@ namespace strtk
       typedef adapter<const unsigned char> ustring;
 
       template <typename T>
-      inline adapter<T> type(const T* begin, const T* end)
+      inline adapter<const T> type(const T* begin, const T* end)
       {
-         return adapter<T>(begin,end);
+         return adapter<const T>(begin,end);
       }
 
       template <typename T, std::size_t N>
-      inline adapter<T> type(const T (&t)[N])
+      inline adapter<const T> type(const T (&t)[N])
       {
-         return adapter<T>(t,N);
+         return adapter<const T>(t,N);
       }
 
       static inline adapter<const char> type(const std::string& s)
-- 
2.43.0


From d3da8b8dca3e363c9a24d07ddfc57c405881cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 045/112] fix: range_to_ptr_type loses its position in *out++
 and does not compile as a call-back

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 82da092..5bd6339 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3096,9 +3096,9 @@ namespace strtk
       }
 
       template <typename Iterator>
-      inline void operator()(const std::pair<Iterator,Iterator>& r) const
+      inline void operator()(const std::pair<Iterator,Iterator>& r)
       {
-         value_type t;
+         value_type t = value_type();
          if (string_to_type_converter(r.first,r.second,t))
          {
             (*pointer_) = t;
@@ -3125,7 +3125,7 @@ namespace strtk
          return (*this);
       }
 
-      inline range_to_ptr_type_iterator operator++(int)
+      inline range_to_ptr_type_iterator& operator++(int)
       {
          return (*this);
       }
-- 
2.43.0


From 28b878f7ee49cfeeb63b8f064217cd6609bd67a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 046/112] fix: filter_on_wildcard_match lets through what it
 should hold back

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5bd6339..5d5761e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7670,7 +7670,7 @@ namespace strtk
       template <typename Iterator>
       inline void operator() (const std::pair<Iterator,Iterator>& range) const
       {
-         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') ^ allow_through_on_match_)
+         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') == allow_through_on_match_)
          {
             predicate_(range);
          }
@@ -7678,7 +7678,7 @@ namespace strtk
 
       inline void operator() (const std::string& s) const
       {
-         if (match(match_pattern_,s) ^ allow_through_on_match_)
+         if (match(match_pattern_,s) == allow_through_on_match_)
          {
             predicate_(s);
          }
-- 
2.43.0


From d120b085bdb6acd1ff7fa20cfa8caecbf1c8b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 047/112] fix: filter_on_match compares past the end of short
 tokens and lets matches through

---
 strtk.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5d5761e..b2c2c7f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7718,7 +7718,7 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch(to_ptr((*itr)), to_ptr((*itr)) + (*itr).size(), range.first,range.second))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(), (*itr).end(), range.first))
+                 (!case_insensitive_ && ((*itr).size() == static_cast<std::size_t>(std::distance(range.first,range.second))) && std::equal((*itr).begin(), (*itr).end(), range.first))
                )
             {
                if (allow_through_on_match_)
@@ -7743,14 +7743,15 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch((*itr).begin(),(*itr).end(),s.begin(),s.end()))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(),(*itr).end(),s.begin()))
+                 (!case_insensitive_ && ((*itr) == s))
                )
             {
                if (allow_through_on_match_)
                {
                   predicate_(s);
-                  return;
                }
+
+               return;
             }
          }
 
-- 
2.43.0


From 22e8454f9c6fca36afbba15b492415ed4a838ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 048/112] fix: string_condition begins_with and ends_with
 require the whole string

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b2c2c7f..e46475d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19562,7 +19562,7 @@ namespace strtk
 
       inline bool condition_begins_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::begins_with(s_begin, s_end, begin, end);
          }
@@ -19572,7 +19572,7 @@ namespace strtk
 
       inline bool condition_ends_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::ends_with(s_begin, s_end, begin, end);
          }
-- 
2.43.0


From 9bdc2c328e97e734cfaee44e17ff4a8dd6009deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 049/112] fix: copy of a string_condition refers to the
 original's string

---
 strtk.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index e46475d..104ba9e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19641,6 +19641,28 @@ namespace strtk
          }
       }
 
+      string_condition(const string_condition& sc)
+      : cond_type_(sc.cond_type_),
+        s(sc.s),
+        s_begin(reinterpret_cast<const unsigned char*>(to_ptr(s))),
+        s_end  (reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size())),
+        condition_method_(sc.condition_method_)
+      {}
+
+      inline string_condition& operator=(const string_condition& sc)
+      {
+         if (this != &sc)
+         {
+            cond_type_ = sc.cond_type_;
+            s          = sc.s;
+            s_begin    = reinterpret_cast<const unsigned char*>(to_ptr(s));
+            s_end      = reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size());
+            condition_method_ = sc.condition_method_;
+         }
+
+         return (*this);
+      }
+
       template <typename Iterator>
       inline bool operator()(const Iterator begin, const Iterator end)
       {
-- 
2.43.0


From 18df5c254f00c2bed537017295075f65abe6cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 050/112] fix: token_grid trim_dquotes reads before empty
 tokens and inverts a single quote

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index 104ba9e..802ce1a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7500,6 +7500,7 @@ namespace strtk
                for (std::size_t i = 0; i < dsv_index_.token_list.size(); ++i)
                {
                   if (
+                      (std::distance(dsv_index_.token_list[i].first,dsv_index_.token_list[i].second) > 1) &&
                       ((*(dsv_index_.token_list[i].first     )) == '"') &&
                       ((*(dsv_index_.token_list[i].second - 1)) == '"')
                      )
-- 
2.43.0


From f4fb052c1524778acbde714730405df1b81a49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 051/112] fix: token_grid carries an unbalanced quote over into
 the following rows

---
 strtk.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 802ce1a..b5915c5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5434,6 +5434,8 @@ namespace strtk
 
             row_start_index_ = static_cast<index_t>(idx_.token_list.size());
 
+            reset_predicate(token_predicate_);
+
             std::size_t token_count = split(token_predicate_,
                                             range.first, range.second,
                                             std::back_inserter(idx_.token_list),
@@ -7463,6 +7465,14 @@ namespace strtk
          mutable strtk::multiple_char_delimiter_predicate mdp_;
       };
 
+      static inline void reset_predicate(multiple_char_delimiter_predicate&)
+      {}
+
+      static inline void reset_predicate(double_quotes_predicate& predicate)
+      {
+         predicate.reset();
+      }
+
       inline bool load()
       {
          if (load_from_file_ && !load_buffer_from_file())
-- 
2.43.0


From 763b39e7a1a9ca00c03a6085d1a46977df410700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 052/112] fix: token_grid keeps rows of a freed buffer when
 loading a file fails

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b5915c5..6248cfc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7475,12 +7475,12 @@ namespace strtk
 
       inline bool load()
       {
-         if (load_from_file_ && !load_buffer_from_file())
-            return false;
-
          dsv_index_.token_list.clear();
          dsv_index_.row_index.clear();
 
+         if (load_from_file_ && !load_buffer_from_file())
+            return false;
+
          multiple_char_delimiter_predicate text_newline_predicate(options_.row_delimiters);
 
          if (!options_.support_dquotes)
-- 
2.43.0


From 93bf31a6181637616899e687370d0426b5203f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 053/112] fix: token_grid::range takes the number of tokens for
 the number of rows

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 6248cfc..b6e5844 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5465,9 +5465,9 @@ namespace strtk
       {
          if (upper_bound == std::numeric_limits<index_t>::max())
          {
-            upper_bound = static_cast<index_t>(dsv_index_.token_list.size());
+            upper_bound = static_cast<index_t>(dsv_index_.row_index.size());
          }
-         else if (upper_bound > dsv_index_.token_list.size())
+         else if (upper_bound > dsv_index_.row_index.size())
          {
             return row_range_t(std::numeric_limits<index_t>::max(),std::numeric_limits<index_t>::max());
          }
-- 
2.43.0


From 2f8331ba21126e451f8ac526964746e3fc552856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 054/112] fix: token_grid::extract_column does not advance its
 output iterator

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b6e5844..99aa482 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7549,7 +7549,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token(const range_t& range, OutputIterator out) const
+      inline void process_token(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
          (*out) = string_to_type_converter<output_type>(range.first,range.second);
@@ -7557,7 +7557,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token_checked(const range_t& range, OutputIterator out) const
+      inline void process_token_checked(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
 
-- 
2.43.0


From c7bb2241877a4279060a88ee28d01bff4b890d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 055/112] fix: token_grid column counts are stale after rows
 were removed

---
 strtk.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 99aa482..069f906 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6717,6 +6717,7 @@ namespace strtk
          if (index < dsv_index_.row_index.size())
          {
             dsv_index_.remove_row(index);
+            update_minmax_columns();
          }
       }
 
@@ -6771,6 +6772,11 @@ namespace strtk
             remove_inplace(index_remover(remove_token_list),dsv_index_.token_list);
          }
 
+         if (!remove_row_list.empty())
+         {
+            update_minmax_columns();
+         }
+
          return true;
       }
 
-- 
2.43.0


From f4abbef87f6c7eb15ebb21f43c5ec2345bb30736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 056/112] fix: token_grid::enforce_column_count ignores its row
 range

---
 strtk.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 069f906..3c30597 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6861,10 +6861,7 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_columns(column_count));
-
-         min_column_count_ = column_count;
-         max_column_count_ = column_count;
+         remove_row_if(row_range,insufficient_number_of_columns(column_count));
       }
 
       inline void enforce_column_count(const std::size_t& column_count)
@@ -6879,10 +6876,7 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_minmax_columns(min_column_count,max_column_count));
-
-         min_column_count_ = min_column_count;
-         max_column_count_ = max_column_count;
+         remove_row_if(row_range,insufficient_number_of_minmax_columns(min_column_count,max_column_count));
       }
 
       inline void enforce_min_max_column_count(const std::size_t& min_column_count,
-- 
2.43.0


From 2b7fe649774d429b3318c0243675a2360390b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 057/112] fix: token_grid::join_row drops the last token of the
 last row and ends in a delimiter before skipped tokens

---
 strtk.hpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3c30597..5b66109 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7076,21 +7076,19 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = dsv_index_.token_list.begin() + r.first;
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
          while (end != itr)
          {
-            if (!delimiter.empty() && appended)
-               result.append(delimiter);
-
-            appended = false;
-
             if ((*itr).first != (*itr).second)
             {
+               if (!delimiter.empty() && appended)
+                  result.append(delimiter);
+
                result.append((*itr).first,(*itr).second);
                appended = true;
             }
@@ -7113,23 +7111,21 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = (dsv_index_.token_list.begin() + r.first);
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
          while (end != itr)
          {
-            if (!delimiter.empty() && appended)
-               result.append(delimiter);
-
-            appended = false;
-
             if ((*itr).first != (*itr).second)
             {
                if (predicate(*itr))
                {
+                  if (!delimiter.empty() && appended)
+                     result.append(delimiter);
+
                   result.append((*itr).first,(*itr).second);
                   appended = true;
                }
-- 
2.43.0


From 4fe40251575dc5b57b3facf2020dde9b3809e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 058/112] fix: token_grid::join_column loses the delimiter
 before the last row and ends in one before skipped tokens

---
 strtk.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5b66109..a858fa0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7168,13 +7168,11 @@ namespace strtk
 
                const range_t& range = row.token(col);
 
-               if (!delimiter.empty() && appended)
-                  result.append(delimiter);
-
-               appended = false;
-
                if (range.first != range.second)
                {
+                  if (!delimiter.empty() && appended)
+                     result.append(delimiter);
+
                   result.append(range.first,range.second);
                   appended = true;
                }
@@ -7205,8 +7203,6 @@ namespace strtk
 
          bool appended = false;
 
-         const std::size_t pre_end_index = row_range.second - 1;
-
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
             const row_index_range_t& r = dsv_index_.row_index[i];
@@ -7216,15 +7212,13 @@ namespace strtk
                row_type row = row_type(i,dsv_index_);
                const range_t& range = row.token(col);
 
-               if (!delimiter.empty() && appended && (pre_end_index != i))
-                  result.append(delimiter);
-
-               appended = false;
-
                if (range.first != range.second)
                {
                   if (predicate(row))
                   {
+                     if (!delimiter.empty() && appended)
+                        result.append(delimiter);
+
                      result.append(range.first,range.second);
                      appended = true;
                   }
-- 
2.43.0


From b4b7d67c4e214cad43be7afe09830b575aa9110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 059/112] fix: token_grid::sequential_partition merges groups
 of a single row into the next group

---
 strtk.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a858fa0..0e110e4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7250,19 +7250,14 @@ namespace strtk
 
          for (row_range_t::first_type i = row_range.first; i < row_range.second; ++i)
          {
-            if (p(row_type(i,dsv_index_)))
+            if (p(row_type(i,dsv_index_)) && (r.first != i))
             {
-               if (r.first != r.second)
-               {
-                  r.second = i;
-                  if (!f(*this,r))
-                     return false;
-               }
+               r.second = i;
+               if (!f(*this,r))
+                  return false;
 
-               r.first = r.second;
+               r.first = i;
             }
-            else
-               r.second = i;
          }
 
          if (r.first != row_range.second)
-- 
2.43.0


From 8cf87e199cb1a77951552d47be4849303af0e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 060/112] fix: token_grid::accumulate_column counts rows that
 lack the column

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0e110e4..9658804 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7001,12 +7001,13 @@ namespace strtk
                const range_t& range = *(dsv_index_.token_list.begin() + r.first + col);
 
                if (string_to_type_converter(range.first,range.second,current_value))
+               {
                   result += current_value;
+                  ++process_count;
+               }
                else
                   return 0;
             }
-
-            ++process_count;
          }
 
          return process_count;
-- 
2.43.0


From d79d92dbf1257b0d51a5b4eae296097c75120df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 061/112] fix: byte order conversion of 32-bit values loses two
 of the four bytes

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9658804..32dac71 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13740,8 +13740,8 @@ namespace strtk
          static inline unsigned int convert(const unsigned int v)
          {
             //static_assert(4 == sizeof(v),"");
-            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0x0000FF00) |
-                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0xFF000000);
+            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0xFF000000) |
+                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0x0000FF00);
          }
 
          static inline unsigned long long int convert(const unsigned long long int v)
-- 
2.43.0


From 6c86dc7c1918a74208efc56fba4ebd3e4146b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 062/112] fix: binary reader with a 64-bit length ignores the
 length it is given

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 32dac71..be42832 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13969,7 +13969,7 @@ namespace strtk
          inline bool operator()(T*& data, uint64_t& length, const bool read_length = true)
          {
             uint32_t l = 0;
-            if (read_length)
+            if (!read_length)
                l = static_cast<uint32_t>(length);
             if (!operator()(data,l,read_length))
                return false;
-- 
2.43.0


From d2ba5ef205959ddb55c896f86eb1f10091713869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 063/112] fix: right padded binary write truncates the value
 instead of padding it

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index be42832..a4b5dfb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14578,7 +14578,7 @@ namespace strtk
                else if (s.size() < size)
                {
                   if (right_padding == pmode)
-                     s.resize(size - s.size(),padding);
+                     s.resize(size,padding);
                   else
                      s = std::string(size - s.size(),padding) + s;
                }
-- 
2.43.0


From acc28bf38907ee7c628d3a399f1c1bf83535f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 064/112] fix: array length written with a width the binary
 reader does not read

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index a4b5dfb..9878648 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14362,7 +14362,7 @@ namespace strtk
          template <typename T, std::size_t N>
          inline bool operator()(const T (&data)[N], const bool write_length = false)
          {
-            if (write_length && !operator()(N))
+            if (write_length && !operator()(static_cast<uint32_t>(N)))
                return false;
 
             const std::size_t raw_size = N * sizeof(T);
-- 
2.43.0


From c7fbe11cfd31178f5b7e9e7881a4e15fca2b9113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 065/112] fix: binary reader and writer refuse containers of
 non-POD elements that fit

---
 strtk.hpp | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9878648..b9fc119 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14017,8 +14017,7 @@ namespace strtk
             if (!read_pod(size))                           \
                return false;                               \
                                                            \
-            const std::size_t raw_size = size * sizeof(T); \
-            if (!buffer_capacity_ok(raw_size))             \
+            if (!sequence_capacity_ok<T>(size))            \
                return false;                               \
                                                            \
             T t = T();                                     \
@@ -14046,9 +14045,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-
-            if (!buffer_capacity_ok(raw_size))
+            if (!sequence_capacity_ok<T>(size))
                return false;
 
             vec.resize(size);
@@ -14065,8 +14062,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
+            if (!sequence_capacity_ok<T>(size))
                return false;
 
             T t;
@@ -14089,8 +14085,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
+            if (!sequence_capacity_ok<T>(size))
                return false;
 
             T t;
@@ -14213,6 +14208,14 @@ namespace strtk
             return ((required_read_qty + amount_read_sofar_) <= buffer_length_);
          }
 
+         template <typename T>
+         inline bool sequence_capacity_ok(const std::size_t& size)
+         {
+            // Only the elements of a POD type have a size that is known beforehand,
+            // any other element occupies at least one byte.
+            return buffer_capacity_ok(strtk::details::is_pod<T>::result ? size * sizeof(T) : size);
+         }
+
          template <typename Type>
          struct selector
          {
@@ -14461,7 +14464,7 @@ namespace strtk
          {
             const uint32_t size = static_cast<uint32_t>(vec.size());
             const std::size_t raw_size = (size * sizeof(T));
-            if (!buffer_capacity_ok(raw_size + sizeof(size)))
+            if (strtk::details::is_pod<T>::result && !buffer_capacity_ok(raw_size + sizeof(size)))
                return false;
             if (!operator()(size))
                return false;
@@ -14477,9 +14480,7 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-
-            if (!buffer_capacity_ok(raw_size))
+            if (!sequence_capacity_ok<T>(size))
                return false;
 
             typename std::set<T,Comparator,Allocator>::const_iterator itr = set.begin();
@@ -14504,8 +14505,7 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
+            if (!sequence_capacity_ok<T>(size))
                return false;
 
             typename std::multiset<T,Allocator,Comparator>::const_iterator itr = multiset.begin();
@@ -14610,6 +14610,14 @@ namespace strtk
             return ((required_write_qty + amount_written_sofar_) <= buffer_length_);
          }
 
+         template <typename T>
+         inline bool sequence_capacity_ok(const std::size_t& size)
+         {
+            // Only the elements of a POD type have a size that is known beforehand,
+            // any other element occupies at least one byte.
+            return buffer_capacity_ok(strtk::details::is_pod<T>::result ? size * sizeof(T) : size);
+         }
+
          template <typename Type>
          struct selector
          {
-- 
2.43.0


From c471a15864fc2ee2e3211e606f196b23c49e36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 066/112] fix: binary reader accumulates the elements of nested
 containers

---
 strtk.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b9fc119..82768d5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14020,10 +14020,10 @@ namespace strtk
             if (!sequence_capacity_ok<T>(size))            \
                return false;                               \
                                                            \
-            T t = T();                                     \
-                                                           \
             for (std::size_t i = 0; i < size; ++i)         \
             {                                              \
+               T t = T();                                  \
+                                                           \
                if (operator()(t))                          \
                   seq.push_back(t);                        \
                else                                        \
@@ -14065,9 +14065,10 @@ namespace strtk
             if (!sequence_capacity_ok<T>(size))
                return false;
 
-            T t;
             for (std::size_t i = 0; i < size; ++i)
             {
+               T t = T();
+
                if (!operator()(t))
                   return false;
                set.insert(t);
@@ -14088,9 +14089,10 @@ namespace strtk
             if (!sequence_capacity_ok<T>(size))
                return false;
 
-            T t;
             for (std::size_t i = 0; i < size; ++i)
             {
+               T t = T();
+
                if (!operator()(t))
                   return false;
                multiset.insert(t);
@@ -14237,10 +14239,10 @@ namespace strtk
                                                     std::vector<T,Allocator>& v,
                                                     const bool)
                {
-                  T t;
-
                   for (std::size_t i = 0; i < size; ++i)
                   {
+                     T t = T();
+
                      if (r.operator()(t))
                         v[i] = t;
                      else
-- 
2.43.0


From e5af452fd6bfee663d8be45b7d600622087316e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 067/112] fix: n_choose_k of 0 choose 0 is 1

---
 strtk.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 82768d5..7015c27 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12447,7 +12447,6 @@ namespace strtk
    inline unsigned long long int n_choose_k(const unsigned long long int& n, const unsigned long long int& k)
    {
       if (n  < k) return 0;
-      if (0 == n) return 0;
       if (0 == k) return 1;
       if (n == k) return 1;
       if (1 == k) return n;
-- 
2.43.0


From ad8de1cefd73cda5d2e90f041a8946359a700a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 068/112] fix: nth_combination_sequence accesses elements
 before the list for k of 0 and 1

---
 strtk.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7015c27..5e7bbd6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12555,6 +12555,18 @@ namespace strtk
       typedef unsigned long long int value_type;
 
       std::vector<std::size_t> index_list(k,0);
+
+      if (0 == k)
+      {
+         for (std::size_t i = 0; complete_index && (i < r); ++i)
+         {
+            (*out) = i;
+            ++out;
+         }
+
+         return;
+      }
+
       value_type j = 0;
       value_type x = 0;
       ++n;
@@ -12579,7 +12591,7 @@ namespace strtk
          x -= j;
       }
 
-      index_list[k - 1] = index_list[k - 2] + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
+      index_list[k - 1] = ((k > 1) ? index_list[k - 2] : 0) + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
 
       for (std::size_t i = 0; i < index_list.size(); --index_list[i++]);
 
-- 
2.43.0


From 7ed3fdcf6fa4f04a95e650b813d5f9ed33bd95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 069/112] fix: nth_combination_sequence overwrites the
 combination when completing the index

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5e7bbd6..9999e28 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12595,7 +12595,7 @@ namespace strtk
 
       for (std::size_t i = 0; i < index_list.size(); --index_list[i++]);
 
-      std::copy(index_list.begin(),index_list.end(),out);
+      out = std::copy(index_list.begin(),index_list.end(),out);
 
       if (complete_index)
       {
-- 
2.43.0


From fc45e33f0afd4031f439d9b6ee8454cb6034d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 070/112] fix: nth_permutation_sequence of an empty sequence
 writes out of bounds

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 9999e28..7e86766 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12639,6 +12639,9 @@ namespace strtk
    inline void nth_permutation_sequence(std::size_t n, const std::size_t k, OutputIterator out)
    {
       //Note: n in [0,k!)
+      if (0 == k)
+         return;
+
       std::vector<std::size_t> factorid (k,0);
       std::vector<std::size_t> permutate(k,0);
 
-- 
2.43.0


From c9fffd7bf763e87d584740ace6974c63406ffc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 071/112] fix: generate_random_data writes before a buffer of
 less than four bytes

---
 strtk.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7e86766..a955ce3 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11847,9 +11847,8 @@ namespace strtk
 
       if (length > 0)
       {
-         itr -= (sizeof(unsigned int) - length);
-         x = reinterpret_cast<unsigned int*>(itr);
-         (*x) = rnd();
+         const unsigned int y = rnd();
+         std::memcpy(itr,&y,length);
       }
    }
 
-- 
2.43.0


From e77f2158f95a27306eb6d66b0eafb1f3dc2122ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 072/112] fix: prefix trie stores the value of a key on the
 node before its last element

---
 strtk.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a955ce3..a2a7773 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19835,7 +19835,6 @@ namespace strtk
 
             key_iterator_t itr = begin;
             key_value_t key    = (*itr);
-            node_ptr parent    = 0;
             node_ptr next_node = 0;
             node_ptr n = head_ = ((0 == head_) ? new node_t(*itr) : head_);
 
@@ -19848,12 +19847,11 @@ namespace strtk
                   n->add_node(next_node = new node_t(key));
                }
 
-               parent = n;
                n = next_node;
                ++itr;
             }
 
-            parent->assign_value(v);
+            n->assign_value(v);
          }
 
          template <typename key_iterator_t>
@@ -19865,7 +19863,6 @@ namespace strtk
                return false;
 
             key_iterator_t itr = begin;
-            node_ptr parent = head_;
             node_ptr n = head_;
 
             while (end != itr)
@@ -19875,13 +19872,12 @@ namespace strtk
                if (0 == next_node)
                   return false;
 
-               parent = n;
                n = next_node;
                ++itr;
             }
-            if (!parent->value_holder())
+            if (!n->value_holder())
                return false;
-             v = parent->value();
+             v = n->value();
              return true;
          }
 
-- 
2.43.0


From 8baa7e38664c1419b0ba57b9f9b2cf70611b49e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 073/112] fix: trie insert, find and find_prefix over a C
 string do not compile

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a2a7773..a964a7e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19919,11 +19919,11 @@ namespace strtk
       }
 
       template <typename Value>
-      inline void insert(prefix<std::string::iterator,Value>& trie,
+      inline void insert(prefix<std::string::const_iterator,Value>& trie,
                          const char* key,
                          const Value& value = Value(0))
       {
-         trie.insert(std::string(key),value);
+         insert(trie,std::string(key),value);
       }
 
       template <typename Value>
@@ -19939,7 +19939,7 @@ namespace strtk
                        const char* key,
                        Value& v)
       {
-         return trie.find_prefix(trie,std::string(key),v);
+         return find(trie,std::string(key),v);
       }
 
       template <typename Value>
@@ -19953,7 +19953,7 @@ namespace strtk
       inline bool find_prefix(prefix<std::string::const_iterator,Value>& trie,
                               const char* key)
       {
-         return trie.find_prefix(trie,std::string(key));
+         return find_prefix(trie,std::string(key));
       }
 
    } // namespace trie
-- 
2.43.0


From b64f3c0a9a5f419ddd331233e6f9c1085ea23b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 074/112] fix: bloom filter copy constructor deletes an
 uninitialised pointer

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index a964a7e..99e557a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20159,6 +20159,7 @@ namespace strtk
          }
 
          filter(const filter& filter)
+         : bit_table_(0)
          {
             this->operator=(filter);
          }
-- 
2.43.0


From 5b2b389aa71db1bba5644e629a1146675109918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 075/112] fix: bloom filter table too small for sizes not a
 multiple of 8 and stale after compress

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 99e557a..cfc7058 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20153,7 +20153,7 @@ namespace strtk
             salt_count_ = p.optimal_parameters.number_of_hashes;
             table_size_ = p.optimal_parameters.table_size;
             generate_unique_salt();
-            raw_table_size_ = table_size_ / bits_per_char;
+            raw_table_size_ = (table_size_ + (bits_per_char - 1)) / bits_per_char;
             bit_table_ = new cell_type[static_cast<std::size_t>(raw_table_size_)];
             std::fill_n(&bit_table_[0], static_cast<std::size_t>(raw_table_size_), static_cast<unsigned char>(0x00));
          }
@@ -20691,7 +20691,7 @@ namespace strtk
             cell_type* tmp = new cell_type[static_cast<std::size_t>(new_table_size / bits_per_char)];
             std::copy(bit_table_, bit_table_ + (new_table_size / bits_per_char), tmp);
             cell_type* itr = bit_table_ + (new_table_size / bits_per_char);
-            cell_type* end = bit_table_ + (original_table_size / bits_per_char);
+            cell_type* end = bit_table_ + raw_table_size_;
             cell_type* itr_tmp = tmp;
 
             while (end != itr)
@@ -20701,6 +20701,7 @@ namespace strtk
 
             delete[] bit_table_;
             bit_table_ = tmp;
+            raw_table_size_ = new_table_size / bits_per_char;
             size_list.push_back(new_table_size);
 
             return true;
-- 
2.43.0


From 087a1882f31729e1823ef74a322b2e2588f54a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 076/112] fix: compressing a bloom filter by more than half
 writes past the new table

---
 strtk.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index cfc7058..3efb34f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20693,9 +20693,13 @@ namespace strtk
             cell_type* itr = bit_table_ + (new_table_size / bits_per_char);
             cell_type* end = bit_table_ + raw_table_size_;
             cell_type* itr_tmp = tmp;
+            cell_type* end_tmp = tmp + (new_table_size / bits_per_char);
 
             while (end != itr)
             {
+               if (end_tmp == itr_tmp)
+                  itr_tmp = tmp;
+
                *(itr_tmp++) |= (*itr++);
             }
 
-- 
2.43.0


From 484a9e4f74ea2bbb39fdfd6a60d525f2825885e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 077/112] fix: combining bloom filters of different compressed
 sizes accesses memory out of bounds

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 3efb34f..798b0b6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20351,6 +20351,7 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
+                (raw_table_size_ == f.raw_table_size_) &&
                 (random_seed_ == f.random_seed_)
                )
             {
@@ -20368,6 +20369,7 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
+                (raw_table_size_ == f.raw_table_size_) &&
                 (random_seed_ == f.random_seed_)
                )
             {
@@ -20385,6 +20387,7 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
+                (raw_table_size_ == f.raw_table_size_) &&
                 (random_seed_ == f.random_seed_)
                )
             {
-- 
2.43.0


From 80156054c718a0de7e1052a1953696b4a1674127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 078/112] fix: bloom parameters accept probabilities for which
 no table size exists

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 798b0b6..737174a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20008,7 +20008,8 @@ namespace strtk
                    (minimum_number_of_hashes < 1)     ||
                    (0 == maximum_number_of_hashes)    ||
                    (0 == projected_element_count)     ||
-                   (false_positive_probability < 0.0) ||
+                   (false_positive_probability <= 0.0) ||
+                   (false_positive_probability > 1.0) ||
                    (std::numeric_limits<double>::infinity() == std::abs(false_positive_probability)) ||
                    (0 == random_seed)                 ||
                    (0xFFFFFFFFFFFFFFFFULL == random_seed);
-- 
2.43.0


From bed24e3e38338f8c07198b0d5a0874ec100cccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 079/112] fix: bloom parameters cannot be written with a binary
 writer

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 737174a..d7fe321 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20046,7 +20046,7 @@ namespace strtk
                    reader(random_seed);
          }
 
-         inline bool operator()(strtk::binary::writer& writer)
+         inline bool operator()(strtk::binary::writer& writer) const
          {
             return writer(minimum_size) &&
                    writer(maximum_size) &&
-- 
2.43.0


From 9929d3b2ae0b441a6cc358c0c4557f2349fcfced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 080/112] fix: bloom filter write_to_file reports success when
 the file could not be written

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index d7fe321..e3ab142 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20441,7 +20441,7 @@ namespace strtk
             }
             ostream.close();
             delete[] buffer;
-            return result;
+            return result && ostream.good();
          }
 
          inline bool read_from_file(const std::string& file_name)
-- 
2.43.0


From b0746ec938f788bf2a332212343ff2e846018eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 081/112] fix: bloom filter left inconsistent after reading a
 truncated or damaged file

---
 strtk.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index e3ab142..77f5155 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20480,10 +20480,23 @@ namespace strtk
                           reader(random_seed_)                        &&
                           reader(desired_false_positive_probability_) &&
                           reader(salt_)                               &&
-                          reader(bit_table_,raw_table_size_);
+                          reader(bit_table_,raw_table_size_)          &&
+                          (0 != table_size_)                          &&
+                          (salt_count_ == salt_.size())               &&
+                          (raw_table_size_ == (table_size_ / bits_per_char) + (0 != (table_size_ % bits_per_char)));
 
             delete[] buffer;
 
+            if (!result)
+            {
+               salt_count_     = 0;
+               table_size_     = 0;
+               raw_table_size_ = 0;
+               salt_.clear();
+               delete[] bit_table_;
+               bit_table_ = 0;
+            }
+
             return result;
          }
 
-- 
2.43.0


From fc0d7b637cdb46170bdaf7e048cfaa278253558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 082/112] fix: fileio::write_file reported success when the
 data could not be written

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 77f5155..130d9da 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18530,7 +18530,7 @@ namespace strtk
          if (!out_stream) return false;
          out_stream.write(buffer,static_cast<std::streamsize>(buffer_size));
          out_stream.close();
-         return true;
+         return !out_stream.fail();
       }
 
       inline bool write_file(const std::string& file_name, const std::string& buffer)
-- 
2.43.0


From c9cda4562ef11d4b0ac1ce19ade2a86c0c3e416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 083/112] fix: fileio::copy_file emptied the destination when
 the source was missing, and reported success for failed writes

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 130d9da..a9b9ddf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18541,8 +18541,8 @@ namespace strtk
       inline bool copy_file(const std::string& src_file_name, const std::string& dest_file_name)
       {
          std::ifstream src_file(src_file_name.c_str(),std::ios::binary);
-         std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!src_file) return false;
+         std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!dest_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
@@ -18566,7 +18566,7 @@ namespace strtk
 
          src_file.close();
          dest_file.close();
-         return true;
+         return !src_file.fail() && !dest_file.fail();
       }
 
       inline bool concatenate(const std::string& file_name1,
-- 
2.43.0


From 399b7f19518e162008e11df95059d22e4f4863f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 084/112] fix: fileio::concatenate emptied the output when an
 input was missing, and reported success for failed writes

---
 strtk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a9b9ddf..ea8cd43 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18575,9 +18575,12 @@ namespace strtk
       {
          std::ifstream file1(file_name1.c_str(),std::ios::binary);
          std::ifstream file2(file_name2.c_str(),std::ios::binary);
+
+         if (!file1 || !file2) return false;
+
          std::ofstream out_file(output_file_name.c_str(),std::ios::binary);
 
-         if (!file1 || !file2 || !out_file) return false;
+         if (!out_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
          char buffer[block_size];
@@ -18607,7 +18610,7 @@ namespace strtk
             ++round;
          }
          out_file.close();
-         return true;
+         return !file1.fail() && !file2.fail() && !out_file.fail();
       }
 
       inline bool files_identical(const std::string& file_name1, const std::string& file_name2)
-- 
2.43.0


From 6df75756c124a520567e3eabfc40e26783727747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 085/112] fix: fileio::write_pod did not compile: constness of
 the value was cast away

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index ea8cd43..e2109bc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18663,7 +18663,7 @@ namespace strtk
          template <typename T>
          inline bool write_pod_proxy(std::ofstream& stream, const T& t)
          {
-            return (false == stream.write(reinterpret_cast<char*>(&t),
+            return (false == stream.write(reinterpret_cast<const char*>(&t),
                                           static_cast<std::streamsize>(sizeof(T))).fail());
          }
       }
-- 
2.43.0


From d93e52068cd5da75fc14023008004e5900b4a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 086/112] fix: fileio::read_pod and write_pod of an array
 returned the opposite of the outcome

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e2109bc..eab28f6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18801,7 +18801,7 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool read_pod(std::ifstream& stream, T (&t)[N])
       {
-         return (false != stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
@@ -18997,7 +18997,7 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool write_pod(std::ofstream& stream, T (&t)[N])
       {
-         return (false != stream.write(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.write(reinterpret_cast<const char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
-- 
2.43.0


From 4ab8b4c857ee557f2749047616e3ccfecc9b0caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 087/112] fix: fileio::write_pod of a container did not compile
 for sequences and returned no value

---
 strtk.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index eab28f6..978152e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19006,8 +19006,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const Sequence<T,Allocator>& sequence)
       {
-         typename Sequence<T,Allocator>::iterator itr = sequence.begin();
-         typename Sequence<T,Allocator>::iterator end = sequence.end();
+         typename Sequence<T,Allocator>::const_iterator itr = sequence.begin();
+         typename Sequence<T,Allocator>::const_iterator end = sequence.end();
 
          while (end != itr)
          {
@@ -19016,6 +19016,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19024,8 +19026,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const std::set<T,Comparator,Allocator>& set)
       {
-         typename std::set<T,Comparator,Allocator>::iterator itr = set.begin();
-         typename std::set<T,Comparator,Allocator>::iterator end = set.end();
+         typename std::set<T,Comparator,Allocator>::const_iterator itr = set.begin();
+         typename std::set<T,Comparator,Allocator>::const_iterator end = set.end();
 
          while (end != itr)
          {
@@ -19034,6 +19036,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19042,8 +19046,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const std::multiset<T,Comparator,Allocator>& multiset)
       {
-         typename std::multiset<T,Comparator,Allocator>::iterator itr = multiset.begin();
-         typename std::multiset<T,Comparator,Allocator>::iterator end = multiset.end();
+         typename std::multiset<T,Comparator,Allocator>::const_iterator itr = multiset.begin();
+         typename std::multiset<T,Comparator,Allocator>::const_iterator end = multiset.end();
 
          while (end != itr)
          {
@@ -19052,6 +19056,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       inline bool read_at_offset(std::ifstream& stream,
-- 
2.43.0


From 1755ef920d39185c8bb964ab4611d15d045e6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 088/112] fix: fileio::read_pod with a count in a variable
 overwrote the container object with file bytes

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 978152e..81a2344 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18808,7 +18808,7 @@ namespace strtk
                 typename Allocator,
                 template <typename,typename> class Sequence>
       inline bool read_pod(std::ifstream& stream,
-                           const std::size_t& count,
+                           const std::size_t count,
                            Sequence<T,Allocator>& sequence)
       {
          T t;
@@ -18828,7 +18828,7 @@ namespace strtk
                 typename Comparator,
                 typename Allocator>
       inline bool read_pod(std::ifstream& stream,
-                           const std::size_t& count,
+                           const std::size_t count,
                            std::set<T,Comparator,Allocator>& set)
       {
          T t;
@@ -18848,7 +18848,7 @@ namespace strtk
                 typename Comparator,
                 typename Allocator>
       inline bool read_pod(std::ifstream& stream,
-                           const std::size_t& count,
+                           const std::size_t count,
                            std::multiset<T,Comparator,Allocator>& multiset)
       {
          T t;
-- 
2.43.0


From 5c5819583c2e8a4c19c8ee86348223782be707c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 089/112] fix: parse of an argument vector into variables skips
 the first argument and reads past the last

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 81a2344..730948a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -10130,10 +10130,10 @@ namespace strtk
       if (9 != argc) return 0;
       std::size_t result = 0;
 
-      #define strtk_cmpstmt(N)                                  \
-      if (!string_to_type_converter(std::string(argv[N]),t##N)) \
-         return result;                                         \
-      ++result;                                                 \
+      #define strtk_cmpstmt(N)                                      \
+      if (!string_to_type_converter(std::string(argv[N - 1]),t##N)) \
+         return result;                                             \
+      ++result;                                                     \
 
       strtk_cmpstmt(1)
       strtk_cmpstmt(2)
-- 
2.43.0


From 4b2817391db40b720b97a52d6cce7155ea28933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 090/112] fix: cut over a sequence does not compile: it changes
 the strings of a const sequence

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 730948a..4aa1142 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11754,9 +11754,9 @@ namespace strtk
    template <typename Allocator,
              template <typename,typename> class Sequence>
    inline void cut(const std::size_t& r0, const std::size_t& r1,
-                   const Sequence<std::string, Allocator>& sequence)
+                   Sequence<std::string, Allocator>& sequence)
    {
-      cut(r0,r1,sequence.begin(),sequence.end());
+      cut_inplace(r0,r1,sequence.begin(),sequence.end());
    }
 
    template <typename Comparator, typename Allocator>
-- 
2.43.0


From f9ffb38a0d136b14ef34e082259512fb24214e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 091/112] fix: fast::signed_all_digits_check of a fixed number
 of digits does not compile

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4aa1142..502e744 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13563,9 +13563,9 @@ namespace strtk
       inline bool signed_all_digits_check(Iterator itr)
       {
          if (('-' == (*itr)) || ('+' == (*itr)))
-            return all_digits_check<Iterator,N - 1>((itr + 1));
+            return all_digits_check<N - 1,Iterator>((itr + 1));
          else
-            return all_digits_check<Iterator,N>(itr);
+            return all_digits_check<N,Iterator>(itr);
       }
 
       template <typename Iterator>
-- 
2.43.0


From 358fe930611f3c7aebe47eba2fa9f6dd80548e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 092/112] fix: fast::signed_numeric_convert of a fixed number
 of digits does not compile

---
 strtk.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 502e744..b5c4666 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13655,18 +13655,23 @@ namespace strtk
       template <std::size_t N, typename T, typename Iterator>
       inline bool signed_numeric_convert(Iterator itr, T& t, const bool digit_check = false)
       {
-         if ('-' == (*itr))
+         if (digit_check && !signed_all_digits_check<N,Iterator>(itr))
          {
-            numeric_convert<N - 1,T,Iterator>((itr + 1),t,digit_check);
-            typename strtk::details::supported_conversion_to_type<T>::type type;
-            details::negate(t,type);
+            t = 0;
+            return false;
          }
-         else if ('+' == (*itr))
+         else if ('-' == (*itr))
          {
-            return numeric_convert<N - 1,T,Iterator>((itr + 1),t,digit_check);
+            numeric_convert<N - 1,T,Iterator>((itr + 1),t);
+            typename strtk::details::supported_conversion_to_type<T>::type type;
+            return details::negate(t,type);
          }
+         else if ('+' == (*itr))
+            numeric_convert<N - 1,T,Iterator>((itr + 1),t);
          else
-            return numeric_convert<N,T,Iterator>(itr,t,digit_check);
+            numeric_convert<N,T,Iterator>(itr,t);
+
+         return true;
       }
 
       template <typename T, typename Iterator>
-- 
2.43.0


From 6da6811e1b4ed476e85990eac8c5dede2aa43160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 093/112] fix: split of a range by a string of delimiters does
 not compile

---
 strtk.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b5c4666..abf0314 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3423,8 +3423,7 @@ namespace strtk
                    split_option);
    }
 
-   template <typename DelimiterPredicate,
-             typename Iterator,
+   template <typename Iterator,
              typename OutputIterator>
    inline std::size_t split(const char* delimiters,
                             const std::pair<Iterator,Iterator>& range,
@@ -3443,8 +3442,7 @@ namespace strtk
                       split_option);
    }
 
-   template <typename DelimiterPredicate,
-             typename Iterator,
+   template <typename Iterator,
              typename OutputIterator>
    inline std::size_t split(const std::string& delimiters,
                             const std::pair<Iterator,Iterator>& range,
-- 
2.43.0


From 7a57509ca8ceaae49c6a672f279e96f3be14bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 094/112] fix: read_pod of a container from memory does not
 compile, or with a count in a variable overwrites the container object

---
 strtk.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index abf0314..266cbf7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19302,36 +19302,36 @@ namespace strtk
              typename Allocator,
              template <typename,typename> class Sequence>
    inline unsigned char* read_pod(unsigned char* data,
-                                  const std::size_t& n,
-                                  const Sequence<T,Allocator>& sequence)
+                                  const std::size_t n,
+                                  Sequence<T,Allocator>& sequence)
    {
-      T* ptr = reinterpret_cast<T>(data);
+      T* ptr = reinterpret_cast<T*>(data);
       std::copy(ptr, ptr + n, std::back_inserter(sequence));
-      return data + (sequence.size() * sizeof(T));
+      return data + (n * sizeof(T));
    }
 
    template <typename T,
              typename Comparator,
              typename Allocator>
    inline unsigned char* read_pod(unsigned char* data,
-                                  const std::size_t& n,
-                                  const std::set<T,Comparator,Allocator>& set)
+                                  const std::size_t n,
+                                  std::set<T,Comparator,Allocator>& set)
    {
-      T* ptr = reinterpret_cast<T>(data);
+      T* ptr = reinterpret_cast<T*>(data);
       std::copy(ptr, ptr + n, std::inserter(set,set.begin()));
-      return data + (set.size() * sizeof(T));
+      return data + (n * sizeof(T));
    }
 
    template <typename T,
              typename Comparator,
              typename Allocator>
    inline unsigned char* read_pod(unsigned char* data,
-                                  const std::size_t& n,
-                                  const std::multiset<T,Comparator,Allocator>& multiset)
+                                  const std::size_t n,
+                                  std::multiset<T,Comparator,Allocator>& multiset)
    {
-      T* ptr = reinterpret_cast<T>(data);
+      T* ptr = reinterpret_cast<T*>(data);
       std::copy(ptr, ptr + n, std::inserter(multiset,multiset.begin()));
-      return data + (multiset.size() * sizeof(T));
+      return data + (n * sizeof(T));
    }
 
    template <typename T1,  typename T2, typename  T3, typename  T4,
-- 
2.43.0


From cb2246f7294c3820da2c0421983183300901bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 095/112] fix: write_pod of a container to memory does not
 compile

---
 strtk.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 266cbf7..01f70bc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19534,9 +19534,9 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const Sequence<T,Allocator>& sequence)
    {
-      ::memcpy(data, sequence.data(), sequence.size() * sizeof(T));
-      data += (sequence.size() * sizeof(T));
-      return data;
+      T* ptr = reinterpret_cast<T*>(data);
+      std::copy(sequence.begin(),sequence.end(),ptr);
+      return data + (sequence.size() * sizeof(T));
    }
 
    template <typename T,
@@ -19545,7 +19545,7 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const std::set<T,Comparator,Allocator>& set)
    {
-      T* ptr = reinterpret_cast<T>(data);
+      T* ptr = reinterpret_cast<T*>(data);
       std::copy(set.begin(),set.end(),ptr);
       return data + (set.size() * sizeof(T));
    }
@@ -19556,7 +19556,7 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const std::multiset<T,Comparator,Allocator>& multiset)
    {
-      T* ptr = reinterpret_cast<T>(data);
+      T* ptr = reinterpret_cast<T*>(data);
       std::copy(multiset.begin(),multiset.end(),ptr);
       return data + (multiset.size() * sizeof(T));
    }
-- 
2.43.0


From f85054a6b0f6e120dd7446427f85127e4df03654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 096/112] fix: split_on_consecutive_n with a predicate does not
 compile

---
 strtk.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 01f70bc..716cc3c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15953,12 +15953,12 @@ namespace strtk
 
    template <typename Predicate,
              typename OutputIterator>
-   inline std::size_t split_on_consecutive(const std::size_t n,
-                                           const std::size_t m,
-                                           Predicate p,
-                                           char* begin,
-                                           char* end,
-                                           OutputIterator out)
+   inline std::size_t split_on_consecutive_n(const std::size_t n,
+                                             const std::size_t m,
+                                             Predicate p,
+                                             char* begin,
+                                             char* end,
+                                             OutputIterator out)
    {
       if (0 == n) return 0;
 
@@ -15970,7 +15970,7 @@ namespace strtk
 
       while ((end != itr_range.first) && (match_count < n))
       {
-         range_type found_itr = details::find_exactly_n_consecutive_values(m,p,itr_range);
+         range_type found_itr = details::find_exactly_n_consecutive_values<iterator_type,Predicate>(m,p,itr_range);
          if ((end == found_itr.first) && (found_itr.first == found_itr.second))
          {
             break;
@@ -16216,7 +16216,6 @@ namespace strtk
                                              OutputIterator out)
    {
       return split_on_consecutive_n<Predicate,
-                                    char*,
                                     OutputIterator>(n,
                                                     m,
                                                     p,
-- 
2.43.0


From 402eb084a1a2dc5791cb8420b24203afc5ed5b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 097/112] fix: assigning a tokenizer or a tokenizer iterator
 takes over its delimiter predicate

---
 strtk.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 716cc3c..ff131d8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2363,7 +2363,7 @@ namespace strtk
                                             const iterator end,
                                             const Predicate& predicate,
                                             const tokenize_options::type tokenize_option = tokenize_options::default_mode)
-         : predicate_(predicate),
+         : predicate_ptr_(&predicate),
            end_(end),
            range_(begin,begin),
            current_token_(end,end),
@@ -2480,6 +2480,7 @@ namespace strtk
          {
             if (this != &itr)
             {
+               predicate_ptr_          = itr.predicate_ptr_;
                range_                  = itr.range_;
                current_token_          = itr.current_token_;
                end_                    = itr.end_;
@@ -2500,7 +2501,13 @@ namespace strtk
 
       protected:
 
-         const Predicate& predicate_;
+         template <typename U>
+         inline bool predicate_(const U& u) const
+         {
+            return (*predicate_ptr_)(u);
+         }
+
+         const Predicate* predicate_ptr_;
          iterator end_;
          range_type range_;
          range_type current_token_;
@@ -2525,28 +2532,29 @@ namespace strtk
                        const DelimiterPredicate& predicate,
                        const tokenize_options::type tokenize_options = tokenize_options::default_mode)
       : tokenize_options_(tokenize_options),
-        predicate_(predicate),
+        predicate_(&predicate),
         begin_(begin),
         end_(end),
-        begin_itr_(begin_, end_, predicate_, tokenize_options_),
-        end_itr_(end_, end_, predicate_, tokenize_options_)
+        begin_itr_(begin_, end_, *predicate_, tokenize_options_),
+        end_itr_(end_, end_, *predicate_, tokenize_options_)
       {}
 
       inline tokenizer(const std::string& s,
                        const DelimiterPredicate& predicate,
                        const tokenize_options::type tokenize_options = tokenize_options::default_mode)
       : tokenize_options_(tokenize_options),
-        predicate_(predicate),
+        predicate_(&predicate),
         begin_(to_ptr(s)),
         end_(to_ptr(s) + s.size()),
-        begin_itr_(begin_, end_, predicate_, tokenize_options_),
-        end_itr_(end_, end_, predicate_, tokenize_options_)
+        begin_itr_(begin_, end_, *predicate_, tokenize_options_),
+        end_itr_(end_, end_, *predicate_, tokenize_options_)
       {}
 
       inline tokenizer& operator=(const tokenizer& t)
       {
          if (this != &t)
          {
+            predicate_        = t.predicate_;
             begin_            = t.begin_;
             end_              = t.end_;
             end_itr_          = t.end_itr_;
@@ -2571,8 +2579,8 @@ namespace strtk
       {
          begin_     = begin;
          end_       = end;
-         begin_itr_ = iterator(begin_,end_,predicate_,tokenize_options_);
-         end_itr_   = iterator(end_  ,end_,predicate_,tokenize_options_);
+         begin_itr_ = iterator(begin_,end_,*predicate_,tokenize_options_);
+         end_itr_   = iterator(end_  ,end_,*predicate_,tokenize_options_);
       }
 
       inline const_iterator_ref begin() const
@@ -2588,7 +2596,7 @@ namespace strtk
    private:
 
       tokenize_options::type tokenize_options_;
-      const DelimiterPredicate& predicate_;
+      const DelimiterPredicate* predicate_;
       Iterator begin_;
       Iterator end_;
       iterator begin_itr_;
-- 
2.43.0


From 3dc95d2fc3c29dc0170154be5882ca4273772179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 098/112] fix: load_file reports success for a file shorter
 than the buffer asked for

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index ff131d8..5203578 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18525,7 +18525,7 @@ namespace strtk
          if (!in_stream) return false;
          in_stream.read(buffer,static_cast<std::streamsize>(buffer_size));
          in_stream.close();
-         return true;
+         return !in_stream.fail();
       }
 
       inline bool load_file(const std::string& file_name, std::string& buffer)
-- 
2.43.0


From 325e591ce3fd951e85e326421af37bca2cef5210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 099/112] fix: copies, unions and stored files of a compressed
 bloom filter lose how it was compressed

---
 strtk.hpp | 67 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5203578..d5e4f07 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20197,6 +20197,7 @@ namespace strtk
                   (random_seed_                        == f.random_seed_)                        &&
                   (desired_false_positive_probability_ == f.desired_false_positive_probability_) &&
                   (salt_                               == f.salt_)                               &&
+                  (compressed_size_list_               == f.compressed_size_list_)               &&
                   std::equal(f.bit_table_, f.bit_table_ + raw_table_size_, bit_table_);
             }
             else
@@ -20223,6 +20224,7 @@ namespace strtk
                bit_table_               = new cell_type[static_cast<std::size_t>(raw_table_size_)];
                std::copy(f.bit_table_, f.bit_table_ + raw_table_size_, bit_table_);
                salt_                    = f.salt_;
+               compressed_size_list_    = f.compressed_size_list_;
             }
             return *this;
          }
@@ -20345,7 +20347,7 @@ namespace strtk
 
          inline virtual unsigned long long int size() const
          {
-            return table_size_;
+            return compressed_size_list_.empty() ? table_size_ : compressed_size_list_.back();
          }
 
          inline std::size_t element_count() const
@@ -20372,7 +20374,8 @@ namespace strtk
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
                 (raw_table_size_ == f.raw_table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (random_seed_ == f.random_seed_) &&
+                (compressed_size_list_ == f.compressed_size_list_)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20390,7 +20393,8 @@ namespace strtk
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
                 (raw_table_size_ == f.raw_table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (random_seed_ == f.random_seed_) &&
+                (compressed_size_list_ == f.compressed_size_list_)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20408,7 +20412,8 @@ namespace strtk
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
                 (raw_table_size_ == f.raw_table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (random_seed_ == f.random_seed_) &&
+                (compressed_size_list_ == f.compressed_size_list_)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20438,6 +20443,8 @@ namespace strtk
                                             salt_count_ * sizeof(           bloom_type) +
                                               static_cast<std::size_t>(raw_table_size_) *
                                                                       sizeof(cell_type) +
+                                            compressed_size_list_.size() *
+                                                         sizeof(unsigned long long int) +
                                             64; // handle array sizes etc.
             std::ofstream ostream(file_name.c_str(),std::ios::binary);
             if (!ostream)
@@ -20453,7 +20460,8 @@ namespace strtk
                           writer(random_seed_)                        &&
                           writer(desired_false_positive_probability_) &&
                           writer(salt_)                               &&
-                          writer(bit_table_,raw_table_size_);
+                          writer(bit_table_,raw_table_size_)          &&
+                          (compressed_size_list_.empty() || writer(compressed_size_list_));
             if (result)
             {
                writer(ostream);
@@ -20478,6 +20486,7 @@ namespace strtk
             random_seed_                        = 0;
             desired_false_positive_probability_ = 0.0;
             salt_.clear();
+            compressed_size_list_.clear();
 
             if (0 != bit_table_)
                delete [] bit_table_;
@@ -20502,7 +20511,10 @@ namespace strtk
                           reader(bit_table_,raw_table_size_)          &&
                           (0 != table_size_)                          &&
                           (salt_count_ == salt_.size())               &&
-                          (raw_table_size_ == (table_size_ / bits_per_char) + (0 != (table_size_ % bits_per_char)));
+                          (
+                            valid_table_size() ||
+                            (reader(compressed_size_list_) && valid_table_size())
+                          );
 
             delete[] buffer;
 
@@ -20512,6 +20524,7 @@ namespace strtk
                table_size_     = 0;
                raw_table_size_ = 0;
                salt_.clear();
+               compressed_size_list_.clear();
                delete[] bit_table_;
                bit_table_ = 0;
             }
@@ -20529,9 +20542,21 @@ namespace strtk
          inline virtual void compute_indices(const bloom_type& hash, std::size_t& bit_index, std::size_t& bit) const
          {
             bit_index = static_cast<std::size_t>(hash % table_size_);
+            for (std::size_t i = 0; i < compressed_size_list_.size(); ++i)
+            {
+               bit_index %= compressed_size_list_[i];
+            }
             bit = bit_index % bits_per_char;
          }
 
+         inline bool valid_table_size() const
+         {
+            if (std::count(compressed_size_list_.begin(), compressed_size_list_.end(), 0ULL) > 0)
+               return false;
+            const unsigned long long int bit_count = compressed_size_list_.empty() ? table_size_ : compressed_size_list_.back();
+            return (raw_table_size_ == (bit_count / bits_per_char) + (0 != (bit_count % bits_per_char)));
+         }
+
          void generate_unique_salt()
          {
             /*
@@ -20669,6 +20694,7 @@ namespace strtk
          unsigned int            inserted_element_count_;
          unsigned long long int  random_seed_;
          double                  desired_false_positive_probability_;
+         std::vector<unsigned long long int> compressed_size_list_; // sizes of the table after each compression
       };
 
       inline filter operator & (const filter& a, const filter& b)
@@ -20698,14 +20724,7 @@ namespace strtk
 
          compressible_filter(const parameters& p)
          : filter(p)
-         {
-            size_list.push_back(table_size_);
-         }
-
-         inline virtual unsigned long long int size() const
-         {
-            return size_list.back();
-         }
+         {}
 
          inline bool compress(const double& percentage)
          {
@@ -20714,8 +20733,8 @@ namespace strtk
                return false;
             }
 
-            unsigned long long int original_table_size = size_list.back();
-            unsigned long long int new_table_size = static_cast<unsigned long long int>((size_list.back() * (1.0 - (percentage / 100.0))));
+            unsigned long long int original_table_size = size();
+            unsigned long long int new_table_size = static_cast<unsigned long long int>((original_table_size * (1.0 - (percentage / 100.0))));
             new_table_size -= (((new_table_size % bits_per_char) != 0) ? (new_table_size % bits_per_char) : 0);
 
             if ((bits_per_char > new_table_size) || (new_table_size >= original_table_size))
@@ -20742,24 +20761,10 @@ namespace strtk
             delete[] bit_table_;
             bit_table_ = tmp;
             raw_table_size_ = new_table_size / bits_per_char;
-            size_list.push_back(new_table_size);
+            compressed_size_list_.push_back(new_table_size);
 
             return true;
          }
-
-      private:
-
-         inline virtual void compute_indices(const bloom_type& hash, std::size_t& bit_index, std::size_t& bit) const
-         {
-            bit_index = hash;
-            for (std::size_t i = 0; i < size_list.size(); ++i)
-            {
-               bit_index %= size_list[i];
-            }
-            bit = bit_index % bits_per_char;
-         }
-
-         std::vector<unsigned long long int> size_list;
       };
 
    }
-- 
2.43.0


From dbcfe7a0d9790bf70fa25603714c8ad34b9b6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 100/112] fix: destroying a prefix trie that holds a long key
 overflows the stack

---
 strtk.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d5e4f07..aa1f24f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19762,16 +19762,17 @@ namespace strtk
 
            ~node()
             {
-               if (!node_list_.empty())
-               {
-                  node_list_iterator itr = node_list_.begin();
-                  node_list_iterator end = node_list_.end  ();
+               // Note: Not recursive - a key may be longer than the stack is deep.
+               node_list_t pending;
+               pending.swap(node_list_);
 
-                  while (end != itr)
-                  {
-                     delete (*itr);
-                     ++itr;
-                  }
+               while (!pending.empty())
+               {
+                  node_ptr n = pending.back();
+                  pending.pop_back();
+                  pending.insert(pending.end(),n->node_list_.begin(),n->node_list_.end());
+                  n->node_list_.clear();
+                  delete n;
                }
             }
 
-- 
2.43.0


From 0ee6af856869ae64d8098c829d36c4c43d24e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 101/112] fix: copying a prefix trie makes both copies own, and
 delete, the same nodes

---
 strtk.hpp | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index aa1f24f..c410713 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19816,6 +19816,11 @@ namespace strtk
                return value_;
             }
 
+            inline const node_list_t& node_list() const
+            {
+               return node_list_;
+            }
+
             inline const key_value_t& key() const
             {
                return key_value_;
@@ -19845,6 +19850,44 @@ namespace strtk
          : head_(0)
          {}
 
+         prefix(const prefix<KeyIterator,ValueType>& t)
+         : head_(0)
+         {
+            if (0 == t.head_)
+               return;
+
+            head_ = new node_t(t.head_->key());
+
+            std::vector<std::pair<const node_t*,node_ptr> > pending;
+            pending.push_back(std::make_pair(static_cast<const node_t*>(t.head_),head_));
+
+            while (!pending.empty())
+            {
+               const node_t* source = pending.back().first;
+               node_ptr copy = pending.back().second;
+               pending.pop_back();
+
+               for (std::size_t i = 0; i < source->node_list().size(); ++i)
+               {
+                  const node_t* n = source->node_list()[i];
+                  node_ptr m = new node_t(n->key());
+                  copy->add_node(m);
+
+                  if (n->value_holder())
+                     m->assign_value(n->value());
+
+                  pending.push_back(std::make_pair(n,m));
+               }
+            }
+         }
+
+         inline prefix<KeyIterator,ValueType>& operator=(const prefix<KeyIterator,ValueType>& t)
+         {
+            prefix<KeyIterator,ValueType> copy(t);
+            std::swap(head_,copy.head_);
+            return (*this);
+         }
+
          template <typename key_iterator_t>
          inline void insert(const key_iterator_t begin,
                             const key_iterator_t end,
-- 
2.43.0


From 681f26bfd26227d4dfd13fc58b54dc741810703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 102/112] fix: a failed load of a file into a token grid frees
 the buffer the user gave it before

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index c410713..2f06f1d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7319,9 +7319,9 @@ namespace strtk
          if ((load_from_file_) && (0 != buffer_))
          {
             delete [] buffer_;
-            buffer_ = 0;
          }
 
+         buffer_           = 0;
          buffer_size_      = 0;
          min_column_count_ = 0;
          max_column_count_ = 0;
-- 
2.43.0


From a71ed5f007ba5b0705f78e900dccfdc50f260f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 103/112] fix: a directory named as a file is copied, compared
 or loaded as 2^63 bytes

---
 strtk.hpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2f06f1d..c66c341 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7526,6 +7526,9 @@ namespace strtk
          if (!stream)
             return false;
 
+         if (std::ifstream::traits_type::eq_int_type(stream.peek(),std::ifstream::traits_type::eof()))
+            return false;
+
          stream.seekg (0,std::ios::end);
          buffer_size_ = static_cast<std::size_t>(stream.tellg());
 
@@ -18505,6 +18508,21 @@ namespace strtk
    namespace fileio
    {
 
+      namespace details
+      {
+         inline bool readable(std::istream& stream)
+         {
+            // Note: A directory can be opened, but not read from.
+            if (!stream)
+               return false;
+            stream.peek();
+            if (stream.bad())
+               return false;
+            stream.clear();
+            return true;
+         }
+      }
+
       inline bool file_exists(const std::string& file_name)
       {
          std::ifstream file(file_name.c_str(), std::ios::binary);
@@ -18514,7 +18532,7 @@ namespace strtk
       inline std::size_t file_size(const std::string& file_name)
       {
          std::ifstream file(file_name.c_str(),std::ios::binary);
-         if (!file) return 0;
+         if (!details::readable(file)) return 0;
          file.seekg (0, std::ios::end);
          return static_cast<std::size_t>(file.tellg());
       }
@@ -18522,7 +18540,7 @@ namespace strtk
       inline bool load_file(const std::string& file_name, char* buffer, std::size_t buffer_size)
       {
          std::ifstream in_stream(file_name.c_str(),std::ios::binary);
-         if (!in_stream) return false;
+         if (!details::readable(in_stream)) return false;
          in_stream.read(buffer,static_cast<std::streamsize>(buffer_size));
          in_stream.close();
          return !in_stream.fail();
@@ -18551,7 +18569,7 @@ namespace strtk
       inline bool copy_file(const std::string& src_file_name, const std::string& dest_file_name)
       {
          std::ifstream src_file(src_file_name.c_str(),std::ios::binary);
-         if (!src_file) return false;
+         if (!details::readable(src_file)) return false;
          std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!dest_file) return false;
 
@@ -18586,7 +18604,7 @@ namespace strtk
          std::ifstream file1(file_name1.c_str(),std::ios::binary);
          std::ifstream file2(file_name2.c_str(),std::ios::binary);
 
-         if (!file1 || !file2) return false;
+         if (!details::readable(file1) || !details::readable(file2)) return false;
 
          std::ofstream out_file(output_file_name.c_str(),std::ios::binary);
 
@@ -18627,8 +18645,8 @@ namespace strtk
       {
          std::ifstream file1(file_name1.c_str(),std::ios::binary);
          std::ifstream file2(file_name2.c_str(),std::ios::binary);
-         if (!file1) return false;
-         if (!file2) return false;
+         if (!details::readable(file1)) return false;
+         if (!details::readable(file2)) return false;
          if (file_size(file_name1) != file_size(file_name2)) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
-- 
2.43.0


From d6aab9b38d360d33283e84513e3311f2a02bf7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 104/112] fix: copying or concatenating files into one of
 themselves loses its content and reports success

---
 strtk.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c66c341..5244961 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18570,14 +18570,17 @@ namespace strtk
       {
          std::ifstream src_file(src_file_name.c_str(),std::ios::binary);
          if (!details::readable(src_file)) return false;
+         if (src_file_name == dest_file_name) return false;
+
+         // Note: Opening the destination empties it - and the source, when both are the same file.
+         std::size_t remaining_bytes = file_size(src_file_name);
+
          std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!dest_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
          char buffer[block_size];
 
-         std::size_t remaining_bytes = file_size(src_file_name);
-
          while (remaining_bytes >= block_size)
          {
             src_file.read(&buffer[0],static_cast<std::streamsize>(block_size));
@@ -18606,6 +18609,11 @@ namespace strtk
 
          if (!details::readable(file1) || !details::readable(file2)) return false;
 
+         if ((file_name1 == output_file_name) || (file_name2 == output_file_name)) return false;
+
+         const std::size_t file1_size = file_size(file_name1);
+         const std::size_t file2_size = file_size(file_name2);
+
          std::ofstream out_file(output_file_name.c_str(),std::ios::binary);
 
          if (!out_file) return false;
@@ -18618,7 +18626,7 @@ namespace strtk
          while (round < 2)
          {
             std::ifstream& input_stream = ((0 == round) ? file1 : file2);
-            remaining_bytes = ((0 == round) ? file_size(file_name1) : file_size(file_name2));
+            remaining_bytes = ((0 == round) ? file1_size : file2_size);
 
             while (remaining_bytes >= block_size)
             {
-- 
2.43.0


From 9bb9ee83bfe8b6dc3df7fa66fe16cd45f5d576e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:16 +0000
Subject: [PATCH 105/112] fix: a numeric key map takes any malformed key for
 the key 4294967295

---
 strtk.hpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5244961..4fd8535 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24434,7 +24434,7 @@ namespace strtk
          template <typename Range>
          struct keygen<Range,unsigned int>
          {
-            static inline unsigned int transform(const Range& key_range)
+            static inline bool convert(const Range& key_range, unsigned int& key)
             {
                const std::size_t key_length = std::distance(key_range.first,key_range.second);
                unsigned long long int result = 0;
@@ -24444,9 +24444,37 @@ namespace strtk
                     strtk::fast::numeric_convert(key_length,key_range.first,result,true) &&
                     (result <= std::numeric_limits<unsigned int>::max())
                   )
-                  return static_cast<unsigned int>(result);
+               {
+                  key = static_cast<unsigned int>(result);
+                  return true;
+               }
                else
-                  return std::numeric_limits<unsigned int>::max();
+                  return false;
+            }
+
+            static inline unsigned int transform(const Range& key_range)
+            {
+               unsigned int key = 0;
+               return convert(key_range,key) ? key : std::numeric_limits<unsigned int>::max();
+            }
+         };
+
+         template <typename Range,typename KType>
+         struct keycheck
+         {
+            static inline bool valid(const Range&)
+            {
+               return true;
+            }
+         };
+
+         template <typename Range>
+         struct keycheck<Range,unsigned int>
+         {
+            static inline bool valid(const Range& key_range)
+            {
+               unsigned int key = 0;
+               return keygen<Range,unsigned int>::convert(key_range,key);
             }
          };
 
@@ -24487,6 +24515,8 @@ namespace strtk
                return false;
             if (!val_validator_(value_range))
                return false;
+            if (!details::keycheck<Range,key_type>::valid(key_range))
+               return false;
             typename map_type::iterator itr = value_map_.find(details::keygen<Range,key_type>::transform(key_range));
             if (value_map_.end() == itr)
                return false;
-- 
2.43.0


From 82396fcb9e79f0b4b7819961b18ad2028049eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:01 +0000
Subject: [PATCH 106/112] fix: with strtk_use_lut a character above 127 in a
 number reads before the digit table

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4fd8535..f3b85fa 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17671,10 +17671,10 @@ namespace strtk
          #ifdef strtk_use_lut
 
          #define parse_digit_1(d) \
-         if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { d = d * real_t(10) + digit; } else break; if (end == ++itr) break; \
+         if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { d = d * real_t(10) + digit; } else break; if (end == ++itr) break; \
 
          #define parse_digit_2(d) \
-         if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { d = d * real_t(10) + digit; } else break; ++itr; \
+         if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { d = d * real_t(10) + digit; } else break; ++itr; \
 
          #else
 
-- 
2.43.0


From d4e8f424443aac03736e80bc77757769374912f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 107/112] fix: strtk_parse_ignore_token in a structure
 definition does not compile

---
 strtk.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index f3b85fa..2a14046 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -10286,7 +10286,7 @@ namespace strtk
    ,t.T                            \
 
    #define strtk_parse_ignore_token() \
-   ,ignore_token()                    \
+   ,ignore_token().ref()              \
 
    #define strtk_parse_end() \
    );}}                      \
@@ -14835,6 +14835,11 @@ namespace strtk
       {
          return (*this);
       }
+
+      inline ignore_token& ref()
+      {
+         return (*this);
+      }
    };
 
    template <typename T>
-- 
2.43.0


From d2f14fb7c45c4b89eaff997a76b0cb773029dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 108/112] fix: hash left out every element after the first
 block and the last of an odd count

---
 strtk.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2a14046..da20f96 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20900,7 +20900,7 @@ namespace strtk
       }
 
       template <std::size_t block_size, typename Iterator>
-      inline void compute_block(Iterator itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(Iterator& itr, std::size_t& length, unsigned int& hash)
       {
          while (length >= block_size)
          {
@@ -20913,7 +20913,7 @@ namespace strtk
       }
 
       template <std::size_t block_size>
-      inline void compute_block(unsigned char* itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(unsigned char*& itr, std::size_t& length, unsigned int& hash)
       {
          unsigned int local_hash = hash;
 
@@ -20930,15 +20930,17 @@ namespace strtk
       }
 
       template <std::size_t block_size>
-      inline void compute_block(char* itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(char*& itr, std::size_t& length, unsigned int& hash)
       {
-         compute_block<block_size>(reinterpret_cast<unsigned char*>(itr),length,hash);
+         unsigned char* uitr = reinterpret_cast<unsigned char*>(itr);
+         compute_block<block_size>(uitr,length,hash);
+         itr = reinterpret_cast<char*>(uitr);
       }
 
       static const unsigned int hash_seed = 0xAAAAAAAA;
 
       template <typename Iterator>
-      inline void hash(const Iterator itr, std::size_t length, unsigned int& hash_value)
+      inline void hash(Iterator itr, std::size_t length, unsigned int& hash_value)
       {
          if (length >= 64) compute_block<64>(itr,length,hash_value);
          if (length >= 32) compute_block<32>(itr,length,hash_value);
@@ -20946,7 +20948,7 @@ namespace strtk
          if (length >=  8) compute_block< 8>(itr,length,hash_value);
          if (length >=  4) compute_block< 4>(itr,length,hash_value);
          if (length >=  2) compute_block< 2>(itr,length,hash_value);
-         if (length ==  0) compute_block< 1>(itr,length,hash_value);
+         if (length ==  1) compute_block< 1>(itr,length,hash_value);
       }
 
    } // namespace details
-- 
2.43.0


From 7bbc7c3faadfdaf64af1d0084527609545623c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 109/112] fix: timer reported a wrapped time when the clock
 went back by less than a second

---
 strtk.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index da20f96..6046e27 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24672,7 +24672,13 @@ namespace strtk
             {
                if (!in_use_)
                {
-                  if (stop_time_.tv_sec >= start_time_.tv_sec)
+                  if (
+                       (stop_time_.tv_sec > start_time_.tv_sec) ||
+                       (
+                         (stop_time_.tv_sec  == start_time_.tv_sec ) &&
+                         (stop_time_.tv_usec >= start_time_.tv_usec)
+                       )
+                     )
                   {
                      return 1000000 * (stop_time_.tv_sec  - start_time_.tv_sec ) +
                                       (stop_time_.tv_usec - start_time_.tv_usec);
-- 
2.43.0


From a6e1bf46290c05c97336da10233a3932ce348b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:56 +0000
Subject: [PATCH 110/112] fix: split_on_consecutive with a stateful predicate
 stays inside its range and counts a run from its start

---
 strtk.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 6046e27..2344674 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15694,15 +15694,12 @@ namespace strtk
             else
             {
                ++itr;
-               while ((end != itr) && !p(*itr))
-                  ++itr;
                if (!stateful_predicate)
-                  count = n;
-               else
                {
-                  --count;
-                  ++itr;
+                  while ((end != itr) && !p(*itr))
+                     ++itr;
                }
+               count = n;
             }
          }
 
-- 
2.43.0


From f2dab4e82bb449dcc9d6f600bb87aaf8162b8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 111/112] fix: cut does not use a string after its iterator has
 moved on

---
 strtk.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2344674..f3b2568 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11725,11 +11725,13 @@ namespace strtk
       while (end != itr)
       {
          const std::string& s = (*itr);
-         ++itr;
-         if (s.size() < r0)
-            continue;
 
-         (*out++) = s.substr(r0,std::min(r1,s.size()) - r0);
+         if (s.size() >= r0)
+         {
+            (*out++) = s.substr(r0,std::min(r1,s.size()) - r0);
+         }
+
+         ++itr;
       }
    }
 
-- 
2.43.0


From e02e96eb4283bdeea4b32424c8a241e729652e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:59 +0000
Subject: [PATCH 112/112] fix: make_value_list yields the values of every key
 equivalent to the one asked for

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f3b2568..1badde2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21609,9 +21609,9 @@ namespace strtk
       {
          if (map.empty()) return;
          typedef typename std::multimap<Key,T,Comparator,MapAllocator> map_type;
-         typename map_type::const_iterator itr = map.find(key);
-         typename map_type::const_iterator end = map.end();
-         while ((end != itr) && (key == itr->first))
+         typename map_type::const_iterator itr = map.lower_bound(key);
+         typename map_type::const_iterator end = map.upper_bound(key);
+         while (end != itr)
          {
             *out++ = (itr++)->second;
          }
-- 
2.43.0

