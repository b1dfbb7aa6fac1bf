// In-place removal: characters, runs, leading/trailing parts, duplicates, indexed elements.
#include "strtk.hpp"
#include "mc.hpp"
#include <deque>
#include <list>
typedef std::vector<std::string> SV;
typedef strtk::multiple_char_delimiter_predicate Multi;
typedef strtk::single_delimiter_predicate<char> Single;

template <typename P> static std::string keep_not(P p, const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (!p(s[i])) r += s[i]; return r; }
template <typename P> static std::string collapse(P p, const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (!(i && p(s[i]) && p(s[i-1]))) r += s[i]; return r; }
template <typename P> static std::string ltrim(P p, const std::string& s) { size_t i = 0; while (i < s.size() && p(s[i])) ++i; return s.substr(i); }
template <typename P> static std::string rtrim(P p, const std::string& s) { size_t n = s.size(); while (n && p(s[n-1])) --n; return s.substr(0, n); }
struct In { std::string set; bool operator()(char c) const { return set.find(c) != std::string::npos; } };

// A container/range operation that returns how many elements it dropped: the survivors are at the front.
template <typename C, typename F> static void ranged(const char* what, const std::string& s, const std::string& want, F f)
{
   C c(s.begin(), s.end());
   size_t n = f(c.begin(), c.end());
   MC_EQM(n, s.size() - want.size(), what);
   c.resize(s.size() - n);
   MC_EQM(std::string(c.begin(), c.end()), want, what);
}
template <typename F> static void adapter(const char* what, const std::string& s, const std::string& want, F f)
{
   mc::Buf<char> b(s);
   size_t n = f(strtk::range::adapter<char>(b.begin(), b.end()));
   MC_EQM(n, s.size() - want.size(), what);
   MC_EQM(std::string(b.begin(), b.begin() + (s.size() - n)), want, what);
}
template <typename F> static void str(const char* what, std::string s, const std::string& want, F f) { f(s); MC_EQM(s, want, what); }

template <typename P> static void predicate_forms(const std::string& s, const std::string& chars, P p)
{
   In in = { chars };
   std::string w = keep_not(in, s);
   str("remove_inplace(predicate,string)", s, w, [&](std::string& x) { strtk::remove_inplace(p, x); });
   ranged<std::string>("remove_inplace(range)", s, w, [&](std::string::iterator b, std::string::iterator e) { return strtk::remove_inplace(p, b, e); });
   ranged<std::list<char> >("remove_inplace(list range)", s, w, [&](std::list<char>::iterator b, std::list<char>::iterator e) { return strtk::remove_inplace(p, b, e); });
   adapter("remove_inplace(adapter)", s, w, [&](const strtk::range::adapter<char>& r) { return strtk::remove_inplace(p, r); });
   { std::vector<char> v(s.begin(), s.end()); MC_EQ(strtk::remove_inplace(p, v), s.size() - w.size()); MC_EQ(std::string(v.begin(), v.end()), w); }
   { std::deque<char> v(s.begin(), s.end()); MC_EQ(strtk::remove_inplace(p, v), s.size() - w.size()); MC_EQ(std::string(v.begin(), v.end()), w); }
   w = collapse(in, s);
   str("remove_consecutives_inplace(predicate,string)", s, w, [&](std::string& x) { strtk::remove_consecutives_inplace(p, x); });
   ranged<std::string>("remove_consecutives_inplace(predicate range)", s, w, [&](std::string::iterator b, std::string::iterator e) { return strtk::remove_consecutives_inplace(p, b, e); });
   ranged<std::list<char> >("remove_consecutives_inplace(predicate list range)", s, w, [&](std::list<char>::iterator b, std::list<char>::iterator e) { return strtk::remove_consecutives_inplace(p, b, e); });
   adapter("remove_consecutives_inplace(predicate adapter)", s, w, [&](const strtk::range::adapter<char>& r) { return strtk::remove_consecutives_inplace(p, r); });
   w = rtrim(in, s);
   str("remove_trailing(predicate,string)", s, w, [&](std::string& x) { strtk::remove_trailing(p, x); });
   ranged<std::string>("remove_trailing(range)", s, w, [&](std::string::iterator b, std::string::iterator e) { return strtk::remove_trailing(p, b, e); });
   adapter("remove_trailing(adapter)", s, w, [&](const strtk::range::adapter<char>& r) { return strtk::remove_trailing(p, r); });
   w = ltrim(in, s);
   str("remove_leading(predicate,string)", s, w, [&](std::string& x) { strtk::remove_leading(p, x); });
   ranged<std::string>("remove_leading(range)", s, w, [&](std::string::iterator b, std::string::iterator e) { return strtk::remove_leading(p, b, e); });
   ranged<std::list<char> >("remove_leading(list range)", s, w, [&](std::list<char>::iterator b, std::list<char>::iterator e) { return strtk::remove_leading(p, b, e); });
   adapter("remove_leading(adapter)", s, w, [&](const strtk::range::adapter<char>& r) { return strtk::remove_leading(p, r); });
}
static void all_of(const std::string& s, const std::string& chars)
{
   In in = { chars };
   predicate_forms(s, chars, Multi(chars));
   predicate_forms(s, chars, in);
   if (chars.size() == 1)
   {
      const char c = chars[0];
      predicate_forms(s, chars, Single(c));
      str("remove_inplace(char)", s, keep_not(in, s), [&](std::string& x) { strtk::remove_inplace(c, x); });
      str("remove_consecutives_inplace(char)", s, collapse(in, s), [&](std::string& x) { strtk::remove_consecutives_inplace(c, x); });
      str("remove_trailing(char)", s, rtrim(in, s), [&](std::string& x) { strtk::remove_trailing(c, x); });
      str("remove_leading(char)", s, ltrim(in, s), [&](std::string& x) { strtk::remove_leading(c, x); });
   }
   str("remove_consecutives_inplace(string)", s, collapse(in, s), [&](std::string& x) { strtk::remove_consecutives_inplace(chars, x); });
   str("remove_trailing(string)", s, rtrim(in, s), [&](std::string& x) { strtk::remove_trailing(chars, x); });
   str("remove_leading(string)", s, ltrim(in, s), [&](std::string& x) { strtk::remove_leading(chars, x); });
   str("remove_leading_trailing", s, rtrim(in, ltrim(in, s)), [&](std::string& x) { strtk::remove_leading_trailing(chars, x); });
   if (chars.find('\0') == std::string::npos)
   {
      mc::Buf<char> z(chars + std::string(1, '\0'));
      const char* cs = z.begin();
      str("remove_consecutives_inplace(const char*)", s, collapse(in, s), [&](std::string& x) { strtk::remove_consecutives_inplace(cs, x); });
      str("remove_trailing(const char*)", s, rtrim(in, s), [&](std::string& x) { strtk::remove_trailing(cs, x); });
      str("remove_leading(const char*)", s, ltrim(in, s), [&](std::string& x) { strtk::remove_leading(cs, x); });
   }
   mc::outcome(mc::Hash()(keep_not(in, s))(collapse(in, s))(rtrim(in, s))(ltrim(in, s)));
}
static void no_set(const std::string& s)
{
   std::string w; for (size_t i = 0; i < s.size(); ++i) if (!i || s[i] != s[i-1]) w += s[i];
   str("remove_consecutives_inplace(string)", s, w, [&](std::string& x) { strtk::remove_consecutives_inplace(x); });
   ranged<std::string>("remove_consecutives_inplace(range)", s, w, [&](std::string::iterator b, std::string::iterator e) { return strtk::remove_consecutives_inplace(b, e); });
   ranged<std::list<char> >("remove_consecutives_inplace(list range)", s, w, [&](std::list<char>::iterator b, std::list<char>::iterator e) { return strtk::remove_consecutives_inplace(b, e); });
   adapter("remove_consecutives_inplace(adapter)", s, w, [&](const strtk::range::adapter<char>& r) { return strtk::remove_consecutives_inplace(r); });
   { std::vector<char> v(s.begin(), s.end()); strtk::remove_consecutives_inplace(v); MC_EQ(std::string(v.begin(), v.end()), w); }
   { std::list<char> v(s.begin(), s.end()); strtk::remove_consecutives_inplace(v); MC_EQ(std::string(v.begin(), v.end()), w); }
   std::string u; for (size_t i = 0; i < s.size(); ++i) if (u.find(s[i]) == std::string::npos) u += s[i];
   MC_EQ(strtk::remove_duplicates(s), u);
   { std::string x = s; MC_EQ(strtk::remove_duplicates_inplace(x), u); MC_EQ(x, u); }
   mc::outcome(mc::Hash()(w)(u));
}
MC_SECTION(small_strings)
{
   const char* sets[] = { "a", "b", "ab", "bc", "", "abc" };
   for (int q = 0; q < 6; ++q)
      mc::strings("abc", 0, mc::tier(6, 9), [&](const std::string& s) { MC_CASE(o << "remove " << sets[q] << " from " << s); all_of(s, sets[q]); });
}
MC_SECTION(in_context)
{
   mc::in_context("ab ", 1, mc::tier(3, 5), 'x', 'y', [&](const std::string& s) { MC_CASE(o << "remove from " << s); all_of(s, " "); all_of(s, "ab"); all_of(s, "xa"); no_set(s); });
}
MC_SECTION(small_strings_no_set) { mc::strings("abc", 0, mc::tier(9, 11), [&](const std::string& s) { MC_CASE(o << "remove repeats from " << s); no_set(s); }); }
MC_SECTION(every_byte)
{
   for (int c = 0; c < 256; ++c)
      for (int d = 0; d < 256; ++d)
      {
         if (d == c) continue;
         const char t[] = { (char)c, (char)d, (char)c, (char)c, (char)d, (char)d, (char)c, (char)c };
         std::string s(t, 8);
         MC_CASE(o << "remove byte " << c << " from " << s);
         if ((d & 15) == (c & 15) || d == (c ^ 0x80) || d < 3 || d > 253) { all_of(s, std::string(1, (char)c)); all_of(s.substr(1), std::string(1, (char)c)); }
         no_set(s);
      }
   std::string all; for (int c = 0; c < 256; ++c) all += (char)c;
   for (int c = 0; c < 256; ++c)
   {
      MC_CASE(o << "all bytes, removing sets around " << c);
      all_of(all + all, std::string(1, (char)c)); all_of(all, all.substr(c)); all_of(all, all.substr(0, c));
      no_set(all.substr(c) + all); no_set(all + std::string(c, (char)c));
   }
}
MC_SECTION(sets_in_turn) { mc::lists_in_turn("abcd", 4, [](const std::string& d) { MC_CASE(o << "remove " << d << ", sets in turn"); all_of("xabbcaddxbcaa", d); }); }
MC_SECTION(long_strings)
{
   mc::long_strings(mc::tier(130, 400), 'a', ' ', [&](const std::string& s) {
      MC_CASE(o << "remove blanks and letters from " << s);
      all_of(s, " "); all_of(s, "a"); all_of(s, "a "); no_set(s);
   });
}
// ---------------------------------------------------------------- removal by index, elements other than char
MC_SECTION(by_index)
{
   for (size_t n = 0; n <= (size_t)mc::tier(10, 14); ++n)
      for (size_t mask = 0; mask < ((size_t)1 << n); ++mask)
         for (int extra = 0; extra < 2; ++extra)
         {
            MC_CASE(o << "index_remover with index mask " << mask << " over " << n << " elements" << (extra ? " and an index past the end" : ""));
            std::vector<size_t> ix; std::vector<int> v, w;
            for (size_t i = 0; i < n; ++i) { v.push_back((int)i * 3); if (mask >> i & 1) ix.push_back(i); else w.push_back((int)i * 3); }
            if (extra) ix.push_back(n + 2);
            { std::vector<int> x = v; MC_EQ(strtk::remove_inplace(strtk::index_remover(ix), x), n - w.size()); MC_EQ(x, w); }
            { std::deque<size_t> dx(ix.begin(), ix.end()); std::list<int> x(v.begin(), v.end()); MC_EQ(strtk::remove_inplace(strtk::index_remover(dx), x), n - w.size()); MC_EQ(std::vector<int>(x.begin(), x.end()), w); }
            mc::outcome(mc::Hash()(n)(mask));
         }
}
MC_SECTION(sequences)
{
   const char* parts[] = { "", "x", "longer than the small string buffer" };
   for (size_t n = 0; n <= (size_t)mc::tier(7, 9); ++n)
      mc::tuples(3, n, [&](const std::vector<size_t>& t) {
         MC_CASE(o << "string sequence " << t);
         SV v, w, c; for (size_t i = 0; i < n; ++i) { v.push_back(parts[t[i]]); if (t[i]) w.push_back(v.back()); if (!i || t[i] != t[i-1]) c.push_back(v.back()); }
         { SV x = v; strtk::remove_empty_strings(x); MC_EQ(x, w); }
         { std::deque<std::string> x(v.begin(), v.end()); strtk::remove_empty_strings(x); MC_EQ(SV(x.begin(), x.end()), w); }
         { std::list<std::string> x(v.begin(), v.end()); strtk::remove_empty_strings(x); MC_EQ(SV(x.begin(), x.end()), w); }
         { std::set<std::string> x(v.begin(), v.end()), y(w.begin(), w.end()); strtk::remove_empty_strings(x); MC_TRUE(x == y); }
         { std::multiset<std::string> x(v.begin(), v.end()), y(w.begin(), w.end()); strtk::remove_empty_strings(x); MC_TRUE(x == y); }
         { SV x = v; strtk::remove_consecutives_inplace(x); MC_EQ(x, c); }
         { std::list<std::string> x(v.begin(), v.end()); strtk::remove_consecutives_inplace(x); MC_EQ(SV(x.begin(), x.end()), c); }
         mc::outcome(mc::Hash()(w)(c));
      });
}
// ---------------------------------------------------------------- selective copying
MC_SECTION(copying)
{
   mc::strings("ab ", 0, mc::tier(8, 10), [&](const std::string& s) {
      MC_CASE(o << "copy_if/copy_while/copy_until/extract_unique of " << s);
      In in = { "b" };
      std::string r, w;
      strtk::copy_if(in, s.begin(), s.end(), mc::append(r)); for (size_t i = 0; i < s.size(); ++i) if (in(s[i])) w += s[i];
      MC_EQM(r, w, "copy_if");
      r.clear(); size_t k = 0; while (k < s.size() && in(s[k])) ++k;
      MC_EQM((size_t)(strtk::copy_while(in, s.begin(), s.end(), mc::append(r)) - s.begin()), k, "copy_while end"); MC_EQM(r, s.substr(0, k), "copy_while");
      MC_EQM(strtk::range_only_contains(in, s.begin(), s.end()), k == s.size(), "range_only_contains");
      r.clear(); k = 0; while (k < s.size() && !in(s[k])) ++k;
      MC_EQM((size_t)(strtk::copy_until(in, s.begin(), s.end(), mc::append(r)) - s.begin()), k, "copy_until end"); MC_EQM(r, s.substr(0, k), "copy_until");
      r.clear(); strtk::extract_unique(s.begin(), s.end(), mc::append(r));
      std::set<char> u(s.begin(), s.end()); MC_EQM(r, std::string(u.begin(), u.end()), "extract_unique");
      for (size_t n = 0; n <= s.size(); ++n) { r.clear(); strtk::copy_n(s.begin(), n, mc::append(r)); MC_EQM(r, s.substr(0, n), "copy_n"); }
      mc::outcome(mc::Hash()(w)(r)(k));
   });
}
MC_SECTION(huge_copying)
{
   for (size_t n : mc::scales(10, 140000))
      for (int pat = 0; pat < 5; ++pat)
      {
         MC_CASE(o << "copy_if/copy_while/copy_until/copy_n of " << n << " characters, pattern " << pat);
         std::string s(n, 'a'); if (pat == 1) s[n - 1] = 'b'; if (pat == 2) s[n / 2] = 'b'; if (pat == 3) for (size_t i = 0; i < n; i += 2) s[i] = 'b'; if (pat == 4) s[0] = 'b';
         In a = { "a" }, b = { "b" }; std::string w, r;
         for (char c : s) if (c == 'a') w += c;
         r.clear(); strtk::copy_if(a, s.begin(), s.end(), std::back_inserter(r)); MC_TRUE(r == w);
         const size_t k = s.find('b'), l = s.find_first_not_of('b'), ka = k == std::string::npos ? n : k, lb = l == std::string::npos ? n : l;
         r.clear(); MC_EQ((size_t)(strtk::copy_while(a, s.begin(), s.end(), std::back_inserter(r)) - s.begin()), ka); MC_TRUE(r == s.substr(0, ka));
         r.clear(); MC_EQ((size_t)(strtk::copy_while(b, s.begin(), s.end(), std::back_inserter(r)) - s.begin()), lb); MC_TRUE(r == s.substr(0, lb));
         r.clear(); MC_EQ((size_t)(strtk::copy_until(b, s.begin(), s.end(), std::back_inserter(r)) - s.begin()), ka); MC_TRUE(r == s.substr(0, ka));
         MC_EQ(strtk::range_only_contains(a, s.begin(), s.end()), ka == n);
         for (size_t c : { n, n - 1, n / 2 }) { r.clear(); strtk::copy_n(s.begin(), c, std::back_inserter(r)); MC_TRUE(r == s.substr(0, c)); }
         r.clear(); strtk::extract_unique(s.begin(), s.end(), std::back_inserter(r)); std::set<char> u(s.begin(), s.end()); MC_EQ(r, std::string(u.begin(), u.end()));
         mc::outcome(mc::Hash()(n)(pat));
      }
   for (size_t n : mc::scales(1, 20000))
   {
      MC_CASE(o << "set of " << n << " strings, with and without the empty one"); std::set<std::string> a, w; for (size_t i = 0; i < n; ++i) { a.insert(std::to_string(i)); w.insert(std::to_string(i)); }
      strtk::remove_empty_strings(a); MC_TRUE(a == w); a.insert(""); strtk::remove_empty_strings(a); MC_TRUE(a == w);
      std::vector<int> v, vw; for (size_t i = 0; i < n; ++i) { v.push_back((int)(i * 7919 % (n / 2 + 1))); vw.push_back(v.back()); } std::sort(vw.begin(), vw.end()); vw.erase(std::unique(vw.begin(), vw.end()), vw.end()); std::vector<int> u; strtk::extract_unique(v.begin(), v.end(), std::back_inserter(u)); MC_TRUE(u == vw);
   }
}
MC_SECTION(huge_strings)
{
   mc::huge_strings('a', ' ', [&](const std::string& s, int pat) {
      if (s.size() > 5000 && (s.size() < 60000 || pat == 0 || pat == 2 || pat == 4 || pat == 6 || pat == 7 || s.size() % 2 == 0)) return;
      MC_CASE(o << "remove from " << s.size() << " characters, pattern " << pat);
      all_of(s, " "); all_of(s, "a "); no_set(s);
      if (s.size() < 5000) { all_of(s, "a"); all_of(s + "b", " "); all_of("b" + s, " a"); }
   }, 0, 66000);
   mc::huge_strings('a', '\0', [&](const std::string& s, int pat) {
      MC_CASE(o << "remove NUL from " << s.size() << " characters, pattern " << pat);
      all_of(s, std::string(1, '\0')); all_of(s, "a"); no_set(s);
   }, 0, 1100);
}
MC_SECTION(huge_sequences)
{
   const size_t n = 66000;
   const size_t at[] = { 0, 1, 63, 64, 254, 255, 256, 257, 511, 512, 65534, 65535, 65536, 65537, n - 1 };
   for (size_t mask = 1; mask < (1u << 15); mask = mask * 3 + 1)
      for (int every = 0; every < 3; ++every)
      {
         MC_CASE(o << "index_remover over " << n << " elements, index mask " << mask << (every ? " and every second element" : ""));
         std::vector<size_t> ix; std::vector<int> v, w;
         for (size_t i = 0, k = 0; i < n; ++i)
         {
            bool in = (every == 1 && i % 2) || (every == 2 && i % 300 < 290);
            while (k < 15 && at[k] < i) ++k;
            if (k < 15 && at[k] == i && (mask >> k & 1)) in = true;
            v.push_back((int)i); if (in) ix.push_back(i); else w.push_back((int)i);
         }
         std::vector<int> x = v; MC_EQ(strtk::remove_inplace(strtk::index_remover(ix), x), n - w.size()); MC_TRUE(x == w);
      }
   for (size_t k = 1; k <= 700; ++k)
   {
      MC_CASE(o << "sequence operations on " << k << " strings");
      SV v, w; std::multiset<std::string> m, mw;
      for (size_t i = 0; i < k; ++i) { v.push_back(i % 3 ? "" : std::string(1, (char)('a' + i % 26))); m.insert(v.back()); if (i % 3 == 0) { w.push_back(v.back()); mw.insert(v.back()); } }
      strtk::remove_empty_strings(v); MC_TRUE(v == w); strtk::remove_empty_strings(m); MC_TRUE(m == mw);
   }
}
MC_SECTION(from_a_stream)
{
   // iterators that pass over their values only once
   for (size_t len = 0; len <= mc::tier<size_t>(6, 8); ++len) mc::tuples(3, len, [&](const std::vector<size_t>& ix) {
      typedef std::vector<int> V; const V v(ix.begin(), ix.end()); MC_CASE(o << "copies of a stream of " << V(v));
      auto one = [](int x) { return x == 1; };
      typedef mc::Once<int> O; V w, r; size_t k = 0; while (k < v.size() && v[k] == 1) ++k; for (int x : v) if (x == 1) w.push_back(x);
      { O s(v); r.clear(); strtk::copy_if(one, s.b, s.e, mc::append(r)); MC_EQM(r, w, "copy_if"); }
      { O s(v); r.clear(); O::It e = strtk::copy_while(one, s.b, s.e, mc::append(r)); MC_EQM(r, V(v.begin(), v.begin() + k), "copy_while"); MC_EQ(e == s.e, k == v.size()); if (k < v.size()) MC_EQ(*e, v[k]); }
      { O s(v); MC_EQM(strtk::range_only_contains(one, s.b, s.e), k == v.size(), "range_only_contains"); }
      k = 0; while (k < v.size() && v[k] != 1) ++k;
      { O s(v); r.clear(); O::It e = strtk::copy_until(one, s.b, s.e, mc::append(r)); MC_EQM(r, V(v.begin(), v.begin() + k), "copy_until"); MC_EQ(e == s.e, k == v.size()); if (k < v.size()) MC_EQ(*e, v[k]); }
      for (size_t n = 0; n < v.size(); ++n) { O s(v); r.clear(); strtk::copy_n(s.b, n, mc::append(r)); MC_EQM(r, V(v.begin(), v.begin() + n), "copy_n"); }
      { O s(v); r.clear(); strtk::extract_unique(s.b, s.e, mc::append(r)); std::set<int> u(v.begin(), v.end()); MC_EQM(r, V(u.begin(), u.end()), "extract_unique"); }
      mc::outcome(mc::Hash()(w)(k)(v));
   });
}
MC_MAIN
