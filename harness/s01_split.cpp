#include "split_model.hpp"
#include <deque>
#include <list>
typedef strtk::split_options::type O;

static void verdict(const char* what, size_t n, const Toks& got, const Toks& want)
{
   if (got != want) { mc::Out o; o << what << ": got " << got << " want " << want; mc::fail(o.str()); }
   if (n != want.size()) { mc::Out o; o << what << ": returned " << n << " want " << want.size(); mc::fail(o.str()); }
}
struct Vowel { bool operator()(char c) const { return c == 'a' || c == 'e'; } };
struct Even { bool operator()(int v) const { return (v & 1) == 0; } };
// A minimal output iterator over raw storage: only what was written counts.
static void core(const std::string& s, const std::string& d, O opt, const Toks& want)
{
   mc::Buf<char> b(s);
   CRs out;
   size_t n;
   if (d.size() == 1)
   {
      n = strtk::split(strtk::single_delimiter_predicate<char>(d[0]), (const char*)b.begin(), (const char*)b.end(), mc::append(out), opt);
      verdict("single", n, offsets((const char*)b.begin(), out), want);
      out.clear();
   }
   n = strtk::split(strtk::multiple_char_delimiter_predicate(d), (const char*)b.begin(), (const char*)b.end(), mc::append(out), opt);
   verdict("multi-table", n, offsets((const char*)b.begin(), out), want);
   out.clear();
   n = strtk::split(strtk::multiple_delimiter_predicate<char>(d.data(), d.data() + d.size()), (const char*)b.begin(), (const char*)b.end(), mc::append(out), opt);
   verdict("multi-list", n, offsets((const char*)b.begin(), out), want);
}
static void every(const std::string& s, const std::string& d, O opt, const Toks& want)
{
   const char* base = s.data();
   CRs out; size_t n;
   core(s, d, opt, want);
   n = strtk::split(d, s, mc::append(out), opt);                 verdict("string delims", n, offsets(base, out), want); out.clear();
   n = strtk::split(d.c_str(), s, mc::append(out), opt);         verdict("c-string delims", n, offsets(base, out), want); out.clear();
   n = strtk::split(d, s, out, opt);                                     verdict("string delims, vector", n, offsets(base, out), want); out.clear();
   n = strtk::split(d.c_str(), s, out, opt);                             verdict("c-string delims, vector", n, offsets(base, out), want); out.clear();
   std::deque<CR> dq; n = strtk::split(d, s, dq, opt);                   verdict("deque", n, offsets(base, CRs(dq.begin(), dq.end())), want);
   std::list<CR> ls; n = strtk::split(d.c_str(), s, ls, opt);            verdict("list", n, offsets(base, CRs(ls.begin(), ls.end())), want);
   if (d.size() == 1)
   {
      n = strtk::split(d[0], s, mc::append(out), opt);           verdict("char delim", n, offsets(base, out), want); out.clear();
      n = strtk::split(strtk::single_delimiter_predicate<char>(d[0]), s, mc::append(out), opt);
      verdict("predicate, string", n, offsets(base, out), want); out.clear();
   }
   {
      std::vector<std::pair<std::string::const_iterator,std::string::const_iterator> > si;
      std::pair<std::string::const_iterator,std::string::const_iterator> r(s.begin(), s.end());
      n = strtk::split(strtk::multiple_char_delimiter_predicate(d.begin(), d.end()), r, mc::append(si), opt);
      verdict("string iterators", n, offsets(s.begin(), si), want);
   }
   {
      const CR r(s.data(), s.data() + s.size());
      n = strtk::split(d, r, mc::append(out), opt);              verdict("string delims, range", n, offsets(base, out), want); out.clear();
      n = strtk::split(d.c_str(), r, mc::append(out), opt);      verdict("c-string delims, range", n, offsets(base, out), want); out.clear();
      const std::pair<std::string::const_iterator,std::string::const_iterator> ri(s.begin(), s.end());
      std::vector<std::pair<std::string::const_iterator,std::string::const_iterator> > si;
      n = strtk::split(d, ri, mc::append(si), opt);              verdict("string delims, range of string iterators", n, offsets(s.begin(), si), want);
   }
   {
      std::deque<char> q(s.begin(), s.end());
      std::vector<std::pair<std::deque<char>::iterator,std::deque<char>::iterator> > si;
      strtk::multiple_delimiter_predicate<char> p(d.begin(), d.end());
      n = strtk::split(p, q.begin(), q.end(), mc::append(si), opt);
      verdict("deque iterators", n, offsets(q.begin(), si), want);
   }
   {
      std::vector<CR> fixed(want.size() + 1, CR((const char*)0, (const char*)0));
      n = strtk::split(strtk::multiple_char_delimiter_predicate(d), s, fixed.begin(), opt);
      mc::check(fixed.back().first == 0, "wrote more tokens than the model has");
      fixed.pop_back();
      verdict("output array", n, offsets(base, fixed), want);
   }
   {
      std::vector<std::string> v;
      n = strtk::split(d, s, strtk::range_to_type_back_inserter(v), opt);
      mc::check(v == texts(s, want) && n == want.size(), "string tokens differ");
   }
   mc::outcome(mc::Hash()(opt)(texts(s, want)));
}

MC_SECTION(small_all_overloads)
{
   const char* ds[] = { ",", ",;", "" };
   for (int k = 0; k < 3; ++k)
   {
      std::string d = ds[k];
      mc::strings("a,;", 0, mc::tier(6, 9), [&](const std::string& s) {
         for (O opt = 0; opt < 8; ++opt)
         {
            MC_CASE(o << "split(delims=" << d << ", input=" << s << ", options=" << opt << ")");
            every(s, d, opt, model_split(s, d, opt));
         }
      });
   }
}
MC_SECTION(unusual_bytes)
{
   // NUL, 0xFF and blanks as text and as delimiters
   const std::string nul(1, '\0'), hi("\xFF");
   const std::string ds[] = { "", nul, hi, " ", hi + nul, nul + hi };
   for (int k = 0; k < 6; ++k)
      mc::strings(std::string("a\0\xFF ", 4), 0, mc::tier(5, 7), [&](const std::string& s) {
         for (O opt = 0; opt < 8; ++opt)
         {
            MC_CASE(o << "split(delims=" << ds[k] << ", input=" << s << ", options=" << opt << ")");
            Toks w = model_split(s, ds[k], opt);
            if (ds[k].find('\0') == std::string::npos) { every(s, ds[k], opt, w); continue; }
            core(s, ds[k], opt, w);
            CRs out; size_t n = strtk::split(ds[k], s, mc::append(out), opt); verdict("string delims", n, offsets(s.data(), out), w); out.clear();
            if (ds[k].size() == 1) { n = strtk::split('\0', s, mc::append(out), opt); verdict("char delim", n, offsets(s.data(), out), w); }
         }
      });
}
MC_SECTION(in_context)
{
   mc::in_context("a,;", 1, mc::tier(3, 5), 'x', 'y', [&](const std::string& s) { for (const char* d : { ",", ",;", "x,", ";y" }) for (O opt = 0; opt < 8; ++opt) { MC_CASE(o << "split(delims=" << d << ", input=" << s << ", options=" << opt << ")"); every(s, d, opt, model_split(s, d, opt)); } });
}
MC_SECTION(delimiter_sets)
{
   // sets of 1..16 and of 255 delimiters: every member of every set, in every gap, and one character that is not in it
   std::string many; for (int c = 0; c < 256; ++c) if (c != 'a' && c) many += (char)c;
   for (size_t n = 1; n <= 17; ++n)
   {
      const std::string d = n == 17 ? many : many.substr(20 * (n % 5), n);
      for (size_t i = 0; i < d.size(); ++i)
      {
         const std::string x(1, d[i]), y(1, d[(i + 1) % d.size()]), z = n == 17 ? "a" : std::string(1, many[20 * (n % 5) + n]), s[] = { "a" + x + "a" + y + "a", x, x + y + "a" + z + y + x, "aa" + z + x + "aaa" + y };
         for (const std::string& t : s) for (O opt = 0; opt < 8; ++opt) { MC_CASE(o << "split(delims=" << d << ", input=" << t << ", options=" << opt << ")"); every(t, d, opt, model_split(t, d, opt)); }
      }
   }
}
static void lists_in_turn(size_t longest)
{
   const std::string s = "1,2;;3|4:5,;6|:7";
   mc::lists_in_turn(",;|:", longest, [&](const std::string& d) {
      for (O opt = 0; opt < 8; ++opt)
      {
         MC_CASE(o << "split(delims=" << d << ", input=" << s << ", options=" << opt << "), lists in turn");
         const Toks w = model_split(s, d, opt); CRs out; size_t n; const CR r(s.data(), s.data() + s.size());
         n = strtk::split(mc::same_place(d), s, mc::append(out), opt); verdict("c-string delims at the same place", n, offsets(s.data(), out), w); out.clear();
         n = strtk::split(mc::same_place(d), r, mc::append(out), opt); verdict("c-string delims at the same place, range", n, offsets(s.data(), out), w); out.clear();
         n = strtk::split(mc::same_place(d), s, out, opt); verdict("c-string delims at the same place, vector", n, offsets(s.data(), out), w);
         if (opt < 4) every(s, d, opt, w);
      }
   });
}
MC_SECTION(delimiter_lists_in_turn_2) { lists_in_turn(2); }
MC_SECTION(delimiter_lists_in_turn_3) { lists_in_turn(3); }
MC_SECTION(delimiter_lists_in_turn_4) { lists_in_turn(4); }
MC_SECTION(small_deep)
{
   mc::strings("a,", 0, mc::tier(13, 17), [&](const std::string& s) {
      for (O opt = 0; opt < 8; ++opt)
      {
         MC_CASE(o << "split(delims=\",\", input=" << s << ", options=" << opt << ")");
         Toks w = model_split(s, ",", opt);
         core(s, ",", opt, w);
         mc::outcome(mc::Hash()(opt)(w));
      }
   });
}
MC_SECTION(long_inputs)
{
   mc::long_strings(mc::tier(140, 300), 'x', '|', [&](const std::string& s) {
      for (O opt = 0; opt < 8; ++opt)
      {
         MC_CASE(o << "split(delims=\"|\", input=" << s << ", options=" << opt << ")");
         Toks w = model_split(s, "|", opt);
         core(s, "|", opt, w);
         mc::outcome(mc::Hash()(opt)(w));
      }
   });
}
MC_SECTION(huge_inputs)
{
   mc::huge_strings('x', '|', [&](const std::string& s, int pat) {
      for (O opt = 0; opt < 8; ++opt)
      {
         MC_CASE(o << "split of " << s.size() << " characters, pattern " << pat << ", options=" << opt);
         Toks w = model_split(s, "|", opt);
         core(s, "|", opt, w);
         if (s.size() < 600) every(s, "|", opt, w);
         if (opt < 4) { Toks w2 = model_split(s, "|;", opt); core(s, "|;", opt, w2); }
         mc::outcome(mc::Hash()(opt)(w));
      }
   });
}
MC_SECTION(every_delimiter_byte)
{
   std::string all;
   for (int c = 0; c < 256; ++c) all += (char)c;
   for (int d = 0; d < 256; ++d)
   {
      std::string delim(1, (char)d);
      strtk::single_delimiter_predicate<char> sp((char)d);
      strtk::single_delimiter_predicate<unsigned char> su((unsigned char)d);
      strtk::multiple_char_delimiter_predicate mp(delim);
      strtk::multiple_delimiter_predicate<char> lp(delim.data(), (size_t)1);
      strtk::multiple_delimiter_predicate<unsigned char> lu((const unsigned char*)delim.data(), (const unsigned char*)delim.data() + 1);
      for (int c = 0; c < 256; ++c)
      {
         MC_CASE(o << "delimiter byte " << d << " against character byte " << c);
         bool w = c == d;
         MC_TRUE(sp((char)c) == w);
         MC_TRUE(su((unsigned char)c) == w);
         MC_TRUE(mp((char)c) == w);
         MC_TRUE(mp((unsigned char)c) == w);
         MC_TRUE(lp((char)c) == w);
         MC_TRUE(lu((unsigned char)c) == w);
      }
      for (O opt = 0; opt < 8; ++opt)
      {
         MC_CASE(o << "split all 256 byte values on byte " << d << ", options=" << opt);
         Toks w = model_split(all, delim, opt);
         core(all, delim, opt, w);
         CRs out; size_t n = strtk::split(delim, all, mc::append(out), opt);
         verdict("string delims", n, offsets(all.data(), out), w); out.clear();
         n = strtk::split((char)d, all, mc::append(out), opt);
         verdict("char delim", n, offsets(all.data(), out), w);
         std::string two = delim + (char)(d ^ 0x80);
         Toks w2 = model_split(all, two, opt);
         core(all, two, opt, w2);
         mc::outcome(mc::Hash()(opt)(w)(w2));
      }
   }
}
MC_SECTION(delimiter_set_sizes)
{
   // 0..255 delimiters: the list-based predicate changes representation with size, the table one must not.
   std::string all;
   for (int c = 0; c < 256; ++c) all += (char)c;
   for (int n = 0; n <= 255; ++n)
      for (int step = 1; step <= 3; step += 2)
      {
         std::string d;
         for (int i = 0; i < n; ++i) d += (char)((i * step + 1) & 0xFF);
         std::string in = all; in += all.substr(0, 40);
         for (O opt = 0; opt < 8; ++opt)
         {
            MC_CASE(o << "split on " << n << " delimiters (stride " << step << "), options=" << opt);
            Toks w = model_split(in, d, opt);
            core(in, d, opt, w);
            strtk::multiple_delimiter_predicate<char> p(strtk::range::type(d));
            strtk::multiple_delimiter_predicate<int> pi(d.begin(), d.end());
            for (int c = 0; c < 256; ++c)
            {
               MC_TRUE(p((char)c) == (d.find((char)c) != std::string::npos));
               MC_TRUE(pi((int)(char)c) == (d.find((char)c) != std::string::npos));
            }
            mc::outcome(mc::Hash()(opt)(w));
         }
      }
}
MC_SECTION(user_predicates_and_elements)
{
   mc::strings("aexy", 0, mc::tier(7, 9), [&](const std::string& s) {
      for (O opt = 0; opt < 8; ++opt)
      {
         MC_CASE(o << "split(vowel predicate, input=" << s << ", options=" << opt << ")");
         Toks w = model_split(s, "ae", opt);
         CRs out;
         size_t n = strtk::split(Vowel(), s, mc::append(out), opt);
         verdict("user predicate", n, offsets(s.data(), out), w);
         out.clear();
         n = strtk::split(Vowel(), std::make_pair(s.data(), s.data() + s.size()), mc::append(out), opt);
         verdict("user predicate, range", n, offsets(s.data(), out), w);
         mc::outcome(mc::Hash()(opt)(w));
      }
   });
   for (size_t len = 0; len <= (size_t)mc::tier(6, 8); ++len)
      mc::tuples(4, len, [&](const std::vector<size_t>& t) {
         for (O opt = 0; opt < 8; ++opt)
         {
            std::vector<int> v(t.begin(), t.end());
            MC_CASE(o << "split of integers " << v << " on even values, options=" << opt);
            Toks w = model_split(v.size(), [&](size_t i) { return v[i] % 2 == 0; }, opt);
            std::vector<std::pair<std::vector<int>::iterator,std::vector<int>::iterator> > out;
            size_t n = strtk::split(Even(), v.begin(), v.end(), mc::append(out), opt);
            verdict("int elements", n, offsets(v.begin(), out), w);
            out.clear();
            const int dl[] = { 0, 2 };
            n = strtk::split(strtk::multiple_delimiter_predicate<int>(dl, dl + 2), v.begin(), v.end(), mc::append(out), opt);
            verdict("int delimiter list", n, offsets(v.begin(), out), w);
            mc::outcome(mc::Hash()(opt)(w));
         }
      });
}
MC_MAIN
