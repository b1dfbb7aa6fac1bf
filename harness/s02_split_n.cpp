#include "split_model.hpp"
#include <deque>
typedef strtk::split_options::type O;
static void verdict(const char* what, size_t n, const Toks& got, const Toks& want)
{
   if (got != want) { mc::Out o; o << what << ": got " << got << " want " << want; mc::fail(o.str()); }
   if (n != want.size()) { mc::Out o; o << what << ": returned " << n << " want " << want.size(); mc::fail(o.str()); }
}
static void core(const std::string& s, const std::string& d, size_t limit, O opt, const Toks& want)
{
   mc::Buf<char> b(s);
   const char* p = b.begin(); const char* q = b.end();
   CRs out; size_t n;
   if (d.size() == 1)
   {
      n = strtk::split_n(strtk::single_delimiter_predicate<char>(d[0]), p, q, limit, mc::append(out), opt);
      verdict("single", n, offsets(p, out), want); out.clear();
   }
   n = strtk::split_n(strtk::multiple_char_delimiter_predicate(d), p, q, limit, mc::append(out), opt);
   verdict("multi-table", n, offsets(p, out), want); out.clear();
   n = strtk::split_n(d, p, q, limit, mc::append(out), opt);
   verdict("string delims, range", n, offsets(p, out), want);
}
static void every(const std::string& s, const std::string& d, size_t limit, O opt, const Toks& want)
{
   core(s, d, limit, opt, want);
   const char* base = s.data();
   CRs out; size_t n;
   n = strtk::split_n(d, s, limit, mc::append(out), opt);           verdict("string delims", n, offsets(base, out), want); out.clear();
   n = strtk::split_n(d.c_str(), s, limit, mc::append(out), opt);   verdict("c-string delims", n, offsets(base, out), want); out.clear();
   n = strtk::split_n(strtk::multiple_char_delimiter_predicate(d), s, limit, mc::append(out), opt);
   verdict("predicate, string", n, offsets(base, out), want); out.clear();
   if (d.size() == 1) { n = strtk::split_n(d[0], s, limit, mc::append(out), opt); verdict("char delim", n, offsets(base, out), want); out.clear(); }
   std::vector<std::pair<std::string::const_iterator,std::string::const_iterator> > si;
   n = strtk::split_n(d, s.begin(), s.end(), limit, mc::append(si), opt);
   verdict("string iterators", n, offsets(s.begin(), si), want);
   std::deque<char> q(s.begin(), s.end());
   std::vector<std::pair<std::deque<char>::iterator,std::deque<char>::iterator> > di;
   n = strtk::split_n(strtk::multiple_delimiter_predicate<char>(d.begin(), d.end()), q.begin(), q.end(), limit, mc::append(di), opt);
   verdict("deque iterators", n, offsets(q.begin(), di), want);
   // An output array with exactly room for the tokens promised.
   std::vector<CR> fixed(std::min<size_t>(limit, want.size()) + 1, CR((const char*)0, (const char*)0));
   n = strtk::split_n(d, s, limit, fixed.begin(), opt);
   mc::check(fixed.back().first == 0, "wrote more tokens than requested");
}
static void limits(const std::string& s, const std::string& d, O opt, bool all)
{
   Toks full = model_split(s, d, opt);
   std::vector<size_t> ls;
   for (size_t i = 0; i <= full.size() + 1; ++i) if (all || i < 4 || i + 3 > full.size()) ls.push_back(i);
   ls.push_back((size_t)-1); ls.push_back((size_t)1 << 32);
   for (size_t k = 0; k < ls.size(); ++k)
   {
      size_t limit = ls[k];
      MC_CASE(o << "split_n(delims=" << d << ", input=" << s << ", n=" << limit << ", options=" << opt << ")");
      Toks want(full.begin(), full.begin() + std::min(limit, full.size()));
      if (all) every(s, d, limit, opt, want); else core(s, d, limit, opt, want);
      mc::outcome(mc::Hash()(opt)(want));
   }
}
MC_SECTION(small_all_overloads)
{
   const char* ds[] = { ",", ",;", "" };
   for (int k = 0; k < 3; ++k)
      mc::strings("a,;", 0, mc::tier(5, 8), [&](const std::string& s) { for (O opt = 0; opt < 8; ++opt) limits(s, ds[k], opt, true); });
}
MC_SECTION(unusual_bytes)
{
   const std::string ds[] = { "", "\xFF", " ", "\xFF " };
   for (int k = 0; k < 4; ++k)
      mc::strings(std::string("a\0\xFF ", 4), 0, mc::tier(4, 6), [&](const std::string& s) { for (O opt = 0; opt < 8; ++opt) limits(s, ds[k], opt, true); });
}
MC_SECTION(in_context)
{
   mc::in_context("a,;", 1, mc::tier(2, 4), 'x', 'y', [&](const std::string& s) { for (O opt = 0; opt < 8; ++opt) { limits(s, ",", opt, true); limits(s, ",;", opt, true); } });
}
MC_SECTION(delimiter_lists_in_turn)
{
   const std::string s = "1,2;;3|4:5,;6|:7";
   mc::lists_in_turn(",;|:", 4, [&](const std::string& d) {
      for (O opt = 0; opt < 4; ++opt) { limits(s, d, opt, false); const Toks w = model_split(s, d, opt); CRs out; const size_t n = strtk::split_n(mc::same_place(d), s, 1000, mc::append(out), opt); verdict("c-string delims at the same place", n, offsets(s.data(), out), w); every(s, d, 3, opt, Toks(w.begin(), w.begin() + std::min<size_t>(3, w.size()))); }
   });
}
MC_SECTION(small_deep)
{ mc::strings("a,", 0, mc::tier(10, 14), [&](const std::string& s) { for (O opt = 0; opt < 8; ++opt) limits(s, ",", opt, true); }); }
MC_SECTION(long_inputs)
{
   mc::long_strings(mc::tier(140, 300), 'x', '|', [&](const std::string& s) { for (O opt = 0; opt < 8; ++opt) limits(s, "|", opt, false); });
   for (int d = 0; d < 256; ++d)
   {
      std::string s;
      for (int c = 0; c < 256; ++c) { s += (char)c; if (c % 7 == 0) s += (char)d; }
      for (O opt = 0; opt < 8; ++opt) limits(s, std::string(1, (char)d), opt, false);
   }
}
MC_SECTION(huge_inputs)
{
   mc::huge_strings('x', '|', [&](const std::string& s, int pat) {
      for (O opt = 0; opt < 8; ++opt)
      {
         Toks full = model_split(s, "|", opt);
         std::vector<size_t> ls; ls.push_back(full.size()); if (s.size() < 30000) { ls.push_back(1); ls.push_back((size_t)-1); ls.push_back((size_t)1 << 32); ls.push_back(((size_t)1 << 32) + 2); }
         const size_t mid[] = { 255,256,257,65535,65536,65537 };
         for (size_t k = 0; k < 6; ++k) if (mid[k] < full.size()) ls.push_back(mid[k]);
         for (size_t k = 0; k < ls.size(); ++k)
         {
            const size_t limit = ls[k];
            MC_CASE(o << "split_n of " << s.size() << " characters, pattern " << pat << ", n=" << limit << ", options=" << opt);
            Toks want(full.begin(), full.begin() + std::min(limit, full.size()));
            if (s.size() < 300) every(s, "|", limit, opt, want); else core(s, "|", limit, opt, want);
            mc::outcome(mc::Hash()(opt)(want));
         }
      }
   });
}
MC_MAIN
