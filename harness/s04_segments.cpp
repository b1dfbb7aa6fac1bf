#include "split_model.hpp"
#include <deque>
#include <list>
namespace ft = strtk::find_type; namespace fm = strtk::find_mode;

// ---- fixed-width fields
static Toks model_offsets(size_t n, const std::vector<int>& w, bool rotate)
{
   Toks r; size_t pos = 0, k = 0;
   while (pos < n)
   {
      if (k == w.size()) { if (!rotate) break; k = 0; }
      if (w[k] <= 0) break;
      size_t len = std::min<size_t>(w[k], n - pos);
      r.push_back(Tok(pos, pos + len)); pos += len; ++k;
   }
   return r;
}
template <typename P>
static void offs(const P& p, const std::vector<int>& w, bool rotate, size_t n)
{
   std::string s; for (size_t i = 0; i < n; ++i) s += (char)('A' + i % 50);
   MC_CASE(o << "offset_splitter(widths=" << w << ", rotate=" << rotate << ", " << n << " characters)");
   mc::Buf<char> b(s);
   Toks want = model_offsets(n, w, rotate);
   CRs out;
   p.reset();
   size_t c = strtk::offset_splitter((const char*)b.begin(), (const char*)b.end(), p, mc::append(out));
   mc::eq(offsets((const char*)b.begin(), out), want, "fields (range)");
   mc::eq(c, want.size(), "count (range)");
   out.clear(); p.reset();
   c = strtk::offset_splitter(s, p, mc::append(out));
   mc::eq(offsets(s.data(), out), want, "fields (string)");
   mc::eq(c, want.size(), "count (string)");
   std::vector<std::string> v; p.reset();
   strtk::offset_splitter(s, p, strtk::range_to_type_back_inserter(v));
   mc::check(v == texts(s, want), "field texts");
   mc::eq(p.size(), w.size(), "number of widths");
   mc::outcome(mc::Hash()(rotate)(want));
}
template <size_t N>
static void array_offs(const std::vector<int>& w, bool rotate, size_t n)
{ int a[N]; for (size_t i = 0; i < N; ++i) a[i] = w[i]; strtk::offset_predicate<N> p(a, rotate); offs(p, w, rotate, n); }
MC_SECTION(offset_small)
{
   const size_t maxn = mc::tier(11, 16);
   for (int rotate = 0; rotate < 2; ++rotate)
      for (size_t n = 0; n <= maxn; ++n)
      {
         mc::tuples(5, 1, [&](const std::vector<size_t>& t) { std::vector<int> w(t.begin(), t.end()); array_offs<1>(w, rotate, n); offs(strtk::offsets(w[0], (bool)rotate), w, rotate, n); });
         mc::tuples(5, 2, [&](const std::vector<size_t>& t) { std::vector<int> w(t.begin(), t.end()); array_offs<2>(w, rotate, n); offs(strtk::offsets(w[0], w[1], (bool)rotate), w, rotate, n); });
         mc::tuples(4, 3, [&](const std::vector<size_t>& t) { std::vector<int> w(t.begin(), t.end()); for (auto& x : w) x -= 1; array_offs<3>(w, rotate, n); offs(strtk::offsets(w[0], w[1], w[2], (bool)rotate), w, rotate, n); });
         mc::tuples(4, 4, [&](const std::vector<size_t>& t) { std::vector<int> w(t.begin(), t.end()); array_offs<4>(w, rotate, n); offs(strtk::offsets(w[0], w[1], w[2], w[3], (bool)rotate), w, rotate, n); });
      }
}
MC_SECTION(offset_arities)
{
   // every arity, distinct widths (so a swapped or dropped argument shows), every total length
   for (int rotate = 0; rotate < 2; ++rotate)
      for (int pat = 0; pat < 3; ++pat)
         for (size_t n = 0; n <= (size_t)mc::tier(100, 220); ++n)
         {
            int a[12]; for (int i = 0; i < 12; ++i) a[i] = pat == 0 ? i + 1 : pat == 1 ? 12 - i : (i * 7) % 12 + 1;
            std::vector<int> w(a, a + 12);
            const bool r = rotate;
            #define W(k) std::vector<int>(a, a + k)
            offs(strtk::offsets(a[0], r), W(1), r, n);
            offs(strtk::offsets(a[0],a[1], r), W(2), r, n);
            offs(strtk::offsets(a[0],a[1],a[2], r), W(3), r, n);
            offs(strtk::offsets(a[0],a[1],a[2],a[3], r), W(4), r, n);
            offs(strtk::offsets(a[0],a[1],a[2],a[3],a[4], r), W(5), r, n);
            offs(strtk::offsets(a[0],a[1],a[2],a[3],a[4],a[5], r), W(6), r, n);
            offs(strtk::offsets(a[0],a[1],a[2],a[3],a[4],a[5],a[6], r), W(7), r, n);
            offs(strtk::offsets(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7], r), W(8), r, n);
            offs(strtk::offsets(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8], r), W(9), r, n);
            offs(strtk::offsets(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9], r), W(10), r, n);
            offs(strtk::offsets(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10], r), W(11), r, n);
            offs(strtk::offsets(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11], r), W(12), r, n);
         }
}

MC_SECTION(offset_large)
{
   // wide fields and long inputs: every combination of widths and total lengths around powers of two
   const int wide[] = { 1, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 65535, 65536, 65537 };
   const size_t total[] = { 126,127,128,129,254,255,256,257,258,511,512,513,767,768,769,1024,65534,65535,65536,65537,65538,131072,131073,131075 };
   for (int rotate = 0; rotate < 2; ++rotate)
      for (size_t a = 0; a < 13; ++a)
         for (size_t k = 0; k < sizeof(total) / sizeof(total[0]); ++k)
         {
            std::vector<int> w(1, wide[a]);
            if (!(rotate && wide[a] < 100 && total[k] > 2000)) { array_offs<1>(w, rotate, total[k]); offs(strtk::offsets(w[0], (bool)rotate), w, rotate, total[k]); }
            for (size_t b = 0; b < 13; ++b)
            {
               if ((rotate && wide[a] + wide[b] < 100 && total[k] > 2000) || (total[k] > 60000 && (a + b) % 3)) continue;
               w.resize(1); w.push_back(wide[b]); array_offs<2>(w, rotate, total[k]); offs(strtk::offsets(w[0], w[1], (bool)rotate), w, rotate, total[k]);
               w.push_back(wide[(a + b) % 13]); array_offs<3>(w, rotate, total[k]); offs(strtk::offsets(w[0], w[1], w[2], (bool)rotate), w, rotate, total[k]);
            }
         }
}

// ---- a pair split at the first delimiter
static void pair_case(const std::string& s, char d)
{
   MC_CASE(o << "split_pair(delimiter=" << d << ", input=" << s << ")");
   mc::Buf<char> b(s);
   size_t p = s.find(d);
   bool want = p != std::string::npos && p + 1 < s.size();
   const char* B = b.begin(); const char* E = b.end();
   CR v1(B,B), v2(B,B);
   bool got = strtk::split_pair(B, E, strtk::single_delimiter_predicate<char>(d), v1, v2);
   mc::eq(got, want, "result (range)");
   if (want) { mc::eq(Tok(v1.first - B, v1.second - B), Tok(0, p), "first (range)"); mc::eq(Tok(v2.first - B, v2.second - B), Tok(p + 1, s.size()), "second (range)"); }
   const char* S = s.data();
   v1 = v2 = CR(S,S);
   got = strtk::split_pair(d, s, v1, v2);
   mc::eq(got, want, "result (char)");
   if (want) { mc::eq(Tok(v1.first - S, v1.second - S), Tok(0, p), "first (char)"); mc::eq(Tok(v2.first - S, v2.second - S), Tok(p + 1, s.size()), "second (char)"); }
   std::string two = std::string(1, d) + ";";
   p = s.find_first_of(two);
   want = p != std::string::npos && p + 1 < s.size();
   v1 = v2 = CR(S,S);
   got = strtk::split_pair(strtk::multiple_char_delimiter_predicate(two), s, v1, v2);
   mc::eq(got, want, "result (multi)");
   if (want) { mc::eq(Tok(v1.first - S, v1.second - S), Tok(0, p), "first (multi)"); mc::eq(Tok(v2.first - S, v2.second - S), Tok(p + 1, s.size()), "second (multi)"); }
   mc::outcome(mc::Hash()(want)(p));
}
MC_SECTION(pair_small) { mc::strings("a=;", 0, mc::tier(8, 10), [&](const std::string& s) { pair_case(s, '='); }); }
MC_SECTION(pair_in_context) { mc::in_context("a=;", 1, mc::tier(4, 6), 'x', 'y', [&](const std::string& s) { pair_case(s, '='); }); }
MC_SECTION(pair_long)
{
   mc::long_strings(mc::tier(140, 300), 'x', '=', [&](const std::string& s) { pair_case(s, '='); });
   for (int d = 0; d < 256; ++d) { std::string s; for (int c = 0; c < 256; ++c) s += (char)c; pair_case(s, (char)d); pair_case(s + s, (char)d); }
}

MC_SECTION(pair_huge) { mc::huge_strings('x', '=', [&](const std::string& s, int) { pair_case(s, '='); }); }

// ---- runs of a character class
typedef bool (*Cls)(char);
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool low(char c) { return c >= 'a' && c <= 'z'; }
static bool upp(char c) { return c >= 'A' && c <= 'Z'; }
static bool let(char c) { return low(c) || upp(c); }
static bool ald(char c) { return let(c) || dig(c); }
static Cls cls[] = { dig, let, low, upp, ald };
static ft::type types[] = { ft::digits, ft::letters, ft::lowercase_letters, ft::uppercase_letters, ft::letters_digits };
static Tok model_find(const std::string& s, size_t from, size_t n, Cls p, bool exact)
{
   size_t i = from;
   while (i < s.size())
   {
      size_t j = i;
      while (j < s.size() && p(s[j]) && !(exact && j - i == n)) ++j;
      if (j - i >= n) return exact ? Tok(i, i + n) : Tok(i, j);
      i = j + 1;
   }
   return Tok(s.size(), s.size());
}
static void run_case(const std::string& s, size_t n, int t, bool exact)
{
   MC_CASE(o << "runs of class " << t << " in " << s << ", n=" << n << (exact ? " exactly" : " at least"));
   mc::Buf<char> b(s);
   char* B = b.begin();
   fm::type mode = exact ? fm::exactly_n : fm::atleast_n;
   typedef std::pair<char*,char*> R;
   R r = strtk::find_n_consecutive<char*>(n, types[t], mode, R(B, b.end()));
   Tok w = model_find(s, 0, n, cls[t], exact);
   mc::eq(Tok(r.first - B, r.second - B), w, "find_n_consecutive");
   bool m = strtk::match_n_consecutive<char*>(n, types[t], mode, R(B, b.end()));
   size_t lead = 0; while (lead < s.size() && cls[t](s[lead])) ++lead;
   mc::eq(m, lead >= n, "match_n_consecutive");
   Toks all;
   for (size_t p = 0; ; ) { Tok x = model_find(s, p, n, cls[t], exact); if (x.first == s.size()) break; all.push_back(x); p = x.second; }
   CRs out;
   size_t c = strtk::split_on_consecutive(n, types[t], mode, s, mc::append(out));
   mc::eq(offsets(s.data(), out), all, "split_on_consecutive"); mc::eq(c, all.size(), "split_on_consecutive count");
   for (size_t lim = 1; lim <= 3; ++lim)
   {
      out.clear();
      c = strtk::split_on_consecutive_n(lim, n, types[t], mode, s, mc::append(out));
      Toks wl(all.begin(), all.begin() + std::min(lim, all.size()));
      mc::eq(offsets(s.data(), out), wl, "split_on_consecutive_n"); mc::eq(c, wl.size(), "split_on_consecutive_n count");
      if (exact)
      {
         out.clear(); c = strtk::split_on_consecutive_n(lim, n, cls[t], s, mc::append(out));
         mc::eq(offsets(s.data(), out), wl, "split_on_consecutive_n(predicate)"); mc::eq(c, wl.size(), "split_on_consecutive_n(predicate) count");
         out.clear(); c = strtk::split_on_consecutive_n(lim, n, cls[t], B, b.end(), mc::append(out));
         mc::eq(offsets((const char*)B, out), wl, "split_on_consecutive_n(predicate, char*)"); mc::eq(c, wl.size(), "count");
         out.clear(); c = strtk::split_on_consecutive_n(lim, n, cls[t], (const unsigned char*)B, (const unsigned char*)b.end(), mc::append(out));
         mc::eq(offsets((const char*)B, out), wl, "split_on_consecutive_n(predicate, unsigned char*)"); mc::eq(c, wl.size(), "count");
      }
      out.clear(); c = strtk::split_on_consecutive_n(lim, n, types[t], mode, (const char*)B, (const char*)b.end(), mc::append(out));
      mc::eq(offsets((const char*)B, out), wl, "split_on_consecutive_n(char*)"); mc::eq(c, wl.size(), "count");
      out.clear(); c = strtk::split_on_consecutive_n(lim, n, types[t], mode, (const unsigned char*)B, (const unsigned char*)b.end(), mc::append(out));
      mc::eq(offsets((const char*)B, out), wl, "split_on_consecutive_n(unsigned char*)"); mc::eq(c, wl.size(), "count");
   }
   out.clear(); c = strtk::split_on_consecutive(n, types[t], mode, (const char*)B, (const char*)b.end(), mc::append(out));
   mc::eq(offsets((const char*)B, out), all, "split_on_consecutive(char*)"); mc::eq(c, all.size(), "count");
   out.clear(); c = strtk::split_on_consecutive(n, types[t], mode, (const unsigned char*)B, (const unsigned char*)b.end(), mc::append(out));
   mc::eq(offsets((const char*)B, out), all, "split_on_consecutive(unsigned char*)"); mc::eq(c, all.size(), "count");
   if (exact)
   {
      out.clear();
      c = strtk::split_on_consecutive(n, cls[t], s, mc::append(out));
      mc::eq(offsets(s.data(), out), all, "split_on_consecutive(predicate)"); mc::eq(c, all.size(), "split_on_consecutive(predicate) count");
      out.clear(); c = strtk::split_on_consecutive(n, cls[t], (const char*)B, (const char*)b.end(), mc::append(out));
      mc::eq(offsets((const char*)B, out), all, "split_on_consecutive(predicate, char*)"); mc::eq(c, all.size(), "count");
      out.clear(); c = strtk::split_on_consecutive(n, cls[t], (const unsigned char*)B, (const unsigned char*)b.end(), mc::append(out));
      mc::eq(offsets((const char*)B, out), all, "split_on_consecutive(predicate, unsigned char*)"); mc::eq(c, all.size(), "count");
   }
   if (exact)
   {  // told that the predicate has state, the library asks it once for each character; for one without state nothing else changes
      out.clear(); c = strtk::split_on_consecutive(n, cls[t], s, mc::append(out), true);
      mc::eq(offsets(s.data(), out), all, "split_on_consecutive(predicate, stateful)"); mc::eq(c, all.size(), "split_on_consecutive(predicate, stateful) count");
      out.clear(); c = strtk::split_on_consecutive(n, cls[t], (const char*)B, (const char*)b.end(), mc::append(out), true);
      mc::eq(offsets((const char*)B, out), all, "split_on_consecutive(predicate, char*, stateful)"); mc::eq(c, all.size(), "count");
      out.clear(); c = strtk::split_on_consecutive(n, cls[t], (const unsigned char*)B, (const unsigned char*)b.end(), mc::append(out), true);
      mc::eq(offsets((const char*)B, out), all, "split_on_consecutive(predicate, unsigned char*, stateful)"); mc::eq(c, all.size(), "count");
   }
   mc::outcome(mc::Hash()(t)(exact)(all));
}
// predicates with a state: the k-th character asked in a search, whether the character differs from / follows the one asked before
struct Step { int kind, k; char last; Step(int kd = 0) : kind(kd), k(0), last('b') {} bool operator()(char c)
{ bool r = kind == 0 ? ++k % 3 != 0 : kind == 1 ? c != last : kind == 2 ? c == last : (c == 'b' ? ++k : k) % 2 == 0; last = c; return r; } };
static void stateful_case(const std::string& s, size_t n, int kind)
{
   MC_CASE(o << "split_on_consecutive of " << s << ", n=" << n << ", stateful predicate " << kind);
   Toks all;
   for (size_t p = 0; p < s.size(); )
   {
      Step q(kind); size_t run = 0, i = p;
      for (; i < s.size() && run < n; ++i) run = q(s[i]) ? run + 1 : 0;
      if (run < n) break;
      all.push_back(Tok(i - n, i)); p = i;
   }
   CRs out; mc::Buf<char> b(s); const char* B = b.begin();
   size_t c = strtk::split_on_consecutive(n, Step(kind), s, mc::append(out), true);
   mc::eq(offsets(s.data(), out), all, "tokens"); mc::eq(c, all.size(), "count");
   out.clear(); c = strtk::split_on_consecutive(n, Step(kind), B, (const char*)b.end(), mc::append(out), true);
   mc::eq(offsets(B, out), all, "tokens(char*)"); mc::eq(c, all.size(), "count(char*)");
   mc::outcome(mc::Hash()(kind)(all));
}
MC_SECTION(runs_stateful)
{
   mc::strings("ab", 0, mc::tier(11, 14), [&](const std::string& s) { for (size_t n = 1; n <= 5; ++n) for (int k = 0; k < 4; ++k) stateful_case(s, n, k); });
   mc::huge_strings('b', 'a', [&](const std::string& s, int) { for (int k = 0; k < 4; ++k) { stateful_case(s, 1, k); stateful_case(s, 2, k); stateful_case(s, 3, k); } });
}
MC_SECTION(runs_small)
{
   mc::strings("1aB-", 0, mc::tier(6, 8), [&](const std::string& s) { for (int t = 0; t < 5; ++t) for (size_t n = 1; n <= 4; ++n) { run_case(s, n, t, true); run_case(s, n, t, false); } });
}
MC_SECTION(runs_two_letters)
{
   mc::strings("7-", 0, mc::tier(11, 14), [&](const std::string& s) { for (size_t n = 1; n <= 5; ++n) { run_case(s, n, 0, true); run_case(s, n, 0, false); } });
}
MC_SECTION(runs_classes_and_lengths)
{
   for (int c = 0; c < 256; ++c)
      for (int t = 0; t < 5; ++t)
      {
         std::string s = std::string("--") + (char)c + (char)c + "-" + (char)c;
         for (size_t n = 1; n <= 3; ++n) { run_case(s, n, t, true); run_case(s, n, t, false); }
      }
   for (size_t len = 0; len <= (size_t)mc::tier(40, 80); ++len)
      for (size_t n = 1; n <= len + 1; ++n)
         for (size_t gap = 0; gap <= 2; ++gap)
         {
            std::string s = std::string(gap, '-') + std::string(len, 'q') + std::string(gap, '-') + std::string(len / 2, 'q');
            run_case(s, n, 1, true); run_case(s, n, 1, false);
         }
}
static void runs_of(size_t n, const std::string& s, int t)
{ for (int exact = 0; exact < 2; ++exact) run_case(s, n, t, exact); }
MC_SECTION(runs_huge)
{
   mc::huge_strings('-', '7', [&](const std::string& s, int) { runs_of(1, s, 0); runs_of(2, s, 0); runs_of(s.size() / 2, s, 4); if (s.size() % 2) runs_of(s.size() / 2 + 1, s, 0); runs_of(s.size(), s, 0); runs_of(s.size() + 1, s, 0); });
   const size_t len[] = { 255,256,257,65535,65536,65537 };
   for (size_t a = 0; a < 6; ++a) for (int d = -1; d <= 1; ++d)
   {
      const std::string r(len[a], 'k'), s = r + "-" + r + r + "--" + r.substr(1) + "-" + r;
      runs_of(len[a] + d, s, 1); runs_of(2 * len[a] + d, s, 3);
   }
   // more runs than any token limit tried, at every limit
   std::string many; for (int i = 0; i < 700; ++i) many += (i % 3) ? "12 " : "345-";
   for (size_t lim = 1; lim <= 710; ++lim)
      for (int exact = 0; exact < 2; ++exact)
      {
         MC_CASE(o << "split_on_consecutive_n(" << lim << " tokens)" << (exact ? " exactly" : " at least"));
         Toks all; for (size_t p = 0; ; ) { Tok x = model_find(many, p, 2, cls[0], exact); if (x.first == many.size()) break; all.push_back(x); p = x.second; }
         CRs out; size_t c = strtk::split_on_consecutive_n(lim, 2, types[0], exact ? fm::exactly_n : fm::atleast_n, many, mc::append(out));
         all.resize(std::min(lim, all.size()));
         mc::eq(offsets(many.data(), out), all, "split_on_consecutive_n"); mc::eq(c, all.size(), "count");
      }
}
MC_MAIN
