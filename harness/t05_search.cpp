// Searching and comparing, with and without case.
#include "strtk.hpp"
#include "mc.hpp"
#include <deque>
#include <list>
typedef std::vector<std::string> SV;
static char up(char c) { return (c >= 'a' && c <= 'z') ? (char)(c - 32) : c; }
static std::string up(std::string s) { for (size_t i = 0; i < s.size(); ++i) s[i] = up(s[i]); return s; }
typedef std::pair<const char*,const char*> R;
static std::vector<size_t> model_all(const std::string& p, const std::string& s)
{ std::vector<size_t> r; if (p.empty()) return r; for (size_t i = s.find(p); i != std::string::npos; i = s.find(p, i + p.size())) r.push_back(i); return r; }
template <typename V> static std::vector<size_t> offs(const char* base, const V& v, size_t len)
{ std::vector<size_t> r; for (typename V::const_iterator i = v.begin(); i != v.end(); ++i) { r.push_back(i->first - base); if ((size_t)(i->second - i->first) != len) r.push_back(999999); } return r; }
static void one(const std::string& p, const std::string& s)
{
   const std::string P = up(p), S = up(s);
   mc::Buf<char> a(p), b(s);
   const char *ab = a.begin(), *ae = a.end(), *bb = b.begin(), *be = b.end();
   // comparison
   MC_EQ(strtk::imatch(p, s), P == S); MC_EQ(strtk::imatch(ab, ae, bb, be), P == S); MC_EQ(strtk::imatch(p.begin(), p.end(), s.begin(), s.end()), P == S);
   MC_EQ(strtk::imatch(strtk::range::adapter<char>(a.begin(), a.end()), strtk::range::adapter<char>(b.begin(), b.end())), P == S);
   // prefix and suffix
   bool bw = s.compare(0, p.size(), p) == 0 && p.size() <= s.size(), ibw = P.size() <= S.size() && S.compare(0, P.size(), P) == 0;
   bool ew = p.size() <= s.size() && s.compare(s.size() - p.size(), p.size(), p) == 0, iew = P.size() <= S.size() && S.compare(S.size() - P.size(), P.size(), P) == 0;
   MC_EQ(strtk::begins_with(p, s), bw); MC_EQ(strtk::begins_with(ab, ae, bb, be), bw); MC_EQ(strtk::ibegins_with(p, s), ibw); MC_EQ(strtk::ibegins_with(ab, ae, bb, be), ibw);
   MC_EQ(strtk::ends_with(p, s), ew); MC_EQ(strtk::ends_with(ab, ae, bb, be), ew); MC_EQ(strtk::iends_with(p, s), iew); MC_EQ(strtk::iends_with(ab, ae, bb, be), iew);
   // search
   if (!p.empty())
   {
      MC_EQ(strtk::index_of(p, s), s.find(p)); MC_EQ(strtk::ifind(p, s), S.find(P));
   }
   std::vector<size_t> w = model_all(p, s), iw = model_all(P, S);
   { std::vector<R> v; MC_EQ(strtk::find_all(p, s, mc::append(v)), w.size()); MC_EQM(offs(s.data(), v, p.size()), w, "find_all(string,inserter)"); }
   { std::deque<R> v; MC_EQ(strtk::find_all(p, s, v), w.size()); MC_EQM(offs(s.data(), v, p.size()), w, "find_all(string,sequence)"); }
   { std::vector<R> v; MC_EQ(strtk::find_all(ab, ae, bb, be, mc::append(v)), w.size()); MC_EQM(offs(bb, v, p.size()), w, "find_all(range,inserter)"); }
   { std::list<R> v; MC_EQ(strtk::find_all(ab, ae, bb, be, v), w.size()); MC_EQM(offs(bb, v, p.size()), w, "find_all(range,sequence)"); }
   { std::vector<R> v; MC_EQ(strtk::ifind_all(p, s, mc::append(v)), iw.size()); MC_EQM(offs(s.data(), v, p.size()), iw, "ifind_all(string,inserter)"); }
   { std::deque<R> v; MC_EQ(strtk::ifind_all(p, s, v), iw.size()); MC_EQM(offs(s.data(), v, p.size()), iw, "ifind_all(string,sequence)"); }
   { std::vector<R> v; MC_EQ(strtk::ifind_all(ab, ae, bb, be, mc::append(v)), iw.size()); MC_EQM(offs(bb, v, p.size()), iw, "ifind_all(range,inserter)"); }
   mc::outcome(mc::Hash()(w)(iw)(bw)(ibw)(ew)(iew));
}
MC_SECTION(small)
{
   mc::strings("aAb", 0, 3, [&](const std::string& p) {
      mc::strings("aAbB", 0, mc::tier(5, 7), [&](const std::string& s) { MC_CASE(o << "pattern " << p << " in " << s); one(p, s); });
   });
}
MC_SECTION(in_context)
{
   const char* ps[] = { "a", "ab", "AB", "xa", "By", "aab", "Xx" };
   mc::in_context("aAb", 1, mc::tier(3, 5), 'x', 'y', [&](const std::string& s) { MC_CASE(o << "patterns in " << s); for (const char* p : ps) one(p, s); });
}
MC_SECTION(periodic)
{
   mc::strings("aA", 1, 5, [&](const std::string& p) {
      mc::strings("ab", 0, mc::tier(9, 12), [&](const std::string& s) { MC_CASE(o << "pattern " << p << " in " << s); one(p, s); });
   });
}
MC_SECTION(every_byte)
{
   for (int c = 0; c < 256; ++c)
      for (int d = 0; d < 256; ++d)
      {
         MC_CASE(o << "bytes " << c << " and " << d);
         char x = (char)c, y = (char)d; MC_EQM(strtk::imatch_char(x, y), up(x) == up(y), "imatch_char");
         std::string s; s += x; s += y; s += y; s += x; std::string p; p += y; p += x; std::string q(1, up(x));
         one(p, s); one(q, s); one(std::string(1, x), std::string(1, y)); one(s, s);
      }
}
MC_SECTION(long_inputs)
{
   for (size_t n = 0; n <= (size_t)mc::tier(150, 400); ++n)
      for (size_t pl = 0; pl <= 40; pl += (pl < 5 ? 1 : 7))
         for (int k = 0; k < 3; ++k)
         {
            MC_CASE(o << "length " << n << " pattern length " << pl << " kind " << k);
            std::string s, p;
            for (size_t i = 0; i < n; ++i) s += (char)("abcdefg"[i % 7] - ((i % 3 == 0) ? 32 : 0));
            for (size_t i = 0; i < pl; ++i) p += k == 0 ? "abcdefg"[i % 7] : k == 1 ? "ABCDEFG"[(i + 3) % 7] : (n >= pl ? s[n - pl + i] : 'a');
            one(p, s);
         }
}
MC_SECTION(in_containers)
{
   const char* parts[] = { "", "Ab", "aB", "abc", "b" };
   for (size_t n = 0; n <= (size_t)mc::tier(4, 6); ++n)
      mc::tuples(5, n, [&](const std::vector<size_t>& t) {
         SV v; for (size_t i = 0; i < n; ++i) v.push_back(parts[t[i]]);
         const char* keys[] = { "", "ab", "ABC", "B", "x" };
         for (int q = 0; q < 5; ++q)
         {
            MC_CASE(o << "imatch " << keys[q] << " in container " << v);
            size_t w = 0; while (w < n && up(v[w]) != up(keys[q])) ++w;
            MC_EQ((size_t)(strtk::imatch(std::string(keys[q]), v.begin(), v.end()) - v.begin()), w);
            MC_EQ(strtk::imatch(std::string(keys[q]), v), w < n);
            MC_EQ(strtk::imatch(std::string(keys[q]), std::deque<std::string>(v.begin(), v.end())), w < n);
            MC_EQ(strtk::imatch(std::string(keys[q]), std::list<std::string>(v.begin(), v.end())), w < n);
            MC_EQ(strtk::imatch(std::string(keys[q]), std::set<std::string>(v.begin(), v.end())), w < n); { typedef std::greater<std::string> G; MC_EQ(strtk::imatch(std::string(keys[q]), std::set<std::string,G>(v.begin(), v.end())), w < n); MC_EQ(strtk::imatch(std::string(keys[q]), std::multiset<std::string,G>(v.begin(), v.end())), w < n); }
            MC_EQ(strtk::imatch(std::string(keys[q]), std::multiset<std::string>(v.begin(), v.end())), w < n);
            mc::outcome(mc::Hash()(q)(w)(n));
         }
      });
}
MC_SECTION(huge)
{
   mc::huge_strings('a', 'B', [&](const std::string& s, int pat) {
      if (s.size() > 5000 && (s.size() < 60000 || pat == 0 || pat == 2 || pat == 4 || pat == 6 || pat == 7 || s.size() % 2 == 0)) return;
      MC_CASE(o << "search in " << s.size() << " characters, pattern " << pat);
      one("b", s); one("Ba", s); one("aB", s); one("aa", s); if (s.size() < 5000) { one("BB", s); one("aBa", s); one("A", s); }
   }, 0, 70000);
   const std::vector<size_t> n = mc::scales(31, 70000);
   for (size_t i = 0; i < n.size(); ++i)
   {
      const size_t L = n[i];
      MC_CASE(o << "patterns of about " << L << " characters");
      std::string s = mc::letters(L); for (size_t k = 0; k < L; k += 2) s[k] ^= 0x20;
      one(s, s); one(up(s), s); one(s, up(s)); one(s.substr(1), s); one(s.substr(0, L - 1), s); one(s, s.substr(1)); one(s, "x" + s + "y"); one(up(s), s + "-" + s); one(s + "q", s);
      const size_t at[] = { 0, 1, 15, L / 2, L - 2, L - 1, 255, 256, 65535 };
      for (int q = 0; q < 9; ++q) { if (at[q] >= L) continue; std::string t = s; t[at[q]] = '!'; one(t, s); one(s, t); one(up(s), t); one(s, "zz" + t); one(s, t + "zz"); t[at[q]] = s[at[q]] ^ 0x20; one(t, s); }
   }
   // containers of many words, the match at every place
   SV v; for (int i = 0; i < 700; ++i) v.push_back("Word" + std::to_string(i));
   for (int i = 0; i < 705; ++i)
   {
      MC_CASE(o << "imatch of word " << i << " among 700");
      const std::string k = "wORD" + std::to_string(i);
      MC_EQ((size_t)(strtk::imatch(k, v.begin(), v.end()) - v.begin()), (size_t)std::min(i, 700)); MC_EQ(strtk::imatch(k, v), i < 700);
      if (i % 50 == 0 || i > 690 || i == 255 || i == 256) { MC_EQ(strtk::imatch(k, std::set<std::string>(v.begin(), v.end())), i < 700); MC_EQ(strtk::imatch(k, std::multiset<std::string>(v.begin(), v.end())), i < 700); MC_EQ(strtk::imatch(k, std::deque<std::string>(v.begin(), v.end())), i < 700); MC_EQ(strtk::imatch(k, std::list<std::string>(v.begin(), v.end())), i < 700); }
   }
}
MC_MAIN
