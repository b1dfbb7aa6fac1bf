// Wild-card matching: '*' matches zero or more characters, '?' zero or one.
#include "strtk.hpp"
#include "mc.hpp"
#include <list>
// declarative reference: memoised "pattern suffix i matches data suffix j"
static bool model(const std::string& p, const std::string& s, char star, char opt)
{
   std::vector<std::vector<char> > m(p.size() + 1, std::vector<char>(s.size() + 1, 0));
   for (size_t i = p.size() + 1; i-- > 0; )
      for (size_t j = s.size() + 1; j-- > 0; )
      {
         bool r;
         if (i == p.size()) r = j == s.size();
         else if (p[i] == star) r = m[i + 1][j] || (j < s.size() && m[i][j + 1]);
         else if (p[i] == opt)  r = m[i + 1][j] || (j < s.size() && m[i + 1][j + 1]);
         else r = j < s.size() && p[i] == s[j] && m[i + 1][j + 1];
         m[i][j] = r;
      }
   return m[0][0];
}
static void one(const std::string& p, const std::string& s)
{
   bool w = model(p, s, '*', '?');
   MC_EQM(strtk::match(p, s), w, "match(string)");
   mc::Buf<char> a(p), b(s);
   MC_EQM(strtk::match(a.begin(), a.end(), b.begin(), b.end(), '*', '?'), w, "match(range)");
   MC_EQM(strtk::match(p.begin(), p.end(), s.begin(), s.end(), '*', '?'), w, "match(iterators)");
   mc::outcome(w);
}
MC_SECTION(small)
{
   mc::strings("a*?", 0, mc::tier(7, 8), [&](const std::string& p) {
      MC_CASE(o << "pattern " << p << " against every string over {a,b} up to length 7");
      mc::strings("ab", 0, 7, [&](const std::string& s) { one(p, s); mc::outcome(mc::Hash()(p)(model(p, s, '*', '?'))); });
   });
}
MC_SECTION(in_context)
{
   const char* ps[] = { "*", "*a*", "x*y", "*ab*", "*a?b*", "x*a", "?*b", "*xa*y", "**b", "*ba*ab*", "*?" };
   mc::in_context("ab", 1, mc::tier(3, 5), 'x', 'y', [&](const std::string& s) { MC_CASE(o << "patterns against " << s); for (const char* p : ps) one(p, s); one(s, s); std::string q = s; q[q.size() / 2] = '?'; one(q, s); q[q.size() / 2] = '*'; one(q, s); q[0] = '*'; one(q, s); });
}
MC_SECTION(two_letters)
{
   mc::strings("ab*?", 0, mc::tier(5, 6), [&](const std::string& p) {
      MC_CASE(o << "pattern " << p << " against every string over {a,b} up to length 7");
      mc::strings("ab", 0, 7, [&](const std::string& s) { one(p, s); mc::outcome(mc::Hash()(p)(model(p, s, '*', '?'))); });
   });
}
MC_SECTION(other_wildcards)
{
   // other wild-card characters, '*' and '?' being ordinary then; element types other than char
   mc::strings("a%_*", 0, mc::tier(4, 5), [&](const std::string& p) {
      MC_CASE(o << "pattern " << p << " with wild cards % and _");
      mc::strings("a*?_", 0, 4, [&](const std::string& s) {
         bool w = model(p, s, '%', '_');
         MC_EQ(strtk::match(p.begin(), p.end(), s.begin(), s.end(), '%', '_'), w);
         std::vector<int> ip(p.begin(), p.end()), is(s.begin(), s.end());
         MC_EQ(strtk::match(ip.begin(), ip.end(), is.begin(), is.end(), (int)'%', (int)'_'), w);
         std::list<char> lp(p.begin(), p.end()), ls(s.begin(), s.end());
         MC_EQ(strtk::match(lp.begin(), lp.end(), ls.begin(), ls.end(), '%', '_'), w);
         mc::outcome(mc::Hash()(p)(s)(w));
      });
   });
}
MC_SECTION(every_byte)
{
   for (int c = 0; c < 256; ++c)
      for (int d = 0; d < 256; ++d)
      {
         MC_CASE(o << "bytes " << c << " and " << d);
         char x = (char)c, y = (char)d;
         std::string p; p += x; p += '*'; p += y; p += '?';
         std::string s; s += x; s += y; s += x;
         one(p, s); one(p, s.substr(0, 2)); one(p, s.substr(1)); one(std::string(1, x), std::string(1, y)); one(s, s); one(std::string("*") + x, s); one(std::string("?") + y, s);
      }
}
MC_SECTION(long_inputs)
{
   for (size_t n = 0; n <= (size_t)mc::tier(200, 500); ++n)
      for (int k = 0; k < 4; ++k)
      {
         MC_CASE(o << "long inputs, length " << n << " kind " << k);
         std::string s(n, 'a'); if (k & 1 && n) s[n - 1] = 'b'; if (k & 2 && n) s[0] = 'b';
         one("*a*a*b", s); one("a*", s); one("*b", s); one("*a?", s); one(std::string(n, '?'), s); one(std::string(n + 1, '?'), s); one(std::string(n ? n - 1 : 0, '?'), s); one(s, s); one("*" + s, s); one(s + "*", s);
         if (n) one(s.substr(1), s);
      }
}
MC_SECTION(huge)
{
   const std::vector<size_t> n = mc::scales(200, 70000);
   for (size_t i = 0; i < n.size(); ++i)
   {
      const size_t L = n[i];
      MC_CASE(o << "inputs of about " << L << " characters");
      std::string s = mc::letters(L);
      const size_t at[] = { 0, 1, L / 2, L - 2, L - 1, 255, 256, 65535 };
      #define VERDICT(p, s, w) do { MC_EQM(strtk::match(p, s), w, "match(string) of long inputs"); MC_EQM(strtk::match(p.begin(), p.end(), s.begin(), s.end(), '*', '?'), w, "match(iterators) of long inputs"); } while (0)
      if (L <= 1100) VERDICT(s, s, true); if (L <= 1100) { std::string p = s.substr(1); VERDICT(p, s, false); VERDICT(s, p, false); p = s + "a"; VERDICT(p, s, false); VERDICT(s, p, false); }
      for (int q = 0; q < 8; ++q)
      {
         if (at[q] >= L || L > 1100 || (L > 130 && q % 3)) continue;
         std::string t = s, p = s; t[at[q]] = '!'; VERDICT(s, t, false); VERDICT(t, s, false);
         p[at[q]] = '?'; VERDICT(p, t, true); VERDICT(p, s, true); p[at[q]] = '*'; VERDICT(p, t, true);
         std::string gone = s; gone.erase(at[q], 1); VERDICT(p, gone, true); p[at[q]] = '?'; VERDICT(p, gone, true); VERDICT(s, gone, false);
         std::string pre = s.substr(0, at[q]) + "*", post = "*" + s.substr(at[q]); VERDICT(pre, s, true); VERDICT(post, s, true);
         if (at[q] > 0) VERDICT(pre, t, true); if (at[q] > 0) VERDICT(post, t, false);
      }
      std::string a(L, 'a'), b = a + "b", q(L, '?'), stars(L, '*');
      if (L <= 1100) { VERDICT(q, a, true); { std::string q1 = q.substr(1); VERDICT(q1, a, false); } { std::string q2 = q + "?"; VERDICT(q2, a, true); } VERDICT(stars, a, true); }
      { const std::string stars(L, '*'), a(L, 'a'), few = "ab", x = "*" + std::string(L, '?') + "b", y = stars + "?b*", z = std::string(L, '?') + "c"; VERDICT(x, few, true); VERDICT(y, few, true); VERDICT(z, few, false); VERDICT(a, few, false); }
      const char* ps[] = { "*b", "a*b", "*a", "*a?b", "**", "?*", "*ab*", "b*", "*c*" };
      for (int k = 0; k < 9; ++k) { const std::string p = ps[k]; one(p, a); one(p, b); }
   }
}
MC_MAIN
