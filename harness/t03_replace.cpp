// replace_pattern / remove_pattern
#include "strtk.hpp"
#include "mc.hpp"
#include <list>
static std::string model(const std::string& s, const std::string& p, const std::string& r)
{
   if (p.empty()) return s;
   std::string w; size_t i = 0;
   while (i < s.size()) { if (s.compare(i, p.size(), p) == 0) { w += r; i += p.size(); } else w += s[i++]; }
   return w;
}
static void one(const std::string& s, const std::string& p, const std::string& r, bool lists = true)
{
   const std::string w = model(s, p, r);
   for (std::string n : mc::stale(w)) { strtk::replace_pattern(s, p, r, n); MC_EQM(n, w, "replace_pattern(string)"); }
   if (r.empty()) for (std::string n : mc::stale(w)) { strtk::remove_pattern(s, p, n); MC_EQM(n, w, "remove_pattern"); }
   {
      mc::Buf<char> out(w.size()), a(s), b(p), c(r);
      size_t n = strtk::replace_pattern(a.begin(), a.end(), b.begin(), b.end(), c.begin(), c.end(), out.begin());
      MC_EQM(n, w.size(), "replace_pattern(iterators) size"); MC_EQM(out.str(), w, "replace_pattern(iterators)");
   }
   if (lists)
   {
      std::string o; 
      MC_EQM(strtk::replace_pattern(s.begin(), s.end(), p.begin(), p.end(), r.begin(), r.end(), mc::append(o)), w.size(), "replace_pattern(back_inserter) size"); MC_EQM(o, w, "replace_pattern(back_inserter)");
   }
   mc::outcome(mc::Hash()(w));
}
MC_SECTION(small)
{
   mc::strings("ab", 0, 4, [&](const std::string& p) {
      const char* rs[] = { "", "a", "ab", "bab", "aaaaa", "xy" };
      for (int q = 0; q < 6; ++q)
         mc::strings("ab", 0, mc::tier(9, 12), [&](const std::string& s) { MC_CASE(o << "replace " << p << " by " << rs[q] << " in " << s); one(s, p, rs[q]); });
   });
}
MC_SECTION(in_context)
{
   const char* ps[] = { "a", "ab", "aab", "aba", "xa", "by", "x", "xx" }; const char* rs[] = { "", "a", "b", "ab", "aabb" };
   mc::in_context("ab", 2, mc::tier(5, 7), 'x', 'y', [&](const std::string& s) { for (int i = 0; i < 8; ++i) for (int q = 0; q < 5; ++q) { MC_CASE(o << "replace " << ps[i] << " by " << rs[q] << " in " << s); one(s, ps[i], rs[q]); } });
}
MC_SECTION(three_letters)
{
   mc::strings("abc", 1, 3, [&](const std::string& p) {
      const char* rs[] = { "", "c", "aba", "ccbbcc" };
      for (int q = 0; q < 4; ++q)
         mc::strings("abc", 0, mc::tier(6, 8), [&](const std::string& s) { MC_CASE(o << "replace " << p << " by " << rs[q] << " in " << s); one(s, p, rs[q]); });
   });
}
MC_SECTION(sizes)
{
   // many occurrences (the position list is pre-sized), long replacements, gaps of every length
   for (size_t occ = 0; occ <= (size_t)mc::tier(80, 200); ++occ)
      for (size_t gap = 0; gap <= 3; ++gap)
         for (size_t pl = 1; pl <= 9; pl += 2)
            for (size_t rl = 0; rl <= 40; rl += (rl < 10 ? 1 : 15))
            {
               MC_CASE(o << occ << " occurrences of a pattern of " << pl << " characters, gaps of " << gap << ", replacement of " << rl);
               std::string p(pl, 'p'), r(rl, 'r'), s = (occ & 1) ? "x" : ""; p[pl - 1] = 'q';
               for (size_t i = 0; i < occ; ++i) { s += p; s.append(gap + i % 3, 'g'); }
               one(s, p, r, occ < 10);
            }
   for (size_t n = 0; n <= (size_t)mc::tier(300, 1000); ++n)
   {
      MC_CASE(o << "a run of " << n << " pattern characters");
      one(std::string(n, 'a'), "a", "bb"); one(std::string(n, 'a'), "aa", "b"); one(std::string(n, 'a'), "aaa", "aa"); one(std::string(n, 'a'), std::string(n ? n : 1, 'a'), ""); one(std::string(n, 'a'), std::string(n + 1, 'a'), "z");
   }
}
MC_SECTION(every_byte)
{
   for (int c = 0; c < 256; ++c)
      for (int d = 0; d < 256; ++d)
      {
         const char x = (char)c, y = (char)d;
         MC_CASE(o << "replace byte pair " << c << "," << d);
         std::string s; s += x; s += y; s += y; s += x; s += y; s += x;
         std::string p; p += x; p += y;
         one(s, p, std::string(1, y), false); one(s, std::string(1, x), p, false);
      }
}
MC_SECTION(huge)
{
   mc::huge_strings('x', '|', [&](const std::string& s, int pat) {
      if (s.size() > 5000 && (s.size() < 60000 || pat == 0 || pat == 2 || pat == 4 || pat == 6 || pat == 7 || s.size() % 2 == 0)) return;
      MC_CASE(o << "replace in " << s.size() << " characters, pattern " << pat);
      one(s, "|", "", false); one(s, "|", "12", false); one(s, "x|", "y", false); one(s, "||", "abc", false); one(s, "xx", "xxx", false); one(s, "|x|", "", false);
   }, 0, 70000);
   // far apart occurrences, long patterns and long replacements
   const std::vector<size_t> n = mc::scales(200, 70000);
   for (size_t i = 0; i < n.size(); ++i)
   {
      MC_CASE(o << "long patterns, replacements and gaps of " << n[i]);
      const std::string gap(n[i], 'g'), p = mc::letters(n[i]), r(n[i], 'r');
      one("ab" + gap + "abz", "ab", "c", false); one("ab" + gap + "ab", "ab", "cdef", false); one(gap + "ab" + gap, "ab", "", false);
      one(p + p, p, "1", false); one("x" + p + gap + p + "y", p, r, false); one("x" + p.substr(1) + p, p, r + "s", false); one("ab-ab", "ab", r, false); one(p, p + "z", r, false);
   }
}
MC_MAIN
