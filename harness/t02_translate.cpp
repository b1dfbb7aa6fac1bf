// Character-by-character transformations.
#include "strtk.hpp"
#include "mc.hpp"
static char lower(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
static char upper(char c) { return (c >= 'a' && c <= 'z') ? (char)(c - 32) : c; }
static char printable(char c) { return ((unsigned char)c > 0x20 && (unsigned char)c < 0x7F) ? c : '.'; }
template <typename F> static std::string map(const std::string& s, F f) { std::string r = s; for (size_t i = 0; i < r.size(); ++i) r[i] = f(r[i]); return r; }
static void cases(const std::string& s)
{
   std::string l = map(s, lower), u = map(s, upper), p = map(s, printable);
   MC_EQ(strtk::as_lowercase(s), l); MC_EQ(strtk::as_uppercase(s), u);
   { std::string x = s; strtk::convert_to_lowercase(x); MC_EQ(x, l); }
   { std::string x = s; strtk::convert_to_uppercase(x); MC_EQ(x, u); }
   { std::string x = s; strtk::convert_to_printable_chars(x); MC_EQ(x, p); }
   { mc::Buf<char> b(s); strtk::convert_to_lowercase(b.begin(), b.end()); MC_EQ(b.str(), l); strtk::convert_to_uppercase(b.begin(), b.end()); MC_EQ(b.str(), u); }
   { mc::Buf<char> b(s); strtk::convert_to_lowercase((const char*)b.begin(), (const char*)b.end()); MC_EQ(b.str(), l); }
   { mc::Buf<unsigned char> b(s); strtk::convert_to_lowercase(b.begin(), b.end()); MC_EQ(b.str(), l); }
   { mc::Buf<unsigned char> b(s); strtk::convert_to_uppercase(b.begin(), b.end()); MC_EQ(b.str(), u); }
   { mc::Buf<unsigned char> b(s); strtk::convert_to_printable_chars(b.begin(), b.end()); MC_EQ(b.str(), p); }
   { mc::Buf<char> b(s); strtk::convert_to_printable_chars(b.begin(), b.end()); MC_EQ(b.str(), p); }
   // part of a buffer: nothing outside the range changes
   if (s.size() >= 2)
   {
      mc::Buf<char> b(s); strtk::convert_to_lowercase(b.begin() + 1, b.end() - 1); MC_EQ(b.str(), s[0] + l.substr(1, s.size() - 2) + s[s.size() - 1]);
      mc::Buf<char> c(s); strtk::convert_to_uppercase(c.begin() + 1, c.end() - 1); MC_EQ(c.str(), s[0] + u.substr(1, s.size() - 2) + s[s.size() - 1]);
      mc::Buf<char> d(s); strtk::convert_to_printable_chars(d.begin() + 1, d.end() - 1); MC_EQ(d.str(), s[0] + p.substr(1, s.size() - 2) + s[s.size() - 1]);
   }
   mc::outcome(mc::Hash()(l)(u)(p));
}
static void replaces(const std::string& s, char a, char b)
{
   std::string w = map(s, [&](char c) { return c == a ? b : c; });
   { std::string x = s; strtk::replace(a, b, x); MC_EQ(x, w); }
   { std::string x = s; strtk::replace(a, b, x.begin(), x.end()); MC_EQ(x, w); }
   { mc::Buf<char> x(s); strtk::replace(a, b, strtk::range::adapter<char>(x.begin(), x.end())); MC_EQ(x.str(), w); }
   if (s.size() >= 2) { mc::Buf<char> x(s); strtk::replace(a, b, x.begin() + 1, x.end() - 1); MC_EQ(x.str(), s[0] + w.substr(1, s.size() - 2) + s[s.size() - 1]); }
   mc::outcome(mc::Hash()(w));
}
static void translates(const std::string& in, const std::string& out, const std::string& s)
{
   strtk::translation_table t(in, out);
   std::string w = map(s, [&](char c) { size_t p = in.rfind(c); return p == std::string::npos ? c : out[p]; });
   MC_EQ(strtk::translate(t, s), w);
   { std::string x = s; strtk::translate_inplace(t, x); MC_EQ(x, w); }
   for (size_t i = 0; i < s.size() && i < 8; ++i) { MC_EQ(t(s[i]), w[i]); MC_EQ(t((unsigned char)s[i]), (unsigned char)w[i]); }
   mc::outcome(mc::Hash()(w));
}
MC_SECTION(case_small) { mc::strings("aZ[`\xC1", 0, mc::tier(6, 8), [&](const std::string& s) { MC_CASE(o << "case conversion of " << s); cases(s); }); }
MC_SECTION(case_every_byte)
{
   for (int c = 0; c < 256; ++c)
      for (int d = 0; d < 256; ++d) { char t[] = { (char)c, (char)d, (char)c }; std::string s(t, 3); MC_CASE(o << "case conversion of " << s); cases(s); }
   std::string all; for (int c = 0; c < 256; ++c) all += (char)c;
   for (size_t n = 0; n <= 256; ++n) { MC_CASE(o << "case conversion of all bytes from " << n); cases(all.substr(n)); cases(all.substr(0, n)); cases(all + all.substr(n)); }
}
MC_SECTION(replace_small)
{
   const char ab[] = { 'a', 'b', 'c', '\0' };
   for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j)
      mc::strings(std::string("ab\0", 3), 0, mc::tier(7, 9), [&](const std::string& s) { MC_CASE(o << "replace " << ab[i] << " by " << ab[j] << " in " << s); replaces(s, ab[i], ab[j]); });
}
MC_SECTION(in_context)
{
   mc::in_context("aZ\xC1", 1, mc::tier(3, 5), 'x', 'Y', [&](const std::string& s) { MC_CASE(o << "case conversion and replacement in " << s); cases(s); replaces(s, 'a', 'x'); replaces(s, 'Y', 'a'); replaces(s, 'x', 'x'); translates("aZ", "Za", s); translates("xY", "yX", s); });
}
MC_SECTION(replace_every_byte)
{
   std::string all; for (int c = 0; c < 256; ++c) all += (char)c;
   for (int c = 0; c < 256; ++c) for (int d = 0; d < 256; ++d) { MC_CASE(o << "replace byte " << c << " by " << d); replaces(all, (char)c, (char)d); }
}
MC_SECTION(translate_small)
{
   mc::strings("abc", 0, 4, [&](const std::string& in) {
      mc::strings("axc", in.size(), in.size(), [&](const std::string& out) {
         MC_CASE(o << "translate " << in << " to " << out);
         mc::strings("abcx", 0, mc::tier(3, 5), [&](const std::string& s) { translates(in, out, s); });
      });
   });
}
MC_SECTION(translate_every_byte)
{
   std::string all; for (int c = 0; c < 256; ++c) all += (char)c;
   for (int rot = 0; rot < 256; ++rot)
   {
      MC_CASE(o << "translate every byte by rotation " << rot);
      std::string out; for (int c = 0; c < 256; ++c) out += (char)((c + rot) & 255);
      translates(all, out, all + all); translates(all.substr(rot), out.substr(rot), all); translates(std::string(1, (char)rot), "!", all); translates("!", std::string(1, (char)rot), all);
   }
   for (size_t n : { 2, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 70000 }) for (int kind = 0; kind < 3; ++kind)   // longer lists: a character listed again is translated as its later entry says
   {
      MC_CASE(o << "translation list of " << n << " entries, kind " << kind);
      std::string in(n, 'a'), out(n, 'b'); for (size_t k = 0; k < n; ++k) { if (kind == 1) in[k] = (char)(k * 7); if (kind) out[k] = (char)(k / 256 + k * 3); } in[n - 2] = 'x'; out[n - 2] = 'y'; in[n - 1] = 'a'; out[n - 1] = 'z';
      translates(in, out, all + "xaxa"); translates(out, in, all + "yz");
   }
   for (size_t n = 0; n <= 6; ++n) for (size_t m = 0; m <= 6; ++m)
   {
      MC_CASE(o << "translation table sizes " << n << " and " << m);
      bool threw = false; try { strtk::translation_table t(std::string(n, 'a'), std::string(m, 'b')); } catch (const std::runtime_error&) { threw = true; }
      MC_EQ(threw, n != m);
   }
}
MC_SECTION(huge)
{
   const char* pairs[] = { "aB", "Az", "z\x80", "[Q" };
   for (int q = 0; q < 4; ++q)
      mc::huge_strings(pairs[q][0], pairs[q][1], [&](const std::string& s, int pat) {
         MC_CASE(o << "transform " << s.size() << " characters, pattern " << pat);
         cases(s); replaces(s, pairs[q][1], 'x'); replaces(s, pairs[q][0], pairs[q][1]); translates("aZ[", "bY{", s);
      }, 0, q ? 1100 : 140000);
}
MC_MAIN
