#include "strtk.hpp"
#include "mc.hpp"
using namespace strtk::text;
static std::string rep(size_t n, char c) { return std::string(n, c); }
static std::string l_al(size_t w, char p, const std::string& s) { return s.size() >= w ? s : s + rep(w - s.size(), p); }
static std::string r_al(size_t w, char p, const std::string& s) { return s.size() >= w ? s : rep(w - s.size(), p) + s; }
static std::string cen(size_t w, char p, const std::string& s) { if (s.size() >= w) return s; const size_t k = w - s.size(); return rep(k / 2, p) + s + rep(k - k / 2, p); }
static void align(size_t w, char p, const std::string& s)
{
   MC_EQM(left_align(w, p, s), l_al(w, p, s), "left_align"); MC_EQM(right_align(w, p, s), r_al(w, p, s), "right_align"); MC_EQM(center(w, p, s), cen(w, p, s), "center");
   MC_EQM(left_align(w, s), l_al(w, ' ', s), "left_align, default pad"); MC_EQM(right_align(w, s), r_al(w, ' ', s), "right_align, default pad"); MC_EQM(center(w, s), cen(w, ' ', s), "center, default pad");
   mc::outcome(mc::Hash()(s)(w)((unsigned char)p));
}
MC_SECTION(align_every_width)
{
   for (size_t n = 0; n <= mc::tier<size_t>(80, 300); ++n)
      for (size_t w = 0; w <= mc::tier<size_t>(90, 320); ++w)
      {
         std::string s; for (size_t i = 0; i < n; ++i) s += (char)('a' + i % 26);
         MC_CASE(o << "align " << s << " in width " << w);
         align(w, '*', s); align(w, (char)(n + w), s);
      }
}
MC_SECTION(align_bytes)
{
   for (int c = 0; c < 256; ++c) for (int p = 0; p < 256; ++p)
   { const std::string s(2, (char)c); MC_CASE(o << "align " << s << " padded with " << (char)p); for (size_t w = 1; w <= 5; ++w) align(w, (char)p, s); }
}
template <typename T> static void align_t(const T& t, const std::string& s)
{
   for (size_t w = 0; w < 30; ++w)
   {
      MC_CASE(o << "align a value printed as " << s << " in width " << w);
      MC_EQ(left_align(w, '.', t), l_al(w, '.', s)); MC_EQ(right_align(w, '.', t), r_al(w, '.', s)); MC_EQ(center(w, '.', t), cen(w, '.', s));
      MC_EQ(left_align(w, t), l_al(w, ' ', s)); MC_EQ(right_align(w, t), r_al(w, ' ', s)); MC_EQ(center(w, t), cen(w, ' ', s));
   }
}
MC_SECTION(align_values)
{
   const long long v[] = { 0, 1, -1, 9, 10, 127, -128, 99999, 2147483647, -2147483648LL, 9223372036854775807LL };
   for (size_t i = 0; i < sizeof v / sizeof *v; ++i)
   {
      align_t((long long)v[i], std::to_string(v[i])); align_t((int)v[i], std::to_string((int)v[i])); align_t((short)v[i], std::to_string((short)v[i])); align_t((unsigned)v[i], std::to_string((unsigned)v[i])); align_t((unsigned long long)v[i], std::to_string((unsigned long long)v[i]));
   }
   align_t('c', "c"); align_t(1.5, "1.5"); align_t(-0.25f, "-0.25");
}
MC_SECTION(remaining)
{
   for (size_t n = 0; n <= mc::tier<size_t>(70, 300); ++n)
      for (size_t i = 0; i <= n + 3; ++i)
         for (int e = 0; e < 2; ++e)
         {
            std::string s; for (size_t k = 0; k < n; ++k) s += (char)(k * 37 + 1);
            MC_CASE(o << "remaining_string(" << i << ", " << s << ", " << (bool)e << ")");
            const std::string w = i < n ? s.substr(i) : e ? "" : s;
            MC_EQ(remaining_string(i, s, e), w); std::string r = "junk"; remaining_string(i, s, r, e); MC_EQ(r, w);
            if (!e) { MC_EQ(remaining_string(i, s), w); r = "junk"; remaining_string(i, s, r); MC_EQ(r, w); }
         }
}
MC_SECTION(character_classes)
{
   for (int b = 0; b < 256; ++b)
   {
      const char c = (char)b; MC_CASE(o << "character class of byte " << b);
      const bool lo = b >= 97 && b <= 122, up = b >= 65 && b <= 90, dg = b >= 48 && b <= 57, hx = dg || (b >= 65 && b <= 70) || (b >= 97 && b <= 102);
      MC_EQ(is_lowercase_letter(c), lo); MC_EQ(is_uppercase_letter(c), up); MC_EQ(is_letter(c), lo || up); MC_EQ(is_digit(c), dg); MC_EQ(is_hex_digit(c), hx); MC_EQ(is_letter_or_digit(c), lo || up || dg);
      for (size_t n = 1; n <= 40; ++n) for (size_t p = 0; p < n; ++p)
      {
         std::string l(n, 'q'), d(n, '4'); l[p] = d[p] = c;
         MC_EQ(is_all_letters(l), lo || up); MC_EQ(is_all_digits(d), dg);
      }
   }
   mc::strings("aZ5 ", 0, 6, [&](const std::string& s) {
      MC_CASE(o << "is_all_letters, is_all_digits of " << s);
      bool l = true, d = true; for (size_t i = 0; i < s.size(); ++i) { if (s[i] != 'a' && s[i] != 'Z') l = false; if (s[i] != '5') d = false; }
      MC_EQ(is_all_letters(s), l); MC_EQ(is_all_digits(s), d);
   });
}
MC_SECTION(edits_every_length)
{
   for (size_t n = 0; n <= mc::tier<size_t>(80, 300); ++n)
      for (size_t i = 0; i <= n + 2; ++i)
      {
         std::string s; for (size_t k = 0; k < n; ++k) s += (char)(k * 7 + 3);
         MC_CASE(o << "insert/remove/swap at " << i << " of " << s);
         std::string w = s; if (i <= n) w.insert(i, 1, '\xEE');
         MC_EQM(insert(s, i, '\xEE'), w, "insert"); std::string t = s; insert_inplace(t, i, '\xEE'); MC_EQM(t, w, "insert_inplace");
         w = s; if (i < n) w.erase(i, 1);
         MC_EQM(strtk::text::remove(s, i), w, "remove"); t = s; strtk::text::remove_inplace(t, i); MC_EQM(t, w, "remove_inplace");
         const size_t js[] = { 0, i / 2, i, i + 1, n ? n - 1 : 0, n };
         for (int q = 0; q < 6; ++q)
         {
            w = s; if (i < n && js[q] < n) std::swap(w[i], w[js[q]]);
            MC_EQM(strtk::text::swap(s, i, js[q]), w, "swap"); t = s; swap_inplace(t, i, js[q]); MC_EQM(t, w, "swap_inplace");
         }
      }
}
MC_SECTION(edit_histories)
{
   // all histories of inserts, removals and swaps starting from short strings (explicit state: the string)
   const char* starts[] = { "", "a", "abc" };
   for (int st = 0; st < 3; ++st)
      mc::tuples(12, mc::tier(5, 6), [&](const std::vector<size_t>& h) {
         MC_CASE(o << "edit history " << h << " from " << starts[st]);
         std::string s = starts[st], w = s;
         for (size_t k = 0; k < h.size(); ++k)
         {
            const size_t i = h[k] % 4;
            if (h[k] < 4) { insert_inplace(s, i, (char)('0' + k)); if (i <= w.size()) w.insert(i, 1, (char)('0' + k)); }
            else if (h[k] < 8) { strtk::text::remove_inplace(s, i); if (i < w.size()) w.erase(i, 1); }
            else { swap_inplace(s, i, (i + 1) % 4); if (i < w.size() && (i + 1) % 4 < w.size()) std::swap(w[i], w[(i + 1) % 4]); }
            mc::transition();
         }
         MC_EQM(s, w, "string after the edits"); mc::state(mc::Hash()(s).h); mc::trace();
      });
}
MC_SECTION(huge)
{
   const std::vector<size_t> n = mc::scales(0, 70000);
   for (size_t a = 0; a < n.size(); ++a)
   {
      std::string s = mc::letters(n[a]);
      for (size_t b = 0; b < n.size(); ++b) { MC_CASE(o << "align " << n[a] << " characters in width " << n[b]); align(n[b], '*', s); align(n[b], ' ', "ab"); align(n[b], '#', ""); }
      const size_t at[] = { 0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, n[a] / 2, n[a] - 1, n[a], n[a] + 1, (size_t)-1 };
      for (int q = 0; q < 16; ++q)
      {
         const size_t i = at[q];
         MC_CASE(o << "edits at " << i << " of " << n[a] << " characters");
         std::string w = s, t = s; if (i <= s.size()) w.insert(i, 1, '!'); MC_TRUE(insert(s, i, '!') == w); insert_inplace(t, i, '!'); MC_TRUE(t == w);
         w = t = s; if (i < s.size()) w.erase(i, 1); MC_TRUE(strtk::text::remove(s, i) == w); strtk::text::remove_inplace(t, i); MC_TRUE(t == w);
         for (int r = 0; r < 16; ++r) { w = t = s; const size_t j = at[r]; if (i < s.size() && j < s.size()) std::swap(w[i], w[j]); swap_inplace(t, i, j); MC_TRUE(t == w); if (q == r + 1) MC_TRUE(strtk::text::swap(s, i, j) == w); }
         MC_TRUE(remaining_string(i, s, false) == (i < s.size() ? s.substr(i) : s));
         if (i < s.size()) { std::string d(s.size(), '7'), l = s; d[i] = 'x'; l[i] = '-'; MC_EQ(is_all_digits(d), false); MC_EQ(is_all_letters(l), false); }
      }
      MC_EQ(is_all_digits(std::string(n[a], '7')), true); MC_EQ(is_all_letters(s), true);
   }
}
MC_MAIN
