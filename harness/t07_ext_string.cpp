#include "split_model.hpp"
#include "parse_model.hpp"
using strtk::ext_string;
typedef std::vector<std::string> SVec;
static std::string lower(std::string s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 'A' && s[i] <= 'Z') s[i] += 32; return s; }
static std::string upper(std::string s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 'a' && s[i] <= 'z') s[i] -= 32; return s; }
static std::string strip_l(const std::string& s, const std::string& set) { size_t i = 0; while (i < s.size() && set.find(s[i]) != std::string::npos) ++i; return s.substr(i); }
static std::string strip_t(const std::string& s, const std::string& set) { size_t n = s.size(); while (n && set.find(s[n - 1]) != std::string::npos) --n; return s.substr(0, n); }
static std::string repl(const std::string& s, const std::string& p, const std::string& r)
{ if (p.empty()) return s; std::string o; size_t i = 0; while (i < s.size()) if (s.compare(i, p.size(), p) == 0) { o += r; i += p.size(); } else o += s[i++]; return o; }
static std::string times(const std::string& s, size_t n) { std::string r; while (n--) r += s; return r; }
MC_SECTION(construction_and_case)
{
   mc::strings("aB1\x80", 0, mc::tier(6, 7), [&](const std::string& s) {
      MC_CASE(o << "ext_string of " << s);
      ext_string e(s), c(e), z(s.c_str());
      MC_EQ(e.as_string(), s); MC_EQ(c.as_string(), s); MC_EQ(z.as_string(), s); MC_EQ((std::string)e, s); MC_EQ(e.clone(), s); MC_EQ(((const ext_string&)e).as_string(), s);
      mc::Buf<char> b(s); MC_EQ(ext_string(strtk::range::adapter<char>(b.begin(), b.end())).as_string(), s);
      MC_EQ(ext_string().as_string(), std::string());
      MC_EQ(c.to_lowercase().as_string(), lower(s)); MC_EQ(e.to_uppercase().as_string(), upper(s)); MC_EQ(e.imatch(lower(s)), true); MC_EQ(e.imatch(c), true); MC_EQ(e.imatch(s + "a"), false);
      std::ostringstream os; os << z; MC_EQ(os.str(), s);
   });
}
MC_SECTION(imatch_pairs)
{
   mc::strings("aAb", 0, 4, [&](const std::string& s) { mc::strings("aAb", 0, 4, [&](const std::string& t) {
      MC_CASE(o << s << " imatch " << t);
      MC_EQ(ext_string(s).imatch(t), lower(s) == lower(t)); MC_EQ(ext_string(s).imatch(ext_string(t)), lower(s) == lower(t)); }); });
}
struct IsA { bool operator()(char c) const { return c == 'a'; } };
MC_SECTION(trimming)
{
   const char* sets[] = { "", "a", "b", "ab", "ba", "abc", "x" };
   mc::strings("abc", 0, mc::tier(7, 9), [&](const std::string& s) {
      for (int q = 0; q < 7; ++q)
      {
         const std::string set = sets[q]; MC_CASE(o << "trim " << set << " from ext_string " << s);
         ext_string e(s); MC_EQM(e.remove_leading(set).as_string(), strip_l(s, set), "remove_leading"); e = ext_string(s); MC_EQM(e.remove_trailing(set).as_string(), strip_t(s, set), "remove_trailing");
         e = ext_string(s); MC_EQM(e.remove_leading(set).remove_trailing(set).as_string(), strip_t(strip_l(s, set), set), "both");
      }
      MC_CASE(o << "trim by predicate from ext_string " << s);
      ext_string e(s); MC_EQ(e.remove_leading(IsA()).as_string(), strip_l(s, "a")); e = ext_string(s); MC_EQ(e.remove_trailing(IsA()).as_string(), strip_t(s, "a"));
   });
}
MC_SECTION(arithmetic)
{
   mc::strings("ab", 0, mc::tier(7, 9), [&](const std::string& s) {
      mc::strings("ab", 0, 3, [&](const std::string& p) {
         MC_CASE(o << "ext_string " << s << " +,-,replace " << p);
         const ext_string e(s), ep(p);
         MC_EQM((e + p).as_string(), s + p, "+ string"); MC_EQM((p + e).as_string(), p + s, "string +");
         MC_EQM((e - p).as_string(), repl(s, p, ""), "- string"); MC_EQM((e - p.c_str()).as_string(), repl(s, p, ""), "- const char*"); MC_EQM((e - ep).as_string(), repl(s, p, ""), "- ext_string");
         ext_string m(s); m -= p; MC_EQM(m.as_string(), repl(s, p, ""), "-="); m = ext_string(s); m += p; MC_EQM(m.as_string(), s + p, "+="); m = ext_string(s); m << p; MC_EQM(m.as_string(), s + p, "<<");
         m = ext_string(s); m.replace(p, "xyz"); MC_EQM(m.as_string(), repl(s, p, "xyz"), "replace"); MC_EQ(e.as_string(), s);
      });
      for (size_t n = 0; n <= 9; ++n)
      {
         MC_CASE(o << n << " times ext_string " << s);
         const ext_string e(s); MC_EQ((e * n).as_string(), times(s, n)); MC_EQ((n * e).as_string(), times(s, n)); ext_string m(s); m *= n; MC_EQ(m.as_string(), times(s, n));
      }
   });
}
MC_SECTION(arithmetic_in_context)          // the same within longer texts, on either side
{
   for (size_t a : { 0, 1, 7, 8, 9, 15, 16, 17, 40, 255 }) for (size_t b : { 0, 1, 8, 16, 33 }) mc::strings("ab", 2, mc::tier(5, 7), [&](const std::string& mid) {
      const std::string s = std::string(a, 'x') + mid + std::string(b, 'y'); const ext_string e(s);
      for (const char* q : { "a", "ab", "ba", "aab", "xa", "by", "x", "xx" })
      {
         MC_CASE(o << "ext_string " << s << " -, replace " << q); const std::string p = q, w = repl(s, p, "");
         MC_EQ((e - p).as_string(), w); MC_EQ((e - q).as_string(), w); MC_EQ((e - ext_string(p)).as_string(), w); ext_string m(s); m -= p; MC_EQM(m.as_string(), w, "-="); m = ext_string(s); m -= q; MC_EQM(m.as_string(), w, "-= const char*");
         m = ext_string(s); m.replace(p, p + p); MC_EQM(m.as_string(), repl(s, p, p + p), "replace by a text that holds the pattern"); m = ext_string(s); m.replace(p, "z"); MC_EQM(m.as_string(), repl(s, p, "z"), "replace"); mc::outcome(w);
      }
      MC_CASE(o << "ext_string trims of " << s); const char* sets[] = { "x", "xab", "y", "yab", "xyab", "" };
      for (const char* t : sets) { ext_string m(s); MC_EQ(m.remove_leading(std::string(t)).as_string(), strip_l(s, t)); m = ext_string(s); MC_EQ(m.remove_trailing(std::string(t)).as_string(), strip_t(s, t)); }
   });
}
template <typename T> static void appended(const T& t, const std::string& txt)
{
   MC_CASE(o << "ext_string + value printed as " << txt);
   ext_string e("ab"); MC_EQ((e + t).as_string(), "ab" + txt); MC_EQ((t + e).as_string(), txt + "ab"); e << t << t; MC_EQ(e.as_string(), "ab" + txt + txt); e += t; MC_EQ(e.as_string(), "ab" + txt + txt + txt);
   T r = T(); MC_TRUE(ext_string(txt).as_type(r)); MC_TRUE(r == t); MC_TRUE(ext_string(txt).template as_type<T>() == t);
}
MC_SECTION(values)
{
   const long long v[] = { 0, 1, -1, 9, 10, 99, 100, 127, 128, -128, 255, 256, 32767, -32768, 65535, 99999, 2147483647, -2147483647LL, 4294967295LL, 9223372036854775807LL };
   for (size_t i = 0; i < sizeof v / sizeof *v; ++i)
   {
      appended((int)v[i], std::to_string((int)v[i])); appended((long long)v[i], std::to_string(v[i])); appended((short)v[i], std::to_string((short)v[i])); appended((unsigned short)v[i], std::to_string((unsigned short)v[i]));
      appended((unsigned)v[i], std::to_string((unsigned)v[i])); appended((unsigned long long)v[i], std::to_string((unsigned long long)v[i]));
   }
   appended('c', "c"); appended(1.5, "1.5"); appended(std::string("xyz"), "xyz");
   const char* bad[] = { "", "x", "1x", "-", "99999999999" };
   for (int i = 0; i < 5; ++i) { MC_CASE(o << "as_type<int> of " << bad[i]); int t = 3; MC_EQ(ext_string(bad[i]).as_type(t), false); bool threw = false; try { ext_string(bad[i]).as_type<int>(); } catch (const std::invalid_argument&) { threw = true; } MC_TRUE(threw); }
}
MC_SECTION(split_and_parse)
{
   const strtk::split_options::type opts[] = { strtk::split_options::default_mode, strtk::split_options::compress_delimiters, strtk::split_options::include_1st_delimiter, strtk::split_options::include_all_delimiters };
   mc::strings("1,;", 0, mc::tier(7, 8), [&](const std::string& s) {
      const ext_string e(s);
      for (int o1 = 0; o1 < 4; ++o1)
      {
         MC_CASE(o << "ext_string split of " << s << ", option " << (unsigned)opts[o1]);
         const strtk::multiple_char_delimiter_predicate p(",;"); const strtk::split_options::type opt = opts[o1];
         SVec want; strtk::split(p, s, strtk::range_to_type_back_inserter(want), opt);
         SVec got; MC_EQ(e.split(p, got, opt), want.size()); MC_EQ(got, want);
         std::list<std::string> l; MC_EQ(e.split(p, l, opt), want.size()); MC_EQ(SVec(l.begin(), l.end()), want);
         got.clear(); MC_EQ(e.split(p, strtk::range_to_type_back_inserter(got), opt), want.size()); MC_EQ(got, want);
         { SVec w0(1, "was"); got = w0; w0.insert(w0.end(), want.begin(), want.end()); MC_EQ(e.split(p, got, opt), want.size()); MC_EQ(got, w0); }
         if (!o1) { MC_EQ(want, texts(s, model_split(s, ",;", 0))); got.clear(); e.split(p, got); MC_EQ(got, want); }
         for (size_t n = 0; n <= 4; ++n)
         {
            // what the container held stays in front of the tokens
            SVec w0(1, "was"); w0.push_back("there"); got = w0; std::list<std::string> lw(w0.begin(), w0.end()); strtk::split_n(p, s, n, strtk::range_to_type_back_inserter(w0), opt); MC_EQ(e.split_n(p, n, got, opt), w0.size() - 2); MC_EQ(got, w0); e.split_n(p, n, lw, opt); MC_EQ(SVec(lw.begin(), lw.end()), w0);
            SVec wn; strtk::split_n(p, s, n, strtk::range_to_type_back_inserter(wn), opt); got.clear(); MC_EQ(e.split_n(p, n, got, opt), wn.size()); MC_EQ(got, wn);
            got.clear(); MC_EQ(e.split_n(p, n, strtk::range_to_type_back_inserter(got), opt), wn.size()); MC_EQ(got, wn);
            if (!o1) { got.clear(); e.split_n(p, n, got); MC_EQ(got, wn); }
         }
      }
      MC_CASE(o << "ext_string parse of " << s);
      std::vector<int> want, got, g2; const size_t w = strtk::parse(s, std::string(",;"), want);
      MC_EQ(e.parse(std::string(",;"), got), w); MC_EQ(got, want); MC_EQ(e.parse(",;", g2), w); MC_EQ(g2, want);
   });
}
MC_SECTION(histories)
{
   // explicit state: the string after every history of mutators
   mc::tuples(11, mc::tier(4, 6), [&](const std::vector<size_t>& h) {
      MC_CASE(o << "ext_string history " << h);
      ext_string e("aBc"); std::string w = "aBc";
      for (size_t k = 0; k < h.size(); ++k)
      {
         switch (h[k])
         {
            case 0: e += 12; w += "12"; break;
            case 1: e *= 2; w = times(w, 2); break;
            case 2: e *= 0; w = ""; break;
            case 3: e -= "ca"; w = repl(w, "ca", ""); break;
            case 4: e.replace("a", "bb"); w = repl(w, "a", "bb"); break;
            case 5: e.to_uppercase(); w = upper(w); break;
            case 6: e.to_lowercase(); w = lower(w); break;
            case 7: e.remove_leading(std::string("aA1")); w = strip_l(w, "aA1"); break;
            case 8: e.remove_trailing(std::string("2")); w = strip_t(w, "2"); break;
            case 9: { ext_string c(e); e << c.as_string(); w += w; } break;
            default: e << 'a'; w += 'a';
         }
         mc::transition();
      }
      MC_EQ(e.as_string(), w); mc::state(mc::Hash()(w).h); mc::outcome(mc::Hash()(w)); mc::trace();
   });
}
MC_SECTION(character_lists)
{
   MC_CASE(o << "character lists");
   std::string all; for (int i = 0; i < 256; ++i) all += (char)i;
   MC_EQ(ext_string::all_digits().as_string(), "0123456789"); MC_EQ(ext_string::all_lowercase_letters().as_string(), "abcdefghijklmnopqrstuvwxyz"); MC_EQ(ext_string::all_uppercase_letters().as_string(), "ABCDEFGHIJKLMNOPQRSTUVWXYZ");
   MC_EQ(ext_string::all_letters().as_string(), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"); MC_EQ(ext_string::all_chars().as_string(), all);
}
MC_SECTION(huge)
{
   mc::huge_strings('a', 'B', [&](const std::string& s, int pat) {
      MC_CASE(o << "ext_string of " << s.size() << " characters, pattern " << pat);
      const ext_string e(s); ext_string m(s);
      MC_TRUE(e.as_string() == s); MC_TRUE((e + "B").as_string() == s + "B"); MC_TRUE((e - "B").as_string() == repl(s, "B", "")); MC_TRUE((e - ext_string("aB")).as_string() == repl(s, "aB", ""));
      m.replace("B", "cc"); MC_TRUE(m.as_string() == repl(s, "B", "cc")); m = e; m -= "aa"; MC_TRUE(m.as_string() == repl(s, "aa", "")); m = e; m += s; MC_TRUE(m.as_string() == s + s);
      m = e; m.to_lowercase(); MC_TRUE(m.as_string() == lower(s)); MC_TRUE(m.imatch(e)); MC_TRUE(m.imatch(s)); m.to_uppercase(); MC_TRUE(m.as_string() == upper(s)); MC_TRUE(!m.imatch(s + "a"));
      m = e; m.remove_leading(std::string("B")); MC_TRUE(m.as_string() == strip_l(s, "B")); m = e; m.remove_trailing(std::string("B")); MC_TRUE(m.as_string() == strip_t(s, "B"));
      m = e; m *= 3; MC_TRUE(m.as_string() == times(s, 3)); MC_TRUE(e.as_string() == s);
      SVec v, w = texts(s, model_split(s, "B", 0)); MC_EQ(e.split(strtk::single_delimiter_predicate<char>('B'), v), w.size()); MC_TRUE(v == w);
      v.clear(); if (w.size() > 256) { w.resize(256); MC_EQ(e.split_n(strtk::single_delimiter_predicate<char>('B'), 256, v), (size_t)256); MC_TRUE(v == w); }
   }, 0, 70000);
   for (size_t n = 0; n <= 70000; n = n < 300 ? n + 1 : n * 2 - 1)
   {
      MC_CASE(o << n << " times a string");
      const ext_string e("ab"), z(""); const std::string w = times("ab", n);
      MC_TRUE((e * n).as_string() == w); MC_TRUE((n * e).as_string() == w); MC_TRUE((z * n).as_string().empty()); ext_string m("ab"); m *= n; MC_TRUE(m.as_string() == w);
   }
}
MC_MAIN
