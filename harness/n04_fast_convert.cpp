// strtk::fast: fixed-width digit checks and unchecked / checked conversion.
#include "strtk.hpp"
#include "mc.hpp"
#include <limits>
namespace f = strtk::fast;
typedef unsigned __int128 U;
static bool digits(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }
static U val(const std::string& s) { U v = 0; for (size_t i = 0; i < s.size(); ++i) v = v * 10 + (s[i] - '0'); return v; }
template <typename T> static bool fits(U v) { return v <= (U)std::numeric_limits<T>::max(); }
// run-time width
template <typename T> static void dyn(const std::string& s)
{
   mc::Buf<char> b(s); const char* p = b.begin(); const size_t n = s.size();
   const bool d = digits(s);
   if (n <= 19 && d && fits<T>(val(s)))
   {
      T v = (T)val(s), t;
      t = 7; MC_TRUE(f::numeric_convert(n, p, t)); MC_EQ(t, v);
      t = 7; MC_TRUE(f::numeric_convert(n, p, t, true)); MC_EQ(t, v);
      t = 7; MC_TRUE(f::numeric_convert(s, t)); MC_EQ(t, v);
      t = 7; MC_TRUE(f::numeric_convert(s, t, true)); MC_EQ(t, v);
      t = 7; MC_TRUE(f::numeric_convert(n, s.begin(), t, true)); MC_EQ(t, v);
   }
   else if (n <= 19 && !d)
   {
      T t = 7; MC_TRUE(!f::numeric_convert(n, p, t, true)); MC_EQ(t, (T)7); MC_TRUE(!f::numeric_convert(s, t, true)); MC_EQ(t, (T)7);
   }
   else if (n > 20) { T t = 7; MC_TRUE(!f::numeric_convert(n, p, t)); MC_EQ(t, (T)7); MC_TRUE(!f::numeric_convert(s, t, true)); MC_EQ(t, (T)7); }
}
static void checks(const std::string& s)
{
   mc::Buf<char> b(s); const char* p = b.begin(); const size_t n = s.size();
   bool d = digits(s) && n <= 19;
   MC_EQ(f::all_digits_check(n, p), d); MC_EQ(f::all_digits_check(p, p + n), d); MC_EQ(f::all_digits_check(s), d); MC_EQ(f::all_digits_check(s.begin(), s.end()), d);
   if (n)
   {
      bool sg = s[0] == '-' || s[0] == '+'; bool w = digits(s.substr(sg)) && n - sg <= 19;
      MC_EQ(f::signed_all_digits_check(n, p), w); MC_EQ(f::signed_all_digits_check(p, p + n), w); MC_EQ(f::signed_all_digits_check(s), w);
   }
   mc::outcome(mc::Hash()(d)((uint64_t)n));
}
template <typename T> static void sgn(const std::string& s)
{
   if (s.empty()) return;
   mc::Buf<char> b(s); const char* p = b.begin(); const char* e = b.end();
   bool g = s[0] == '-' || s[0] == '+'; std::string m = s.substr(g);
   bool only_sign = g && m.empty();
   size_t z = 0; while (z < m.size() && m[z] == '0') ++z;
   std::string q = m.substr(z);
   if (only_sign) { T t = 7; MC_TRUE(!f::signed_numeric_convert(p, e, t)); MC_TRUE(!f::signed_numeric_convert(s, t, true)); MC_EQ(t, (T)7); return; }
   if (q.size() > 19) { if (q.size() > 20) { T t = 7; MC_TRUE(!f::signed_numeric_convert(p, e, t)); MC_EQ(t, (T)7); } return; }
   if (digits(q))
   {
      if (!fits<T>(val(q))) return;
      T v = (T)val(q); if (s[0] == '-') v = -v; T t;
      t = 7; MC_TRUE(f::signed_numeric_convert(p, e, t)); MC_EQ(t, v);
      t = 7; MC_TRUE(f::signed_numeric_convert(p, e, t, true)); MC_EQ(t, v);
      t = 7; MC_TRUE(f::signed_numeric_convert(s, t)); MC_EQ(t, v);
      t = 7; MC_TRUE(f::signed_numeric_convert(s, t, true)); MC_EQ(t, v);
   }
   else { T t = 7; MC_TRUE(!f::signed_numeric_convert(p, e, t, true)); MC_TRUE(!f::signed_numeric_convert(s, t, true)); MC_EQ(t, (T)7); }
}
template <size_t N, typename T> static void fixed1(const std::string& s, bool d)
{
   mc::Buf<char> b(s); const char* p = b.begin(); T t;
   if (!d) { t = 7; f::numeric_convert<N>(p, t, true); MC_EQ(t, (T)0); t = 7; f::numeric_convert<N>(s, t, true); MC_EQ(t, (T)0); return; }
   if (!fits<T>(val(s))) return;
   T v = (T)val(s);
   t = 7; f::numeric_convert<N>(p, t); MC_EQ(t, v); t = 7; f::numeric_convert<N>(p, t, true); MC_EQ(t, v);
   t = 7; f::numeric_convert<N>(s, t); MC_EQ(t, v); t = 7; f::numeric_convert<N>(s, t, true); MC_EQ(t, v);
}
template <size_t N> static void fixed(const std::string& s)
{
   MC_CASE(o << "fast fixed width " << N << " " << s);
   mc::Buf<char> b(s); const char* p = b.begin(); bool d = digits(s);
   MC_EQ(f::all_digits_check<N>(p), d); MC_EQ((f::all_digits_check<N>(s)), d);
   fixed1<N,short>(s, d); fixed1<N,unsigned short>(s, d); fixed1<N,int>(s, d); fixed1<N,unsigned int>(s, d); fixed1<N,long long>(s, d); fixed1<N,unsigned long long>(s, d);
}
static void all(const std::string& s)
{
   MC_CASE(o << "fast convert " << s);
   checks(s); dyn<short>(s); dyn<unsigned short>(s); dyn<int>(s); dyn<unsigned int>(s); dyn<long>(s); dyn<long long>(s); dyn<unsigned long long>(s);
   sgn<short>(s); sgn<int>(s); sgn<long>(s); sgn<long long>(s);
}
// fixed width with a sign: the width counts the sign
template <size_t N, typename T> static void signed1(const std::string& s, bool d)
{
   mc::Buf<char> b(s); const char* p = b.begin(); T t; const std::string m = s.substr(s[0] == '-' || s[0] == '+');
   if (!d) { t = 7; MC_TRUE(!(f::signed_numeric_convert<N,T>(p, t, true))); MC_EQ(t, (T)0); t = 7; MC_TRUE(!(f::signed_numeric_convert<N,T>(s, t, true))); MC_EQ(t, (T)0); return; }
   if (!fits<T>(val(m))) return;
   T v = (T)val(m); if (s[0] == '-') v = (T)-v;
   t = 7; MC_TRUE((f::signed_numeric_convert<N,T>(p, t))); MC_EQ(t, v); t = 7; MC_TRUE((f::signed_numeric_convert<N,T>(p, t, true))); MC_EQ(t, v);
   t = 7; MC_TRUE((f::signed_numeric_convert<N,T>(s, t))); MC_EQ(t, v); t = 7; MC_TRUE((f::signed_numeric_convert<N,T>(s, t, true))); MC_EQ(t, v);
}
template <size_t N> static void fixed_signed(const std::string& s)
{
   MC_CASE(o << "fast fixed width " << N << " with sign " << s);
   mc::Buf<char> b(s); const char* p = b.begin(); const bool d = digits(s.substr(s[0] == '-' || s[0] == '+'));
   MC_EQ(f::signed_all_digits_check<N>(p), d); MC_EQ(f::signed_all_digits_check<N>(s), d);
   signed1<N,short>(s, d); signed1<N,int>(s, d); signed1<N,long>(s, d); signed1<N,long long>(s, d);
}
template <typename F> static void patterns(size_t n, F g)
{
   // every digit at every position over three backgrounds, ascending/descending runs, and every byte at every position
   static const char bg[] = "019";
   for (int k = 0; k < 3; ++k)
   {
      std::string s(n, bg[k]); g(s);
      for (size_t i = 0; i < n; ++i) for (int c = 0; c < 10; ++c) { std::string t = s; t[i] = (char)('0' + c); g(t); }
   }
   for (int st = 0; st < 10; ++st) { std::string s; for (size_t i = 0; i < n; ++i) s += (char)('0' + (st + i) % 10); g(s); std::string r; for (size_t i = 0; i < n; ++i) r += (char)('0' + (st + 9 * i) % 10); g(r); }
   for (size_t i = 0; i < n; ++i) for (int c = 0; c < 256; ++c) { if (c >= '0' && c <= '9') continue; std::string t(n, '1'); t[i] = (char)c; g(t); }
   for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { std::string t(n, '0'); t[i] = '4'; t[j] = '7'; g(t); }
}
template <size_t N> static void fixed_all() { patterns(N, [](const std::string& s) { fixed<N>(s); }); }
MC_SECTION(fixed_width)
{
   fixed_all<0>(); fixed_all<1>(); fixed_all<2>(); fixed_all<3>(); fixed_all<4>(); fixed_all<5>(); fixed_all<6>(); fixed_all<7>(); fixed_all<8>(); fixed_all<9>();
   fixed_all<10>(); fixed_all<11>(); fixed_all<12>(); fixed_all<13>(); fixed_all<14>(); fixed_all<15>(); fixed_all<16>(); fixed_all<17>(); fixed_all<18>(); fixed_all<19>();
}
template <size_t N> static void fixed_signed_all() { patterns(N, [](const std::string& s) { fixed_signed<N>(s); std::string t = s; t[0] = '-'; fixed_signed<N>(t); t[0] = '+'; fixed_signed<N>(t); }); }
MC_SECTION(fixed_width_signed)
{
   fixed_signed_all<1>(); fixed_signed_all<2>(); fixed_signed_all<3>(); fixed_signed_all<4>(); fixed_signed_all<5>(); fixed_signed_all<6>(); fixed_signed_all<7>(); fixed_signed_all<8>(); fixed_signed_all<9>(); fixed_signed_all<10>();
   fixed_signed_all<11>(); fixed_signed_all<12>(); fixed_signed_all<13>(); fixed_signed_all<14>(); fixed_signed_all<15>(); fixed_signed_all<16>(); fixed_signed_all<17>(); fixed_signed_all<18>(); fixed_signed_all<19>();
}
MC_SECTION(width_20)
{
   // 20 digits only fit unsigned 64-bit and only without the digit check
   for (unsigned long long d = 0; d <= 200000; ++d)
      for (int k = 0; k < 2; ++k)
      {
         unsigned long long v = k ? std::numeric_limits<unsigned long long>::max() - d : 10000000000000000000ULL + d * 41;
         std::string s = std::to_string(v); MC_CASE(o << "fast 20 digits " << s);
         unsigned long long t = 7; f::numeric_convert<20>(s, t); MC_EQ(t, v); t = 7; MC_TRUE(f::numeric_convert(s, t)); MC_EQ(t, v);
      }
}
MC_SECTION(run_time_width)
{
   for (size_t n = 0; n <= 24; ++n) patterns(n, [](const std::string& s) { all(s); all("-" + s); all("+" + s); all("00" + s); all("-0" + s); });
}
MC_SECTION(small) { mc::strings("019+-/:", 0, mc::tier(6, 7), [](const std::string& s) { all(s); }); }
MC_SECTION(values) { for (int v = 0; v <= 70000; ++v) { std::string n = std::to_string(v); MC_CASE(o << "fast value " << n); dyn<short>(n); dyn<unsigned short>(n); sgn<short>("-" + n); sgn<int>(n); dyn<int>(std::string(6 - n.size() % 6, '0') + n); } }
MC_SECTION(huge)
{
   for (size_t n : mc::scales(30, 140000))
      for (int g = 0; g < 3; ++g)
         for (const char* t : { "", "5", "12x", "32767", "18446744073709551615", "-", "/", ":" })
            for (char c : { '0', '9', 'x' }) { const std::string s = (g == 0 ? "" : g == 1 ? "-" : "+") + std::string(n, c) + t; all(s); }
}
MC_MAIN
