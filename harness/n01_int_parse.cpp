// Integer parsing: accepted grammar, exact value, overflow rejected, target untouched on failure.
#include "strtk.hpp"
#include "mc.hpp"
#include <deque>
#include <limits>
typedef __int128 Big;
static bool model(const std::string& s, bool is_signed, Big lo, Big hi, Big& v)
{
   size_t i = 0; bool neg = false;
   if (!s.empty() && (s[0] == '+' || (is_signed && s[0] == '-'))) { neg = s[0] == '-'; ++i; }
   if (i == s.size()) return false;
   v = 0; bool big = false;
   for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > (Big)1 << 70) { big = true; v = (Big)1 << 70; } }
   if (neg) v = -v;
   return !big && v >= lo && v <= hi;
}
template <typename T> static void one_fast(const std::string& s)
{
   typedef std::numeric_limits<T> L;
   Big b; bool w = model(s, L::is_signed, (Big)L::min(), (Big)L::max(), b);
   T t = 77; bool r = strtk::string_to_type_converter(s, t);
   if (r != w || t != (w ? (T)b : (T)77)) { MC_EQM(r, w, "accepted"); MC_EQM(t, w ? (T)b : (T)77, "value"); }
   mc::outcome(mc::Hash()(w)((uint64_t)t));
}
template <typename T, typename It> static void via(It b, It e, bool w, T v, const char* what)
{ T t = 77; MC_EQM(strtk::string_to_type_converter(b, e, t), w, what); MC_EQM(t, w ? v : (T)77, what); }
template <typename T> static void one(const std::string& s)
{
   one_fast<T>(s);
   typedef std::numeric_limits<T> L;
   Big bg; bool w = model(s, L::is_signed, (Big)L::min(), (Big)L::max(), bg); T v = (T)bg;
   mc::Buf<char> b(s); mc::Buf<unsigned char> u(s); std::deque<char> d(s.begin(), s.end());
   const std::string cs = s; std::string m = s;
   via<T>((const char*)b.begin(), (const char*)b.end(), w, v, "const char*"); via<T>(b.begin(), b.end(), w, v, "char*");
   via<T>((const unsigned char*)u.begin(), (const unsigned char*)u.end(), w, v, "const unsigned char*"); via<T>(u.begin(), u.end(), w, v, "unsigned char*");
   via<T>(m.begin(), m.end(), w, v, "string::iterator"); via<T>(s.begin(), s.end(), w, v, "string::const_iterator"); via<T>(d.begin(), d.end(), w, v, "deque::iterator");
   { T t = 77; MC_EQ(strtk::string_to_type_converter(std::make_pair((const char*)b.begin(), (const char*)b.end()), t), w); MC_EQ(t, w ? v : (T)77); }
   for (int form = 0; form < 4; ++form)
   {
      bool threw = false; T t = 77;
      if (form == 3)                                  // false for an empty text, otherwise as the other throwing forms
      {
         bool r = true;
         try { r = strtk::convert_string_range(std::make_pair(cs.begin(), cs.end()), t); } catch (const std::invalid_argument&) { threw = true; }
         MC_EQM(r, !s.empty(), "convert_string_range"); MC_EQM(threw, !w && !s.empty(), "convert_string_range"); MC_EQM(t, w ? v : (T)77, "convert_string_range value");
         continue;
      }
      try
      {
         t = form == 0 ? strtk::string_to_type_converter<T>(s) : form == 1 ? strtk::string_to_type_converter<T>((const char*)b.begin(), (const char*)b.end())
           : strtk::string_to_type_converter<T>(std::make_pair((const char*)b.begin(), (const char*)b.end()));
      }
      catch (const std::invalid_argument&) { threw = true; }
      MC_EQM(threw, !w, "throwing form"); MC_EQM(t, w ? v : (T)77, "throwing form value");
   }
}
#define EACH_INT(M) M(short) M(unsigned short) M(int) M(unsigned int) M(long) M(unsigned long) M(long long) M(unsigned long long)
template <bool Full> static void all_types(const std::string& s)
{
   MC_CASE(o << "parse integer " << s);
   #define M(T) { if (Full) one<T>(s); else one_fast<T>(s); }
   EACH_INT(M)
   #undef M
}
static std::string dec(Big v)
{
   if (v < 0) return "-" + dec(-v);
   std::string r; do { r.insert(r.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return r;
}
MC_SECTION(small) { mc::strings("019+-x", 0, mc::tier(6, 7), [&](const std::string& s) { all_types<false>(s); }); }
MC_SECTION(small_all_iterators) { mc::strings("09+-.", 0, mc::tier(4, 5), [&](const std::string& s) { all_types<true>(s); }); }
MC_SECTION(sixteen_bits)
{
   // every value a 16-bit type can hold and a wide margin, all sign forms, several widths
   for (long v = 0; v <= 140000; ++v)
   {
      std::string n = std::to_string(v);
      MC_CASE(o << "parse 16-bit integer " << n);
      one_fast<short>(n); one_fast<short>("-" + n); one_fast<short>("+" + n); one_fast<unsigned short>(n); one_fast<unsigned short>("+" + n);
      if (v % 7 == 0) { one_fast<short>("-000" + n); one_fast<unsigned short>("0" + n); one_fast<int>("-" + n); one_fast<long long>(n); }
   }
}
static const char* signs[] = { "", "+", "-", "--", "+-" };
MC_SECTION(around_limits)
{
   // each type's limits and all powers of two and ten, +- a margin, with leading zeros and trailing characters
   std::set<std::pair<long long,long long> > dummy;
   std::set<std::string> mags;
   for (int bit = 0; bit <= 66; ++bit) for (int d = -12; d <= 12; ++d) { Big v = ((Big)1 << bit) + d; if (v >= 0) mags.insert(dec(v)); }
   Big p = 1; for (int e = 0; e <= 22; ++e, p *= 10) for (int d = -12; d <= 12; ++d) if (p + d >= 0) mags.insert(dec(p + d));
   for (std::set<std::string>::iterator m = mags.begin(); m != mags.end(); ++m)
      for (int g = 0; g < 5; ++g)
         for (int z = 0; z < 4; ++z)
            all_types<false>(signs[g] + std::string(z == 3 ? 40 : z, '0') + *m);
   for (std::set<std::string>::iterator m = mags.begin(); m != mags.end(); ++m)
      for (int g = 0; g < 3; ++g) { all_types<true>(signs[g] + *m); all_types<false>(signs[g] + *m + "x"); all_types<false>(signs[g] + *m + "0"); all_types<false>(signs[g] + *m + "9"); all_types<false>(" " + *m); }
}
MC_SECTION(limit_digits)
{
   // the decimal limits of every type, changed at each digit position to each digit, the tail kept, zeroed or nined
   const char* lims[] = { "32767", "32768", "65535", "2147483647", "2147483648", "4294967295", "9223372036854775807", "9223372036854775808", "18446744073709551615" };
   for (int l = 0; l < 9; ++l)
   {
      std::string s = lims[l];
      for (size_t i = 0; i < s.size(); ++i)
         for (char c = '0'; c <= '9'; ++c)
            for (int tail = 0; tail < 3; ++tail)
               for (int g = 0; g < 3; ++g)
               {
                  std::string t = s; t[i] = c;
                  for (size_t j = i + 1; j < t.size(); ++j) if (tail) t[j] = tail == 1 ? '0' : '9';
                  all_types<false>(signs[g] + t);
               }
   }
}
MC_SECTION(digit_counts)
{
   for (size_t n = 1; n <= (size_t)mc::tier(40, 200); ++n)
      for (char c = '0'; c <= '9'; ++c)
         for (size_t z = 0; z <= 24; z += (z < 4 ? 1 : 10))
            for (int g = 0; g < 3; ++g)
            {
               std::string s = signs[g] + std::string(z, '0') + std::string(n, c);
               all_types<false>(s);
               std::string t = signs[g] + std::string(z, '0'); for (size_t i = 0; i < n; ++i) t += (char)('0' + (c - '0' + i) % 10);
               all_types<false>(t);
            }
}
MC_SECTION(every_byte_at_every_position)
{
   for (size_t n = 1; n <= 22; ++n)
      for (size_t i = 0; i < n; ++i)
         for (int c = 0; c < 256; ++c)
         {
            std::string s(n, '1'); s[i] = (char)c;
            all_types<false>(s);
            if (n <= 20) { s = "-" + s; all_types<false>(s); s[0] = '+'; all_types<false>(s); }
         }
}
MC_SECTION(bytes_and_bools)
{
   for (int c = 0; c < 256; ++c)
      for (int n = 0; n <= 3; ++n)
      {
         MC_CASE(o << "single byte " << c << " repeated " << n);
         std::string s(n, (char)c);
         { char t = 'q'; MC_EQ(strtk::string_to_type_converter(s, t), n == 1); MC_EQ(t, n == 1 ? (char)c : 'q'); }
         { signed char t = 'q'; MC_EQ(strtk::string_to_type_converter(s, t), n == 1); MC_EQ((int)t, (int)(n == 1 ? (signed char)c : 'q')); }
         { unsigned char t = 'q'; MC_EQ(strtk::string_to_type_converter(s, t), n == 1); MC_EQ((int)t, (int)(n == 1 ? (unsigned char)c : 'q')); }
         if (c == '0' || c == '1') { bool t = c == '0'; MC_EQ(strtk::string_to_type_converter(s, t), n == 1); MC_EQ(t, n == 1 ? c == '1' : c == '0'); }
         { std::string t = "q"; MC_EQ(strtk::string_to_type_converter(s, t), true); MC_EQ(t, s); }
         mc::outcome(mc::Hash()(c)(n));
      }
}
MC_SECTION(huge)
{
   const char* tails[] = { "", "0", "9", "127", "128", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "x", "5x", " ", "-1", "+" };
   for (size_t n : mc::scales(200, 140000))
      for (int g = 0; g < 3; ++g)
      {
         for (size_t t = 0; t < sizeof tails / sizeof *tails; ++t) all_types<false>(signs[g] + std::string(n, '0') + tails[t]);
         all_types<false>(signs[g] + std::string(n, '9')); all_types<false>(std::string(signs[g]) + "x" + std::string(n, '0')); all_types<false>(std::string(n, ' ') + signs[g] + "5"); all_types<false>(std::string(n, '-')); all_types<false>(signs[g] + std::string(n / 2, '0') + "y" + std::string(n / 2, '0') + "7");
      }
}
MC_MAIN
