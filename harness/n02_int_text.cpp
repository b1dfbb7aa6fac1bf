// Integer to text: canonical decimal text, and reading it back gives the value.
#include "strtk.hpp"
#include "mc.hpp"
#include <limits>
typedef __int128 Big;
static std::string dec(Big v)
{
   if (v < 0) return "-" + dec(-v);
   char b[48]; size_t n = sizeof b; do { b[--n] = (char)('0' + (int)(v % 10)); v /= 10; } while (v); return std::string(b + n, sizeof b - n);
}
template <typename T> static void one(T v)
{
   const std::string w = dec((Big)v);
   static std::string s = "previous";       // it holds the number before
   bool ok = strtk::type_to_string(v, s);
   if (!ok || s != w) { MC_EQM(ok, true, "type_to_string"); MC_EQM(s, w, "type_to_string text"); }
   T t = (T)(v + 1);
   if (!strtk::string_to_type_converter(s, t) || t != v) { MC_EQM(t, v, "read back"); mc::fail("not read back"); }
}
template <typename T> static void both(T v)
{
   one<T>(v); one<T>((T)(0 - (typename std::make_unsigned<T>::type)v));
   const std::string w = dec((Big)v); MC_EQM(strtk::type_to_string(v), w, "type_to_string<T>(v)");
   for (std::string t : mc::stale(w)) { MC_TRUE(strtk::type_to_string(v, t)); MC_EQM(t, w, "into a string with other contents"); }
   mc::outcome((uint64_t)v);
}
#define EACH_INT(M) M(short) M(unsigned short) M(int) M(unsigned int) M(long) M(unsigned long) M(long long) M(unsigned long long)
static void every_type(Big v)
{
   MC_CASE(o << "type_to_string(" << dec(v) << ") and its negation, narrowed to every type");
   #define M(T) both<T>((T)v);
   EACH_INT(M)
   #undef M
}
MC_SECTION(sixteen_bits) { for (long v = 0; v < 65536; ++v) { MC_CASE(o << "16-bit value " << v); one<short>((short)v); one<unsigned short>((unsigned short)v); mc::outcome(v); } }
MC_SECTION(three_digit_groups)
{
   // every value 0..999 in every group of three digits, with several neighbours
   const unsigned long long pw[] = { 1ULL, 1000ULL, 1000000ULL, 1000000000ULL, 1000000000000ULL, 1000000000000000ULL, 1000000000000000000ULL };
   for (int g = 0; g < 7; ++g)
      for (int v = 0; v < 1000; ++v)
      {
         every_type((Big)pw[g] * v); every_type((Big)pw[g] * v + 1); every_type((Big)pw[g] * v + pw[g] / 2 + 7); every_type((Big)pw[g] * v * 10); every_type((Big)pw[g] * v * 100 + 12);
         every_type((Big)pw[g] * v - 1);
      }
}
MC_SECTION(around_powers)
{
   for (int bit = 0; bit <= 64; ++bit) for (int d = -1050; d <= 1050; ++d) every_type(((Big)1 << bit) + d);
   Big p = 1; for (int e = 0; e <= 19; ++e, p *= 10) for (int d = -1050; d <= 1050; ++d) for (int k = 1; k <= 9; k += 4) every_type(p * k + d);
}
MC_SECTION(contiguous_ranges)
{
   const long n = mc::tier(700000, 20000000);
   for (long v = 0; v < n; ++v) { MC_CASE(o << "32-bit value " << v); one<int>((int)v); one<unsigned int>((unsigned int)(4294967295u - v)); one<int>((int)(-2147483647L - 1 + v)); one<long long>(9223372036854775807LL - v); one<unsigned long long>(18446744073709551615ULL - v); mc::outcome(v); }
}
MC_SECTION(other_types)
{
   for (int c = 0; c < 256; ++c)
   {
      MC_CASE(o << "byte " << c << " to string");
      MC_EQ(strtk::type_to_string((char)c), std::string(1, (char)c)); MC_EQ(strtk::type_to_string((signed char)c), std::string(1, (char)c)); MC_EQ(strtk::type_to_string((unsigned char)c), std::string(1, (char)c));
      std::string s(5, (char)c); MC_EQ(strtk::type_to_string(s), s);
      mc::outcome(c);
   }
   MC_CASE(o << "bool to string");
   MC_EQ(strtk::type_to_string(true), std::string("1")); MC_EQ(strtk::type_to_string(false), std::string("0"));
}
MC_MAIN
