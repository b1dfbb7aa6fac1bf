// Real parsing: accepted grammar, value within rounding of the decimal text, target untouched on failure.
#include "strtk.hpp"
#include "mc.hpp"
#include <cmath>
#include <deque>
#include <limits>
enum Kind { Reject, Number, Inf, Nan, Unspecified };
struct Model { Kind kind; bool neg; std::string text; size_t digits; bool plain_int; };
static bool is_word(const std::string& w, const char* lc, const char* uc) { return w == lc || w == uc; }
static Model model(const std::string& s)
{
   Model m; m.kind = Reject; m.neg = false; m.digits = 0; m.plain_int = true;
   size_t i = 0;
   if (i < s.size() && (s[i] == '+' || s[i] == '-')) { m.neg = s[i] == '-'; ++i; }
   const size_t body = i;
   std::string w = s.substr(i);
   if (w.compare(0, 3, "1.#") == 0) w = w.substr(3);        // MSVC spelling
   else if (!w.empty() && w[0] == '#') w = w.substr(1);
   if (is_word(w, "inf", "INF") || is_word(w, "infinity", "INFINITY")) { m.kind = Inf; return m; }
   if (is_word(w, "nan", "NAN")) { m.kind = Nan; return m; }
   for (size_t k = body + 1; k < s.size(); ++k) if (s[k] == 'i' || s[k] == 'I' || s[k] == 'n' || s[k] == 'N')
   {
      std::string t = s.substr(k);
      if (is_word(t, "inf", "INF") || is_word(t, "infinity", "INFINITY") || is_word(t, "nan", "NAN")) { m.kind = Unspecified; return m; }
   }
   size_t d = 0, e;
   while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++d; }
   if (i < s.size() && s[i] == '.') { ++i; m.plain_int = false; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++d; } }
   if (!d) return m;
   e = i;
   if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
   {
      ++i; m.plain_int = false;
      if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
      size_t first = i;
      while (i < s.size() && s[i] == '0') ++i;
      size_t sig = i;
      while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
      if (i == first || i - sig > 4) return m;
      e = i;
   }
   if (i < s.size() && (s[i] == 'f' || s[i] == 'F' || s[i] == 'l' || s[i] == 'L')) ++i;
   if (i != s.size()) return m;
   m.kind = Number; m.text = s.substr(0, e); m.digits = d;
   return m;
}
template <typename T> static const T untouched() { return (T)77.5; }
template <typename T> static bool good(const Model& m, bool r, T got)
{
   typedef std::numeric_limits<T> L;
   if (m.kind == Unspecified) return true;
   if (r != (m.kind != Reject)) return false;
   if (m.kind == Reject) return got == untouched<T>();
   if (m.kind == Nan) return got != got;
   if (m.kind == Inf) return got == (m.neg ? -L::infinity() : L::infinity());
   long double want = strtold(m.text.c_str(), 0);
   if (m.plain_int && fabsl(want) <= 9007199254740992.0L) return got == (T)(double)want;
   // an integer part beyond the double range with a negative exponent may come out infinite
   if (std::isinf(strtod(m.text.substr(0, m.text.find_first_of("eE.")).c_str(), 0)) && std::isinf(got)) return true;
   // and one below it with a positive exponent may have lost its digits
   { const size_t x = m.text.find_first_of("eE"); if (x != std::string::npos) { const long double mant = fabsl(strtold(m.text.substr(0, x).c_str(), 0)); if (mant < 2.2250738585072014e-308L && m.text.substr(0, x).find_first_of("123456789") != std::string::npos) return fabsl(got) <= fabsl(want) * (1 + 1e-6L) + L::min(); } }
   if (want == 0) return got == 0 || m.text.find_first_of("123456789") != std::string::npos;
   const long double work = sizeof(T) == sizeof(long double) ? L::epsilon() : (long double)std::numeric_limits<double>::epsilon();
   const long double rel = (m.digits + 8) * (sizeof(T) == sizeof(long double) ? std::numeric_limits<double>::epsilon() : work) + (sizeof(T) == 4 ? L::epsilon() : 0);
   long double top = L::max(), a = fabsl(want);
   if (a > top * (1 + rel)) return got == (want < 0 ? -L::infinity() : L::infinity());
   if (a > top * (1 - rel) && std::isinf(got)) return true;
   // one intermediate may be subnormal: the absolute error is then a few units of the smallest double
   return fabsl((long double)got - want) <= a * rel + 16 * (long double)L::denorm_min();
}
template <typename T> static void fast(const std::string& s, const Model& m, const char* what)
{
   T t = untouched<T>(); bool r = strtk::string_to_type_converter(s, t);
   if (!good<T>(m, r, t)) { mc::Out o; o << what << ": returned " << r << " value " << (double)t << ", expected kind " << (int)m.kind << " of " << m.text; mc::fail(o.str()); }
   mc::outcome(mc::Hash()((uint64_t)m.kind)(mc::fnv(&t, sizeof(T) == 16 ? 10 : sizeof(T))));
}
static void two(const std::string& s)
{ MC_CASE(o << "parse real " << s); Model m = model(s); fast<double>(s, m, "double"); fast<float>(s, m, "float"); }
template <typename T, typename It> static void via(It b, It e, const Model& m, const char* what)
{ T t = untouched<T>(); bool r = strtk::string_to_type_converter(b, e, t); if (!good<T>(m, r, t)) { mc::Out o; o << what << ": returned " << r << " value " << (double)t; mc::fail(o.str()); } }
template <typename T> static void every_form(const std::string& s)
{
   MC_CASE(o << "parse real (all forms) " << s);
   Model m = model(s); fast<T>(s, m, "string");
   mc::Buf<char> b(s); mc::Buf<unsigned char> u(s); std::deque<char> d(s.begin(), s.end()); std::string c = s;
   via<T>((const char*)b.begin(), (const char*)b.end(), m, "const char*"); via<T>(b.begin(), b.end(), m, "char*");
   via<T>((const unsigned char*)u.begin(), (const unsigned char*)u.end(), m, "const unsigned char*"); via<T>(u.begin(), u.end(), m, "unsigned char*");
   via<T>(c.begin(), c.end(), m, "string::iterator"); via<T>(s.begin(), s.end(), m, "string::const_iterator"); via<T>(d.begin(), d.end(), m, "deque::iterator");
   for (int form = 0; form < 3; ++form)
   {
      bool threw = false; T t = untouched<T>();
      try
      {
         t = form == 0 ? strtk::string_to_type_converter<T>(s) : form == 1 ? strtk::string_to_type_converter<T>((const char*)b.begin(), (const char*)b.end())
           : strtk::string_to_type_converter<T>(std::make_pair((const char*)b.begin(), (const char*)b.end()));
      }
      catch (const std::invalid_argument&) { threw = true; }
      if (!good<T>(m, !threw, t)) mc::fail("throwing form");
   }
   // as fields of a record
   if (s.find(',') == std::string::npos && !s.empty())
   {
      T x = untouched<T>(), y = untouched<T>(); bool r = strtk::parse(s + "," + s, ",", x, y);
      if (m.kind == Reject ? r : (m.kind != Unspecified && (!r || !good<T>(m, true, x) || !good<T>(m, true, y)))) mc::fail("parse of two fields");
   }
}
MC_SECTION(small) { mc::strings("05.e-+", 0, mc::tier(7, 8), [](const std::string& s) { two(s); }); }
MC_SECTION(small_suffix) { mc::strings("1.E-fLx", 0, mc::tier(6, 7), [](const std::string& s) { two(s); }); }
MC_SECTION(small_all_forms) { mc::strings("19.e-", 0, mc::tier(5, 6), [](const std::string& s) { every_form<double>(s); every_form<float>(s); every_form<long double>(s); }); }
MC_SECTION(words)
{
   static const char* w[] = { "inf","INF","infinity","INFINITY","nan","NAN","Inf","NaN","nAN","iNF","infinit","infinityx","in","na","INFinity","n","N","i","I","nanx","INFINITYX" };
   static const char* p[] = { "","+","-","#","+#","-#","1.#","-1.#","+1.#","1#","1.","x","--","1.##","."," " };
   for (int a = 0; a < 21; ++a) for (int b = 0; b < 16; ++b)
   {
      std::string s = std::string(p[b]) + w[a];
      two(s); every_form<double>(s); every_form<float>(s);
   }
   // every letter of every spelling replaced by every byte
   for (int a = 0; a < 6; ++a) for (int b = 0; b < 7; b += 3) for (size_t i = 0; i < strlen(w[a]); ++i) for (int c = 0; c < 256; ++c)
   { std::string t = w[a]; t[i] = (char)c; two(p[b] + t); }
   for (int a = 0; a < 6; ++a) for (size_t n = 0; n <= strlen(w[a]); ++n) { std::string t = w[a]; every_form<double>(t.substr(0, n)); every_form<double>("-" + t.substr(0, n)); every_form<double>(t.substr(n)); }
}
static const char* mantissas[] = { "0","1","9","10","1.5","0.1",".25","5.","123456789","1.7976931348623157","2.2250738585072014","4.9406564584124654","3.4028234663852886","1.17549435","0.000001","0.00000000000000000000","99999999999999999999999999","1234567.8901234567","000000000000000000000001","3.14159265358979323846264338327950288" };
MC_SECTION(exponents)
{
   for (int a = 0; a < 20; ++a)
      for (int e = -700; e <= 700; ++e)
      {
         std::string n = std::to_string(e < 0 ? -e : e), g = e < 0 ? "-" : "";
         two(std::string(mantissas[a]) + "e" + g + n); two(std::string("-") + mantissas[a] + "E" + (e < 0 ? "-" : "+") + n);
         if (e % 10 == 0) { two(std::string(mantissas[a]) + "e" + g + "0" + n + "f"); two(std::string(mantissas[a]) + "e" + g + "00000000" + n + "L"); two(std::string(mantissas[a]) + "e" + g + n + "0"); two(std::string(mantissas[a]) + "e" + g + n + "x"); }
      }
   for (int e = 0; e <= 12000; ++e) { two("1e" + std::to_string(e)); two("1e-" + std::to_string(e)); two("0e" + std::to_string(e)); }
   for (int a = 0; a < 20; ++a) for (int e = -330; e <= 330; e += 7) every_form<double>(std::string(mantissas[a]) + "e" + std::to_string(e));
}
MC_SECTION(digit_counts)
{
   // every number of integer and fraction digits up to far beyond the type's range
   static const char* pat[] = { "0","1","9","5","10","09","1234567890" };
   for (int p = 0; p < 7; ++p)
      for (size_t n = 0; n <= mc::tier((size_t)420, (size_t)1200); ++n)
      {
         std::string d; while (d.size() < n) d += pat[p]; d.resize(n);
         two(d); two(d + "."); two("." + d); two("-0." + d); two(d + "." + d); two("1." + d + "e-5"); two("0." + std::string(n, '0') + "123"); two(d + "e-300"); two(d + "f"); two("1" + std::string(n, '0') + ".5");
         if (n % 29 == 0) { every_form<double>(d + "." + d); every_form<long double>(d + "." + d); }
      }
}
MC_SECTION(decimals)
{
   // all values with up to five significant digits at every position of the point
   for (int v = 0; v < mc::tier(20000, 100000); ++v)
   {
      std::string n = std::to_string(v);
      for (size_t p = 0; p <= n.size(); ++p) two(n.substr(0, p) + "." + n.substr(p));
      if (v < 2000) for (size_t z = 1; z <= 20; ++z) { two("0." + std::string(z, '0') + n); two(std::string(z, '0') + n + ".0"); two(n + std::string(z, '0')); two(n + std::string(z, '0') + "." + n); }
   }
}
MC_SECTION(exact_integers)
{
   // every power of two and ten +-300 below 2^53 is exact, as integer text with or without sign, zeros and suffix
   for (int b = 0; b <= 53; ++b) for (int d = -300; d <= 300; ++d)
   { long long v = (1LL << b) + d; if (v < 0 || v > (1LL << 53)) continue; std::string n = std::to_string(v); two(n); two("-" + n); two("000" + n); two(n + "l"); }
   long long p = 1; for (int e = 0; e < 16; ++e, p *= 10) for (int k = 1; k < 10; ++k) for (int d = -300; d <= 300; ++d)
   { long long v = p * k + d; if (v < 0 || v > (1LL << 53)) continue; two(std::to_string(v)); two("+" + std::to_string(v)); }
}
MC_SECTION(bytes)
{
   // every byte value at (and inserted at) every position of valid numbers
   static const char* t[] = { "1","12","-3.5","+.25","12.","1e5","-1.5e-10","6.25E+3f","0.001L","inf","-infinity","nan","1.#INF","123456789012345678901234567890.12345e-20" };
   for (int k = 0; k < 14; ++k) { std::string s = t[k]; for (size_t i = 0; i <= s.size(); ++i) for (int c = 0; c < 256; ++c) { if (i < s.size()) { std::string a = s; a[i] = (char)c; two(a); } std::string b = s; b.insert(i, 1, (char)c); two(b); } for (size_t n = 0; n <= s.size(); ++n) { every_form<double>(s.substr(0, n)); every_form<float>(s.substr(n)); every_form<long double>(s.substr(0, n)); } }
}
MC_SECTION(huge)
{
   for (size_t n : mc::scales(1000, 70000))
      for (int g = 0; g < 3; ++g)
      {
         const std::string sg = g == 0 ? "" : g == 1 ? "-" : "+", z(n, '0'), k(n, '9');
         two(sg + z + "1.5"); two(sg + "1.5" + z); two(sg + "0." + z + "5"); two(sg + k + ".0"); two(sg + "." + k); two(sg + "2.5e" + z + "3"); two(sg + "2.5e-" + z + "3"); two(sg + "2.5e+" + z + "2f"); two(sg + z + "x"); two(sg + "0." + z + "x"); two(sg + k + "e-" + std::to_string(n)); two(sg + "0." + z + "1e" + std::to_string(n)); two(sg + "1e" + k); two(sg + "1e-" + k); two(sg + "1" + z); two(sg + "1.0" + z + "e5L"); two(sg + "inf" + z); two(z + sg + "5");
      }
}
MC_MAIN
