// Sinks: hexadecimal, base64, truncated and decimal numbers, and containers inside a field.
#include "strtk.hpp"
#include "split_model.hpp"
#include <cmath>
#include <limits>
#include <algorithm>
#include <queue>
#include <stack>
typedef unsigned char uc;
typedef unsigned long long u64;
static int nib(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// runs a sink made by make() through the direct, iterator and parse entry points
template <typename Make, typename After>
static void field(const std::string& s, bool want, Make make, After after)
{
   mc::Buf<char> b(s); mc::Buf<uc> u(s);
   { auto a = make(); MC_EQM(strtk::string_to_type_converter((const char*)b.begin(), (const char*)b.end(), a), want, "const char* range"); after(want); }
   { auto a = make(); MC_EQM(strtk::string_to_type_converter(s.begin(), s.end(), a), want, "string range"); after(want); }
   if (s.empty() || s.find('|') != std::string::npos) return;
   for (int pos = 0; pos < 3; ++pos)
   {
      auto a = make(); std::string l = "old", r = "old";
      bool got = pos == 0 ? strtk::parse(s + "|right", "|", a, r) : pos == 1 ? strtk::parse("left|" + s, "|", l, a) : strtk::parse(s, "|", a);
      MC_EQM(got, want, "parsed field"); after(want);
      if (want && pos == 0) MC_EQ(r, std::string("right"));
   }
}
template <typename T> static void hex_one(const std::string& s, u64 old = 77)
{
   std::string d = s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') ? s.substr(2) : s;
   bool ok = !d.empty() && d.size() <= 2 * sizeof(T); u64 v = 0;
   for (size_t i = 0; i < d.size(); ++i) { int n = nib(d[i]); if (n < 0) ok = false; else v = v * 16 + n; }
   T t = (T)old;
   field(s, ok, [&] { t = (T)old; return strtk::hex_to_number_sink<T>(t); }, [&](bool k) { MC_EQM(t, k ? (T)v : (T)old, "hex value"); });
   strtk::hex_to_number_sink<T> h(t); MC_TRUE(!h.valid());
   h = std::string("1"); MC_TRUE(h.valid()); MC_EQ(t, (T)1);
   h = s; MC_EQ(h.valid(), ok); if (ok) MC_EQ(t, (T)v);
   strtk::hex_to_number_sink<T> c(h); MC_EQ(c.valid(), ok);
   { T t2 = 5; strtk::hex_to_number_sink<T> z(t2); z = c; MC_EQ(z.valid(), ok); t = 3; z = std::string("1f"); MC_TRUE(z.valid()); MC_EQM(t, (T)31, "a sink that was assigned writes where the assigned one does"); MC_EQ(t2, (T)5); MC_EQ(c.valid(), ok); }
   mc::outcome(mc::Hash()(ok)((uint64_t)t));
}
static void hex_all(const std::string& s)
{
   MC_CASE(o << "hex number " << s);
   hex_one<short>(s); hex_one<unsigned short>(s); hex_one<int>(s); hex_one<unsigned int>(s); hex_one<long>(s); hex_one<unsigned long>(s); hex_one<long long>(s); hex_one<u64>(s);
}
MC_SECTION(hex_small) { mc::strings("0xA9fg", 0, mc::tier(5, 6), [](const std::string& s) { hex_all(s); }); }
MC_SECTION(hex_digits)
{
   for (size_t n = 1; n <= 18; ++n) for (size_t i = 0; i < n; ++i) for (int c = 0; c < 256; ++c)
   { if ((c >= ' ' && c <= 'g') || c % 16 == 0) { std::string s(n, '7'); s[i] = (char)c; hex_all(s); if (n < 17) hex_all("0x" + s); if (c == 'e') hex_all("0X" + s); } }
   for (size_t n = 1; n <= 17; ++n) { hex_all(std::string("123456789ABCDEF0F").substr(0, n)); hex_all("0x" + std::string("fedcba98765432101").substr(0, n)); hex_all(std::string(n, 'F')); hex_all(std::string(n, '0')); }
}
static std::string b64(const std::string& s) { std::string o; strtk::convert_bin_to_base64(s, o); return o; }
template <typename T> static void b64_one(const std::string& bytes)
{
   u64 v = 0; for (size_t i = 0; i < bytes.size(); ++i) v = v * 256 + (uc)bytes[i];
   bool ok = !bytes.empty() && bytes.size() <= sizeof(T); T t = 77; const std::string s = b64(bytes);
   field(s, ok, [&] { t = 77; return strtk::base64_to_number_sink<T>(t); }, [&](bool k) { MC_EQM(t, k ? (T)v : (T)77, "base64 value"); });
   strtk::base64_to_number_sink<T> h(t); MC_TRUE(!h.valid()); h = b64("A"); MC_TRUE(h.valid()); h = s; MC_EQ(h.valid(), ok); if (ok) MC_EQ(t, (T)v);
   strtk::base64_to_number_sink<T> c(h); MC_EQ(c.valid(), ok);
   { const T keep = t; T t2 = 5; strtk::base64_to_number_sink<T> z(t2); z = c; MC_EQ(z.valid(), ok); z = b64("A"); MC_TRUE(z.valid()); MC_EQM(t, (T)'A', "a sink that was assigned writes where the assigned one does"); MC_EQ(t2, (T)5); MC_EQ(c.valid(), ok); t = keep; }
   if (ok) { std::string bad = s; bad[0] = '-'; t = 77; h = bad; MC_TRUE(!h.valid()); MC_EQ(t, (T)77); }
   mc::outcome(mc::Hash()(ok)((uint64_t)t));
}
static void b64_all(const std::string& s)
{ MC_CASE(o << "base64 number of bytes " << s); b64_one<short>(s); b64_one<unsigned short>(s); b64_one<int>(s); b64_one<unsigned int>(s); b64_one<long>(s); b64_one<unsigned long>(s); b64_one<long long>(s); b64_one<u64>(s); }
MC_SECTION(base64_numbers)
{
   mc::strings(std::string("\x00\x01\x7F\xFF", 4), 0, mc::tier(5, 6), [](const std::string& s) { b64_all(s); });
   for (size_t n = 1; n <= 14; ++n) for (size_t i = 0; i < n; ++i) for (int c = 0; c < 256; c += n > 4 ? 5 : 1) { std::string s(n, '\x12'); s[i] = (char)c; b64_all(s); }
}
MC_SECTION(hex_strings)
{
   auto one = [](const std::string& s) {
      MC_CASE(o << "hex string " << s);
      std::string d = s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') ? s.substr(2) : s, w; bool ok = !d.empty() && d.size() % 2 == 0, all = true;
      for (size_t i = 0; i < d.size(); ++i) if (nib(d[i]) < 0) all = false;
      if (all && ok) for (size_t i = 0; i < d.size(); i += 2) w += (char)(nib(d[i]) * 16 + nib(d[i + 1]));
      std::string t; mc::Buf<char> b(s);
      { strtk::hex_to_string_sink k(t); MC_EQ(strtk::string_to_type_converter((const char*)b.begin(), (const char*)b.end(), k), ok); MC_EQ(k.valid(), ok); if (ok && all) MC_EQ(t, w); strtk::hex_to_string_sink c(k); MC_EQ(c.valid(), ok); std::string t2 = "u"; strtk::hex_to_string_sink z(t2); z = c; MC_EQ(z.valid(), ok); }
      if (s.empty()) return;
      { strtk::hex_to_string_sink k(t); std::string r; t = "old"; MC_EQ(strtk::parse(s + "|right", "|", k, r), ok); if (ok) MC_EQ(r, std::string("right")); if (ok && all) MC_EQ(t, w); }
      { strtk::hex_to_string_sink k(t); std::string l; MC_EQ(strtk::parse("left|" + s, "|", l, k), ok); if (ok && all) MC_EQ(t, w); }
      mc::outcome(t);
   };
   mc::strings("0xA9f", 0, mc::tier(6, 7), one);
   for (int a = 0; a < 256; ++a) for (size_t n = 1; n < 6; ++n) { std::string raw(n, (char)a); std::string h = strtk::convert_bin_to_hex(raw); one(h); one("0x" + h); one(h + "1"); }
   for (size_t n = 0; n < 200; ++n) { std::string h; for (size_t i = 0; i < n; ++i) h += "0123456789abcdefABCDEF"[(3 * i + n) % 22]; one(h); one("0X" + h); }
}
static bool int_of(const std::string& s, bool sg, __int128 lo, __int128 hi, __int128& v)
{
   size_t i = 0; bool neg = false; if (!s.empty() && (s[0] == '+' || (sg && s[0] == '-'))) { neg = s[0] == '-'; i = 1; }
   if (i == s.size() || s.size() > 30) return false; v = 0;
   for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + s[i] - '0'; }
   if (neg) v = -v; return v >= lo && v <= hi;
}
template <typename T> static void trunc_one(const std::string& s)
{
   typedef std::numeric_limits<T> L; T t; __int128 v;
   std::string ip = s.substr(0, s.find('.')); bool ok = int_of(ip, L::is_signed, L::min(), L::max(), v);
   field(s, ok, [&] { t = 77; strtk::truncated_int<T> k; k(t); return k; }, [&](bool g) { MC_EQM(t, g ? (T)v : (T)77, "truncated value"); });
   for (size_t f = 0; f <= 3; ++f)
   {
      __int128 w; bool okf = s.size() >= f + 1 && int_of(s.substr(0, s.size() - f - 1), L::is_signed, L::min(), L::max(), w);
      field(s, okf, [&] { t = 77; strtk::truncated_int<T> k; k(t).fractional_size(f); return k; }, [&](bool g) { MC_EQM(t, g ? (T)w : (T)77, "truncated value, known fraction"); });
      strtk::truncated_int<T> k; k(t).fractional_size(f).fractional_unknown_size(); t = 77; MC_EQ(strtk::string_to_type_converter(s, k), ok); MC_EQ(t, ok ? (T)v : (T)77);
   }
   // trimmed form
   strtk::truncated_int<T> k; k(t); t = 77; std::string r;
   if (s.find('|') == std::string::npos) { MC_EQ(strtk::parse("  " + s + " |x", "|", strtk::trim(" ", k).ref(), r), ok); MC_EQ(t, ok ? (T)v : (T)77); }
   strtk::truncated_int<T> unbound; MC_TRUE(!strtk::string_to_type_converter(s, unbound));
   mc::outcome(mc::Hash()(ok)((uint64_t)t));
}
MC_SECTION(truncated)
{
   auto all = [](const std::string& s) { MC_CASE(o << "truncated_int " << s); trunc_one<int>(s); trunc_one<short>(s); trunc_one<unsigned int>(s); trunc_one<unsigned short>(s); trunc_one<long long>(s); trunc_one<u64>(s); trunc_one<long>(s); };
   mc::strings("03.-x", 0, mc::tier(5, 6), all);
   static const char* lim[] = { "32767","32768","-32768","-32769","65535","65536","2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","9223372036854775807","-9223372036854775808","18446744073709551615","18446744073709551616" };
   for (int i = 0; i < 16; ++i) { all(lim[i]); for (size_t f = 0; f < 5; ++f) all(std::string(lim[i]) + "." + std::string(f, '9')); all(std::string(lim[i]) + ".garbage"); }
}
// value of "[+-]digits[.digits]" with the fraction cut to frac digits
template <typename T> static void dec_one(const std::string& s, size_t is, size_t fs)
{
   size_t i = 0; bool neg = false; if (!s.empty() && (s[0] == '+' || s[0] == '-')) { neg = s[0] == '-'; i = 1; }
   bool ok = i < s.size(); while (i < s.size() && s[i] == '0') ++i;
   long double d = 0, f = 0; size_t n = 0;
   while (i < s.size() && s[i] != '.' && ok) { if (s[i] < '0' || s[i] > '9') { if (n >= is) return; ok = false; } else { if (n == is) return; d = d * 10 + (s[i] - '0'); ++n; ++i; } }     // longer integer parts are unspecified
   if (i < s.size()) ++i;
   size_t m = std::min(fs, s.size() - std::min(i, s.size()));
   for (size_t k = 0; k < m && ok; ++k) { if (s[i + k] < '0' || s[i + k] > '9') ok = false; else f = f * 10 + (s[i + k] - '0'); }
   long double w = d; for (size_t k = 0; k < m; ++k) f /= 10; w += f; if (neg) w = -w;
   T t; const long double eps = sizeof(T) == 4 ? 1.2e-7L : 4.5e-16L;
   field(s, ok, [&] { t = (T)77.5; return strtk::decimal_sink<T>(t, is, fs); }, [&](bool k) { if (k ? fabsl(t - w) > fabsl(w) * eps : t != (T)77.5) { mc::Out o; o << "decimal_sink(" << is << "," << fs << ") gave " << (double)t << " want " << (double)w; mc::fail(o.str()); } });
   strtk::decimal_sink<T> k(1, 1); k.int_size(is).frac_size(fs)(t); t = (T)77.5; MC_EQ(strtk::string_to_type_converter(s, k), ok); if (ok) MC_TRUE(fabsl(t - w) <= fabsl(w) * eps); else MC_EQ(t, (T)77.5);
   strtk::decimal_sink<T> unbound(is, fs); MC_TRUE(!strtk::string_to_type_converter(s, unbound));
   mc::outcome(mc::Hash()(ok)(mc::fnv(&t, sizeof t)));
}
MC_SECTION(decimal)
{
   mc::strings("03.-x", 0, mc::tier(5, 6), [](const std::string& s) { for (size_t is = 0; is < 5; ++is) for (size_t fs = 0; fs < 4; ++fs) { MC_CASE(o << "decimal_sink(" << is << "," << fs << ") " << s); dec_one<double>(s, is, fs); dec_one<float>(s, is, fs); } });
   for (size_t a = 0; a <= 15; ++a) for (size_t b = 0; b <= 15; ++b) for (int p = 0; p < 3; ++p)
   {
      std::string x, y; for (size_t i = 0; i < a; ++i) x += "913572468"[(i + p) % 9]; for (size_t i = 0; i < b; ++i) y += "582746193"[(i * (p + 1)) % 9];
      std::string s = x + "." + y; MC_CASE(o << "decimal_sink " << s);
      for (size_t is = a; is < a + 3; ++is) for (size_t fs = 0; fs <= 15; fs += 3) { dec_one<double>(s, is, fs); dec_one<double>("-000" + s, is, fs); dec_one<float>("+" + s, is, fs); dec_one<double>(x, is, fs); }
   }
}
// containers filled from one field, between two ordinary fields
template <typename C> static std::vector<typename C::value_type> items(const C& c) { return std::vector<typename C::value_type>(c.begin(), c.end()); }
template <typename T> static std::vector<T> items(std::queue<T> q) { std::vector<T> r; while (!q.empty()) { r.push_back(q.front()); q.pop(); } return r; }
template <typename T> static std::vector<T> items(std::stack<T> q) { std::vector<T> r; while (!q.empty()) { r.push_back(q.top()); q.pop(); } std::reverse(r.begin(), r.end()); return r; }
template <typename T> static std::vector<T> items(std::priority_queue<T> q) { std::vector<T> r; while (!q.empty()) { r.push_back(q.top()); q.pop(); } std::reverse(r.begin(), r.end()); return r; }
template <typename C> struct order { template <typename V> static void fix(V&) {} };
template <typename T> struct order<std::set<T> > { template <typename V> static void fix(V& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); } };
template <typename T> struct order<std::multiset<T> > { template <typename V> static void fix(V& v) { std::sort(v.begin(), v.end()); } };
template <typename T> struct order<std::priority_queue<T> > { template <typename V> static void fix(V& v) { std::sort(v.begin(), v.end()); } };
template <typename C> static void cont(const std::vector<int>& v, const std::string& delims, int ctor)
{
   typedef typename C::value_type T;
   std::string s; std::vector<T> w;
   for (size_t i = 0; i < v.size(); ++i) { if (i) s += delims[i % delims.size()]; std::string x = std::to_string(v[i]); s += x; T t; strtk::string_to_type_converter(x, t); w.push_back(t); }
   if (s.empty()) return;
   std::vector<T> full = w; order<C>::fix(full);
   C c; std::string l, r;
   auto mk = [&] { if (ctor == 0) { strtk::sink_type<C> k(delims); k(c); return k; } if (ctor == 1) return strtk::sink_type<C>(c, delims); strtk::sink_type<C> k("#"); k(c, delims); return k; };
   { c = C(); auto k = mk(); MC_TRUE(strtk::parse("left|" + s + "|right", "|", l, k, r)); MC_EQM(items(c), full, "container field"); MC_EQ(r, std::string("right")); }
   { c = C(); auto k = mk(); MC_TRUE(strtk::parse(s, "|", k.reference())); MC_EQM(items(c), full, "container field alone"); }
   { c = C(); auto k = mk(); MC_TRUE(strtk::string_to_type_converter(s, k)); MC_EQM(items(c), full, "container converter"); }
   for (size_t n = 1; n <= v.size() + 1; ++n)
   {
      c = C(); auto k = mk(); k.count(n); bool got = strtk::parse("left|" + s + "|right", "|", l, k, r);
      std::vector<T> part0(w.begin(), w.begin() + std::min(n, w.size())); order<C>::fix(part0);
      MC_EQM(got, part0.size() == n, "count");      // a set counts its distinct elements
      if (got) { std::vector<T> part(w.begin(), w.begin() + n); order<C>::fix(part); MC_EQM(items(c), part, "first n of a container field"); }
   }
   static const size_t no[] = { 255, 256, 65535, 65536, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x100000000ull, 0x100000001ull, 5000000000ull, ~(size_t)0 >> 1, ~(size_t)0 - 1 };
   for (size_t n : no) { c = C(); auto k = mk(); k.count(n); MC_EQM(strtk::parse("left|" + s + "|right", "|", l, k, r), false, "more asked for than there are"); c = C(); auto q = mk(); q.count(n); MC_EQM(strtk::string_to_type_converter(s, q), false, "more asked for than there are"); }
   { c = C(); auto k = mk(); k.count(~(size_t)0); MC_TRUE(strtk::parse("left|" + s + "|right", "|", l, k, r)); MC_EQM(items(c), full, "no count"); MC_EQ(r, std::string("right")); }
}
template <typename T> static void conts(const std::vector<int>& v)
{
   static const char* dl[] = { ",", ",;", " " };
   for (int d = 0; d < 3; ++d) for (int k = 0; k < 3; ++k)
   { cont<std::vector<T> >(v, dl[d], k); cont<std::deque<T> >(v, dl[d], k); cont<std::list<T> >(v, dl[d], k); cont<std::set<T> >(v, dl[d], k); cont<std::multiset<T> >(v, dl[d], k); cont<std::queue<T> >(v, dl[d], k); cont<std::stack<T> >(v, dl[d], k); cont<std::priority_queue<T> >(v, dl[d], k); }
}
MC_SECTION(containers)
{
   for (size_t n = 1; n <= mc::tier((size_t)4, (size_t)5); ++n) mc::tuples(3, n, [](const std::vector<size_t>& t) { std::vector<int> v; for (size_t i = 0; i < t.size(); ++i) v.push_back((int)t[i] * 7 + 1); MC_CASE(o << "container sink " << v); conts<int>(v); conts<std::string>(v); mc::outcome(mc::Hash()(v.size())((uint64_t)v[0])); });
   std::vector<int> big; for (int i = 0; i < 40; ++i) { big.push_back(i * 37 % 50); MC_CASE(o << "container sink " << big); conts<int>(big); conts<double>(big); }
}
MC_SECTION(container_lists_in_turn)
{
   const std::string s = "1,2;;3:4,5;6";
   mc::lists_in_turn(",;:", 3, [&](const std::string& d) {
      const auto w = texts(s, model_split(s, d, 1)); std::vector<std::string> a; std::string x, y; MC_CASE(o << "container sink, delims=" << d << " of " << s);
      strtk::sink_type<std::vector<std::string> > k(d); k(a); const bool ok = strtk::parse("x|" + s + "|y", "|", x, k, y);
      MC_TRUE(ok); MC_EQM(a, w, "container field"); MC_EQ(y, std::string("y"));
      a.clear(); strtk::sink_type<std::vector<std::string> > m(a, mc::same_place(d)); MC_TRUE(strtk::string_to_type_converter(s, m)); MC_EQM(a, w, "container converter"); mc::outcome(mc::Hash()(d));
   });
}
MC_SECTION(containers_bad_element)
{
   for (size_t n = 1; n <= 5; ++n) for (size_t i = 0; i < n; ++i)
   {
      std::string s; for (size_t k = 0; k < n; ++k) { if (k) s += ','; s += k == i ? "x" : "5"; }
      MC_CASE(o << "container sink over " << s);
      std::vector<int> c; std::string l; strtk::sink_type<std::vector<int> > k(c, ","); k.count(n); MC_TRUE(!strtk::parse("left|" + s, "|", l, k));
      strtk::sink_type<std::vector<int> > unbound(","); MC_TRUE(!strtk::string_to_type_converter(s, unbound));
   }
}
template <typename C> static void many(const std::vector<int>& v, const std::string& s)
{
   typedef typename C::value_type T; std::vector<T> w; for (size_t i = 0; i < v.size(); ++i) { T t; strtk::string_to_type_converter(std::to_string(v[i]), t); w.push_back(t); }
   std::vector<T> full = w; order<C>::fix(full); C c; std::string l, r;
   { strtk::sink_type<C> k(c, ",;"); MC_TRUE(strtk::parse("left|" + s + "|right", "|", l, k, r)); MC_TRUE(items(c) == full); MC_EQ(r, std::string("right")); }
   const size_t n = v.size(); const size_t ns[] = { 1, n - 1, n, n + 1 };
   for (int q = 0; q < 4; ++q) { c = C(); strtk::sink_type<C> k(c, ",;"); k.count(ns[q]); std::vector<T> part(w.begin(), w.begin() + std::min(ns[q], n)); order<C>::fix(part); const bool got = strtk::parse("left|" + s + "|right", "|", l, k, r); MC_EQM(got, part.size() == ns[q], "count"); if (got) MC_TRUE(items(c) == part); }
}
MC_SECTION(huge)
{
   for (size_t n : mc::scales(60, 70000))
   {
      MC_CASE(o << "container sinks over " << n << " elements");
      std::vector<int> v; std::string s; for (size_t i = 0; i < n; ++i) { v.push_back((int)(i * 7919 % 100003)); if (i) s += ",;"[i % 2]; s += std::to_string(v[i]); }
      many<std::vector<int> >(v, s); many<std::deque<int> >(v, s); many<std::list<int> >(v, s); many<std::set<int> >(v, s); many<std::multiset<int> >(v, s); many<std::queue<int> >(v, s); many<std::stack<int> >(v, s); many<std::priority_queue<int> >(v, s); many<std::vector<std::string> >(v, s); many<std::deque<double> >(v, s);
      mc::outcome(n);
   }
   for (size_t n : mc::scales(60, 70000))
   {
      MC_CASE(o << "sinks over texts of " << n << " characters");
      std::string h, w, t, r; for (size_t i = 0; i < n; ++i) { h += "0123456789abcdefABCDEF"[(3 * i + n) % 22]; if (i % 2) w += (char)(nib(h[i - 1]) * 16 + nib(h[i])); }
      for (int pre = 0; pre < 2; ++pre) { t = "old"; strtk::hex_to_string_sink k(t); MC_EQM(strtk::parse((pre ? "0x" : "") + h + "|right", "|", k, r), n % 2 == 0, "hex string"); if (n % 2 == 0) MC_TRUE(t == w); }
      for (int d = 0; d < 2; ++d)
      {
         const std::string frac = d ? std::string(n, '9') : mc::letters(n, '0'); int x = 77;           // anything may follow the point of a truncated integer
         { x = 77; strtk::truncated_int<int> k; k(x); MC_TRUE(strtk::string_to_type_converter("-123." + frac, k)); MC_EQ(x, -123); }
         { x = 77; strtk::truncated_int<int> k; k(x).fractional_size(n); MC_TRUE(strtk::string_to_type_converter("456." + frac, k)); MC_EQ(x, 456); x = 77; MC_TRUE(!strtk::string_to_type_converter("456." + frac.substr(1), k) || x != 77); }
         if (d) for (size_t fs : { (size_t)0, (size_t)1, (size_t)9 }) { double y = 77.5; strtk::decimal_sink<double> k(y, 3, fs); MC_TRUE(strtk::string_to_type_converter("12." + frac, k)); long double f = 0, q = 1; for (size_t i = 0; i < fs; ++i) { q /= 10; f += 9 * q; } MC_TRUE(fabsl(y - (12 + f)) < 1e-13L); }
      }
      { const std::string z(n, '0'); double y = 77.5; strtk::decimal_sink<double> k(y, 3, 2); MC_TRUE(strtk::string_to_type_converter(z + "7.25", k)); MC_EQ(y, 7.25); }
      { u64 x = 77; strtk::hex_to_number_sink<u64> k(x); MC_TRUE(!strtk::string_to_type_converter(h, k)); MC_EQ(x, 77u); strtk::base64_to_number_sink<u64> q(x); MC_TRUE(!strtk::string_to_type_converter(b64(h), q)); MC_EQ(x, 77u); }
      mc::outcome(n);
   }
}
MC_MAIN
