// U05: strtk::hash is a function of the elements and the seed, of every one of the elements and of nothing else.
#include "mc.hpp"
#include "strtk.hpp"
#include <deque>
#include <list>
typedef std::string S;
typedef unsigned int U;

// Every way of handing over the same elements gives the same answer, twice, and the elements are left alone.
template <typename T> static U same(const std::vector<T>& v, U seed)
{
   const U h = strtk::hash(v, seed);
   MC_EQM(strtk::hash(v, seed), h, "asked again");
   const std::deque<T> d(v.begin(), v.end()); const std::list<T> l(v.begin(), v.end());
   MC_EQM(strtk::hash(d, seed), h, "deque"); MC_EQM(strtk::hash(l, seed), h, "list");
   MC_EQM(strtk::hash(v.begin(), v.size(), seed), h, "vector iterator"); MC_EQM(strtk::hash(d.begin(), v.size(), seed), h, "deque iterator"); MC_EQM(strtk::hash(l.begin(), v.size(), seed), h, "list iterator");
   mc::Buf<T> b(v.size()); std::copy(v.begin(), v.end(), b.begin());
   MC_EQM(strtk::hash((const T*)b.begin(), v.size(), seed), h, "pointer to const"); MC_EQM(strtk::hash((T*)b.begin(), v.size(), seed), h, "pointer");
   MC_TRUE(std::equal(v.begin(), v.end(), b.begin()));
   return h;
}
static U same(const S& s, U seed)
{
   const U h = strtk::hash(s, seed); MC_EQM(strtk::hash(s, seed), h, "asked again");
   MC_EQM(strtk::hash(s.begin(), s.size(), seed), h, "string iterator"); S t = s; MC_EQM(strtk::hash(t.begin(), t.size(), seed), h, "mutable string iterator"); MC_EQ(t, s);
   mc::Buf<char> b(s); MC_EQM(strtk::hash((const char*)b.begin(), s.size(), seed), h, "const char*");
   bool ascii = true; for (char c : s) ascii = ascii && (signed char)c >= 0;
   if (ascii) { MC_EQM(strtk::hash((char*)b.begin(), s.size(), seed), h, "char*"); const std::vector<unsigned char> u(s.begin(), s.end()); MC_EQM(same(u, seed), h, "unsigned characters"); }
   return h;
}
static const U seeds[] = { 0xAAAAAAAAu, 0x00C0FFEEu, 0x55555555u, 0x12345678u, 0x80000000u, 0xFFFFFFFFu };

// Each element matters: among several other values put in its place, some change the answer; so does leaving it out.
template <typename T> static void each_element(const std::vector<T>& v, const std::vector<T>& others, U seed)
{
   const U h = same(v, seed);
   for (size_t i = 0; i < v.size(); ++i)
   {
      std::vector<T> w = v; bool differs = false;
      for (const T& x : others) if (!(x == v[i])) { w[i] = x; if (strtk::hash(w, seed) != h) differs = true; }
      if (!differs) { mc::Out o; o << "element " << i << " of " << v.size() << " has no influence"; mc::fail(o.str()); }
   }
   mc::outcome(h);
}
template <typename T> static void lengths(const char* name, const std::vector<T>& values, size_t max)
{
   for (size_t n = 0; n <= max; n = n < 140 ? n + 1 : n * 2 - 3) for (int kind = 0; kind < 3; ++kind) for (U seed : seeds)
   {
      if (n > 40 && seed != seeds[0] && seed != seeds[3]) continue;
      MC_CASE(o << n << " elements of type " << name << " kind " << kind << " seed " << seed);
      std::vector<T> v(n, values[0]); if (kind) for (size_t i = 0; i < n; ++i) v[i] = values[(i * (kind == 1 ? 1 : 7) + i / values.size()) % values.size()];
      each_element(v, values, seed);
   }
}
MC_SECTION(every_element)
{
   const size_t m = mc::tier(300, 2000);
   lengths<int>("int", { 0, 1, -1, 256, 65536, 16777216, 2147483647, -2147483647 - 1, 12345 }, m);
   lengths<unsigned int>("unsigned int", { 7u, 0u, 1u, 256u, 65536u, 16777216u, 0xFFFFFFFFu }, m);
   lengths<unsigned long long>("unsigned long long", { 5ull, 0ull, 1ull, 1ull << 8, 1ull << 16, 1ull << 24, 1ull << 32, 1ull << 40, 1ull << 48, 1ull << 56, ~0ull }, m);
   lengths<double>("double", { 1.5, 0.0, -1.0, 1e-300, 1e300, 3.14159265358979, 2.0 }, m);
   lengths<short>("short", { 3, 0, 1, 256, -1, 32767 }, m); lengths<unsigned char>("unsigned char", { 'a', 0, 1, 127, 128, 255 }, m); lengths<char>("char", { 'a', 0, 1, 127, 'z' }, m);
}
// Every byte of a wide element matters as well.
template <typename T> static void bytes_of(const char* name, size_t max)
{
   for (size_t n = 1; n <= max; ++n) for (size_t i = 0; i < n; ++i) for (size_t b = 0; b < sizeof(T); ++b)
   {
      MC_CASE(o << "byte " << b << " of element " << i << " of " << n << " of type " << name);
      mc::Buf<T> v(n); unsigned char* p = (unsigned char*)v.begin(); for (size_t k = 0; k < n * sizeof(T); ++k) p[k] = (unsigned char)(k * 5 + 11);
      const U h = strtk::hash((const T*)v.begin(), n); bool differs = false;
      for (int x = 0; x < 256; x += 3) { p[i * sizeof(T) + b] = (unsigned char)x; if (strtk::hash((const T*)v.begin(), n) != h) differs = true; }
      MC_TRUE(differs); mc::outcome(mc::Hash()(h)(i)(b));
   }
}
MC_SECTION(every_byte)
{
   bytes_of<int>("int", mc::tier(40, 140)); bytes_of<unsigned int>("unsigned int", mc::tier(40, 140)); bytes_of<unsigned long long>("unsigned long long", mc::tier(40, 140)); bytes_of<double>("double", mc::tier(40, 140));
}
MC_SECTION(strings)
{
   for (U seed : seeds) mc::strings("ab\x80", 0, mc::tier(7, 9), [&](const S& s) { MC_CASE(o << "hash of " << s << " with seed " << seed); const U h = same(s, seed); if (seed == seeds[0]) { MC_EQM(strtk::hash(s), h, "default seed"); MC_EQM(strtk::hash(s.begin(), s.size()), h, "default seed, iterator"); } mc::outcome(h); });
   for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; b += mc::tier(5, 1)) { S s(1, (char)a); s += (char)b; MC_CASE(o << "hash of " << s); mc::outcome(same(s, seeds[0])); same(s.substr(0, 1), seeds[0]); }
   // strings of one length over a large alphabet that differ in one place are told apart in nearly all cases: no place is lost in a long text
   for (size_t n = 1; n <= mc::tier(200, 600); ++n) for (size_t i = 0; i < n; ++i)
   {
      MC_CASE(o << "place " << i << " of a text of " << n); S s; for (size_t k = 0; k < n; ++k) s += (char)('a' + k * 7 % 26); const U h = strtk::hash(s);
      bool differs = false; for (char c = 'A'; c <= 'Z'; ++c) { s[i] = c; if (strtk::hash(s) != h) differs = true; } MC_TRUE(differs); mc::outcome(h);
   }
}
// The seed is honoured, and a longer input is not confused with its prefix wholesale.
MC_SECTION(seed_honoured)
{
   for (size_t n = 0; n <= mc::tier(150, 400); ++n)
   {
      MC_CASE(o << "seeds over " << n << " elements"); S s; for (size_t k = 0; k < n; ++k) s += (char)('0' + k % 75); const std::vector<int> v(n, 42); std::set<U> a, b;
      for (U seed : seeds) { a.insert(strtk::hash(s, seed)); b.insert(strtk::hash(v, seed)); }
      MC_TRUE(a.size() > 1); MC_TRUE(b.size() > 1); bool differs = false;
      for (int c = 0; c < 128; ++c) { if (strtk::hash(s + (char)c) != strtk::hash(s)) differs = true; } MC_TRUE(differs);
      mc::outcome(mc::Hash()((uint64_t)*a.begin())(n));
   }
}
MC_MAIN
