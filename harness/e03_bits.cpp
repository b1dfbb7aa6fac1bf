// Bit level utilities.
#include "strtk.hpp"
#include "mc.hpp"
#include <list>
#include <limits>
typedef unsigned char uc;
static std::string ileave(const std::string& a, const std::string& b)
{
   std::string r;
   for (size_t i = 0; i < a.size(); ++i) { unsigned v = 0; for (int k = 0; k < 8; ++k) { v |= (unsigned)(((uc)a[i] >> k) & 1) << (2 * k); v |= (unsigned)(((uc)b[i] >> k) & 1) << (2 * k + 1); } r += (char)(v & 255); r += (char)(v >> 8); }
   return r;
}
static const size_t NO = std::numeric_limits<size_t>::max();
static size_t pop(const std::string& s) { size_t n = 0; for (size_t i = 0; i < s.size(); ++i) n += __builtin_popcount((uc)s[i]); return n; }
static size_t bitdist(const std::string& a, const std::string& b) { if (a.size() != b.size()) return NO; size_t n = 0; for (size_t i = 0; i < a.size(); ++i) n += __builtin_popcount((uc)(a[i] ^ b[i])); return n; }
static size_t eldist(const std::string& a, const std::string& b) { if (a.size() != b.size()) return NO; size_t n = 0; for (size_t i = 0; i < a.size(); ++i) n += a[i] != b[i]; return n; }
static std::string bw(int op, const std::string& a, const std::string& b) { std::string r; for (size_t i = 0; i < a.size(); ++i) r += (char)(op == 0 ? a[i] & b[i] : op == 1 ? a[i] | b[i] : a[i] ^ b[i]); return r; }
static void two(const std::string& a, const std::string& b)
{
   MC_CASE(o << "bits of " << a << " and " << b);
   bool same = a.size() == b.size();
   mc::Buf<char> ca(a), cb(b); mc::Buf<uc> ua(a), ub(b);
   const char *pa = ca.begin(), *ea = ca.end(), *pb = cb.begin(), *eb = cb.end(); const uc *qa = ua.begin(), *fa = ua.end(), *qb = ub.begin(), *fb = ub.end();
   {
      const std::string want = same ? ileave(a, b) : "old";
      for (const std::string& old : mc::stale(want)) { std::string o = old; MC_EQ(strtk::twoway_bitwise_interleave(a, b, o), same); MC_EQ(o, same ? want : old); }
      mc::Buf<char> co(a.size() * 2); MC_EQ(strtk::twoway_bitwise_interleave(pa, ea, pb, eb, co.begin()), same); if (same) MC_EQ(co.str(), ileave(a, b));
      mc::Buf<uc> uo(a.size() * 2); MC_EQ(strtk::twoway_bitwise_interleave(qa, fa, qb, fb, uo.begin()), same); if (same) MC_EQ(uo.str(), ileave(a, b));
   }
   static const strtk::bitwise_operation::type ops[] = { strtk::bitwise_operation::eAND, strtk::bitwise_operation::eOR, strtk::bitwise_operation::eXOR };
   for (int op = 0; op < 3; ++op)
   {
      const std::string want = same ? bw(op, a, b) : "old";
      for (const std::string& old : mc::stale(want)) { std::string o = old; strtk::bitwise_transform(ops[op], a, b, o); MC_EQ(o, same ? want : old); }
      if (!same) continue;
      mc::Buf<char> co(a.size()); strtk::bitwise_transform(ops[op], pa, ea, pb, co.begin()); MC_EQ(co.str(), bw(op, a, b));
      mc::Buf<uc> uo(a.size()); strtk::bitwise_transform(ops[op], qa, fa, qb, uo.begin()); MC_EQ(uo.str(), bw(op, a, b));
   }
   MC_EQ(strtk::hamming_distance(a, b), bitdist(a, b)); MC_EQ(strtk::hamming_distance(pa, ea, pb, eb), bitdist(a, b)); MC_EQ(strtk::hamming_distance(qa, fa, qb, fb), bitdist(a, b));
   MC_EQ(strtk::hamming_distance_elementwise(a, b), eldist(a, b)); MC_EQ(strtk::hamming_distance_elementwise(qa, fa, qb, fb), eldist(a, b));
   std::list<char> la(a.begin(), a.end()), lb(b.begin(), b.end()); MC_EQ(strtk::hamming_distance_elementwise(la.begin(), la.end(), lb.begin(), lb.end()), eldist(a, b));
   MC_EQ(strtk::high_bit_count(a), pop(a)); MC_EQ(strtk::high_bit_count(pa, ea), pop(a)); MC_EQ(strtk::high_bit_count(qa, fa), pop(a));
   mc::outcome(mc::Hash()(bitdist(a, b))(eldist(a, b))(pop(a)));
}
MC_SECTION(byte_pairs)
{
   for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { std::string x(1, (char)a), y(1, (char)b); two(x, y); }
}
MC_SECTION(small) { mc::strings(std::string("\x00\x81\xFF\x3C", 4), 0, 3, [](const std::string& a) { mc::strings(std::string("\x00\x7E\xFF\x55", 4), 0, 3, [&](const std::string& b) { two(a, b); }); }); }
MC_SECTION(lengths)
{
   for (size_t n = 0; n <= mc::tier((size_t)150, (size_t)600); ++n)
   {
      std::string a, b; for (size_t i = 0; i < n; ++i) { a += (char)(i * 73 + n); b += (char)(i * 151 + 3 * n); }
      two(a, b); two(b, a); two(a, a); two(a, std::string(n, '\xFF')); two(a, b + "x"); two(a + "x", b);
      for (size_t i = 0; i < n; i += n > 40 ? 7 : 1) { std::string c = a; c[i] = (char)~c[i]; two(a, c); }
   }
}
MC_SECTION(counts)
{
   for (int c = 0; c < 256; ++c) { MC_CASE(o << "high_bit_count byte " << c); MC_EQ(strtk::high_bit_count((uc)c), (size_t)__builtin_popcount(c)); }
   for (int c = 0; c < 65536; ++c) { MC_CASE(o << "high_bit_count short " << c); MC_EQ(strtk::high_bit_count((unsigned short)c), (size_t)__builtin_popcount(c)); }
   for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; b += 3)
   { unsigned v = ((unsigned)a << (8 * i)) ^ ((unsigned)b << (8 * j)); MC_CASE(o << "high_bit_count int " << v); MC_EQ(strtk::high_bit_count(v), (size_t)__builtin_popcount(v)); }
   for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; b += 17)
   { long long v = (long long)(((unsigned long long)a << (8 * i)) ^ ((unsigned long long)b << (8 * j))); MC_CASE(o << "high_bit_count long long " << v); MC_EQ(strtk::high_bit_count(v), (size_t)__builtin_popcountll(v)); MC_EQ(strtk::high_bit_count(~v), (size_t)__builtin_popcountll(~v)); }
}
MC_SECTION(single_bits)
{
   for (size_t bytes = 1; bytes <= mc::tier((size_t)20, (size_t)80); ++bytes) for (size_t bit = 0; bit < bytes * 8; ++bit) for (int f = 0; f < 3; ++f)
   {
      MC_CASE(o << "bit " << bit << " of " << bytes << " bytes filled with " << f);
      const uc fill = f == 0 ? 0 : f == 1 ? 0xFF : 0xA5;
      std::string s(bytes, (char)fill); mc::Buf<uc> b(s);
      MC_EQ(strtk::bit_state(bit, b.begin()), ((fill >> (bit % 8)) & 1) != 0);
      strtk::set_bit_high(bit, b.begin()); std::string w = s; w[bit / 8] |= (char)(1 << (bit % 8)); MC_EQ(b.str(), w);
      MC_TRUE(strtk::bit_state(bit, b.begin()));
      strtk::set_bit_low(bit, b.begin()); w[bit / 8] &= (char)~(1 << (bit % 8)); MC_EQ(b.str(), w); MC_TRUE(!strtk::bit_state(bit, b.begin()));
      mc::outcome(w);
   }
}
template <size_t n> static void nway()
{
   typedef typename strtk::interleave_ary<n>::type T; mc::Buf<T> t(256); strtk::create_nway_interleave_table<n>(t.begin());
   for (int c = 0; c < 256; ++c) { MC_CASE(o << n << "-way interleave of " << c); T w = 0; for (size_t k = 0; k < 8; ++k) if ((c >> k) & 1) w |= (T)((T)1 << (k * n)); MC_EQ(t.p[c], w); mc::outcome((uint64_t)w); }
}
MC_SECTION(nway_table) { nway<2>(); nway<4>(); nway<8>(); }
MC_SECTION(huge)
{
   for (size_t n : mc::scales(200, 140000))
   {
      std::string a = mc::letters(n, 'A'), b = mc::letters(n, '\x91'); two(a, b); two(a, a); two(std::string(n, '\0'), std::string(n, '\xFF')); two(a, b + "x"); two(a, b.substr(1));
      const size_t at[] = { 0, 255, 256, 65535, 65536, n / 2, n - 1 };
      for (size_t p : at) { if (p >= n) continue; std::string c = a; c[p] ^= 0x40; two(a, c); two(c, a); }
   }
   // one large table, every byte of it in use: the bit asked for is the one that is read and set, and nothing else changes
   const size_t bytes = mc::tier<size_t>(140000, 600000); std::vector<size_t> at = mc::scales(0, 140000); at.push_back(bytes - 1);
   for (int fill : {0, 0xFF, 0xA5})
   {
      mc::Buf<uc> t(bytes); std::vector<uc> w(bytes); for (size_t i = 0; i < bytes; ++i) t.p[i] = w[i] = (uc)fill;
      for (size_t p : at) for (size_t q = 0; q < 8; ++q)
      {
         if (p >= bytes) continue;
         MC_CASE(o << "bit " << q << " of byte " << p << " of " << bytes << " bytes of " << fill); const size_t bit = p * 8 + q; const uc m = (uc)(1 << q);
         MC_EQ(strtk::bit_state(bit, t.begin()), (fill & m) != 0);
         strtk::set_bit_low(bit, t.begin()); w[p] &= (uc)~m; MC_TRUE(!std::memcmp(t.begin(), w.data(), bytes)); MC_TRUE(!strtk::bit_state(bit, t.begin()));
         strtk::set_bit_high(bit, t.begin()); w[p] |= m; MC_TRUE(!std::memcmp(t.begin(), w.data(), bytes)); MC_TRUE(strtk::bit_state(bit, t.begin()));
         if (!(fill & m)) { strtk::set_bit_low(bit, t.begin()); w[p] &= (uc)~m; }
         mc::outcome(mc::Hash()((uint64_t)fill)(bit));
      }
   }
   for (size_t bit : mc::scales(100, 140000))
   {
      MC_CASE(o << "bit " << bit << " of a large table");
      mc::Buf<uc> t(bit / 8 + 1), w(bit / 8 + 1); strtk::set_bit_high(bit, t.begin()); w.p[bit / 8] = (uc)(1 << (bit % 8)); MC_TRUE(t.str() == w.str()); MC_TRUE(strtk::bit_state(bit, t.begin()));
      strtk::set_bit_low(bit, t.begin()); w.p[bit / 8] = 0; MC_TRUE(t.str() == w.str()); MC_TRUE(!strtk::bit_state(bit, t.begin()));
   }
}
MC_MAIN
