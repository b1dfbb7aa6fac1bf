// Base64 encoding and decoding.
#include "strtk.hpp"
#include "mc.hpp"
typedef unsigned char uc;
static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const std::string& s)
{
   std::string bits, r;
   for (size_t i = 0; i < s.size(); ++i) for (int b = 7; b >= 0; --b) bits += ((uc)s[i] >> b) & 1 ? '1' : '0';
   while (bits.size() % 6) bits += '0';
   for (size_t i = 0; i < bits.size(); i += 6) { int v = 0; for (int k = 0; k < 6; ++k) v = v * 2 + (bits[i + k] - '0'); r += A[v]; }
   while (r.size() % 4) r += '=';
   return r;
}
static std::string dec(std::string s)      // of a text whose characters (padding aside) are all in the alphabet
{
   while (!s.empty() && s[s.size() - 1] == '=') s.resize(s.size() - 1);
   std::string bits, r;
   for (size_t i = 0; i < s.size(); ++i) { size_t v = strchr(A, s[i]) - A; for (int b = 5; b >= 0; --b) bits += (v >> b) & 1 ? '1' : '0'; }
   for (size_t i = 0; i + 8 <= bits.size(); i += 8) { int v = 0; for (int k = 0; k < 8; ++k) v = v * 2 + (bits[i + k] - '0'); r += (char)v; }
   return r;
}
static void decode(const std::string& s, const std::string& want, bool exact)
{
   std::string o; for (const std::string& old : mc::stale(want)) { o = old; strtk::convert_base64_to_bin(s, o); if (exact) MC_EQ(o, want); }
   mc::Buf<char> b(s); mc::Buf<uc> u(s);
   { mc::Buf<char> out(want.size()); size_t k = strtk::convert_base64_to_bin((const char*)b.begin(), (const char*)b.end(), out.begin()); MC_EQ(k, want.size()); if (exact) MC_EQ(out.str(), want); }
   { mc::Buf<uc> out(want.size()); size_t k = strtk::convert_base64_to_bin((const uc*)u.begin(), (const uc*)u.end(), out.begin()); MC_EQ(k, want.size()); if (exact) MC_EQ(out.str(), want); }
   mc::outcome(o);
}
static void round_trip(const std::string& s)
{
   MC_CASE(o << "base64 of " << s);
   const std::string want = enc(s);
   for (std::string o : mc::stale(want)) { strtk::convert_bin_to_base64(s, o); MC_EQ(o, want); }
   mc::Buf<char> b(s); mc::Buf<uc> u(s);
   { mc::Buf<char> out(want.size()); MC_EQ(strtk::convert_bin_to_base64((const char*)b.begin(), (const char*)b.end(), out.begin()), want.size()); MC_EQ(out.str(), want); }
   { mc::Buf<uc> out(want.size()); MC_EQ(strtk::convert_bin_to_base64((const uc*)u.begin(), (const uc*)u.end(), out.begin()), want.size()); MC_EQ(out.str(), want); }
   decode(want, s, true);
   std::string bare = want; while (!bare.empty() && bare[bare.size() - 1] == '=') bare.resize(bare.size() - 1);
   decode(bare, s, true);        // padding omitted
}
MC_SECTION(pairs_of_bytes) { for (int a = 0; a < 256; ++a) { std::string s(1, (char)a); round_trip(s); for (int b = 0; b < 256; ++b) { std::string t = s; t += (char)b; round_trip(t); } } }
MC_SECTION(triples_of_bytes)
{
   // all triples over the byte values with at most two set bits or at most two clear bits (every 6-bit group boundary)
   std::vector<int> v; for (int c = 0; c < 256; ++c) { int k = __builtin_popcount(c); if (k <= mc::tier(1, 2) || k >= 8 - mc::tier(1, 2)) v.push_back(c); }
   for (size_t a = 0; a < v.size(); ++a) for (size_t b = 0; b < v.size(); ++b) for (size_t c = 0; c < v.size(); ++c) { std::string s; s += (char)v[a]; s += (char)v[b]; s += (char)v[c]; round_trip(s); }
}
MC_SECTION(every_byte_at_every_position)
{
   for (size_t n = 0; n <= mc::tier((size_t)16, (size_t)48); ++n) for (size_t i = 0; i < n; ++i) for (int c = 0; c < 256; ++c) { std::string s(n, '\x5A'); s[i] = (char)c; round_trip(s); }
   for (size_t n = 0; n <= mc::tier((size_t)200, (size_t)1500); ++n) { std::string s; for (size_t i = 0; i < n; ++i) s += (char)(i * 37 + n); round_trip(s); round_trip(std::string(n, '\xFF')); round_trip(std::string(n, '\0')); }
}
MC_SECTION(decode_texts)
{
   // any text over the alphabet, every length (also ones no encoder produces), with padding
   mc::strings("A/9z", 0, mc::tier(8, 10), [](const std::string& s) { MC_CASE(o << "base64 decode " << s); decode(s, dec(s), true); });
   for (int a = 0; a < 64; ++a) for (int b = 0; b < 64; ++b)
   {
      std::string s; s += A[a]; s += A[b]; MC_CASE(o << "base64 decode " << s);
      decode(s, dec(s), true); decode(s + "==", dec(s), true); decode(s + "A=", dec(s + "A"), true); decode("zz" + s, dec("zz" + s), true); decode("/" + s + "+", dec("/" + s + "+"), true); decode("QUJD" + s + "==", dec("QUJD" + s), true);
   }
}
MC_SECTION(decode_foreign_bytes)
{
   // characters outside the alphabet: the result is unspecified but stays within the output
   for (size_t n = 1; n <= 9; ++n) for (size_t i = 0; i < n; ++i) for (int c = 0; c < 256; ++c)
   {
      std::string s(n, 'Q'); s[i] = (char)c; MC_CASE(o << "base64 decode " << s);
      if (c == '=' && i + 2 >= n) continue;
      decode(s, std::string(n * 3 / 4, '?'), false);
   }
}
MC_SECTION(huge)
{
   for (size_t n : mc::scales(200, 140000))
      for (size_t d = 0; d < 3; ++d)
         for (int pat = 0; pat < 3; ++pat)
         { std::string s; uint32_t x = 7; for (size_t i = 0; i < n + d; ++i) { x = x * 1664525u + 1013904223u; s += pat == 0 ? (char)(x >> 20) : pat == 1 ? '\xFF' : (char)(i * 11); } round_trip(s); }
}
MC_SECTION(all_triples)
{
   // every group of three bytes, encoded and decoded with a direct reference
   unsigned char in[3], out[4], back[3]; unsigned long long k = 0;
   MC_CASE(o << "base64 of bytes " << (int)in[0] << "," << (int)in[1] << "," << (int)in[2]);
   for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) for (int c = 0; c < 256; ++c)
   {
      in[0] = (uc)a; in[1] = (uc)b; in[2] = (uc)c; const unsigned v = (unsigned)a << 16 | b << 8 | c;
      const size_t n = strtk::convert_bin_to_base64((const uc*)in, (const uc*)in + 3, out);
      if (n != 4 || out[0] != (uc)A[v >> 18] || out[1] != (uc)A[(v >> 12) & 63] || out[2] != (uc)A[(v >> 6) & 63] || out[3] != (uc)A[v & 63]) mc::fail("encoding of a group");
      const size_t m = strtk::convert_base64_to_bin((const uc*)out, (const uc*)out + 4, back);
      if (m != 3 || back[0] != in[0] || back[1] != in[1] || back[2] != in[2]) mc::fail("decoding of a group");
      if ((++k & 0xFFFFF) == 0) mc::transition();
   }
   mc::note("groups of three bytes", k);
}
MC_MAIN
