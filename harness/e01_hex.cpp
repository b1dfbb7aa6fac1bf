// Hexadecimal encoding and decoding.
#include "strtk.hpp"
#include "mc.hpp"
typedef unsigned char uc;
static std::string enc(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { r += "0123456789ABCDEF"[(uc)s[i] >> 4]; r += "0123456789ABCDEF"[(uc)s[i] & 15]; } return r; }
static int nib(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool dec(const std::string& s, std::string& out)
{ out.clear(); if (s.empty() || s.size() % 2) return false; for (size_t i = 0; i < s.size(); i += 2) { int a = nib(s[i]), b = nib(s[i + 1]); if (a < 0 || b < 0) { out = "?"; return true; } out += (char)(a * 16 + b); } return true; }
static void decode(const std::string& s)
{
   std::string want; bool w = dec(s, want); bool garbage = want == "?" && w && s.size() != 0 && (nib(s[0]) < 0 || s.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos);
   std::string o;
   for (const std::string& old : mc::stale(want)) { o = old; MC_EQ(strtk::convert_hex_to_bin(s, o), w); if (!w) MC_EQ(o, old); else if (!garbage) MC_EQ(o, want); else MC_EQ(o.size(), s.size() / 2); }
   mc::Buf<char> b(s); mc::Buf<uc> u(s);
   for (int form = 0; form < 6; ++form)
   {
      mc::Buf<char> out(s.size() / 2); mc::Buf<uc> uo(s.size() / 2); bool r; std::string got;
      switch (form)
      {
         case 0: r = strtk::convert_hex_to_bin((const char*)b.begin(), (const char*)b.end(), out.begin()); got = out.str(); break;
         case 1: r = strtk::convert_hex_to_bin((const uc*)u.begin(), (const uc*)u.end(), uo.begin()); got = uo.str(); break;
         case 2: r = strtk::convert_hex_to_bin(std::make_pair(u.begin(), u.end()), uo.begin()); got = uo.str(); break;
         case 3: r = strtk::convert_hex_to_bin(std::make_pair((const uc*)u.begin(), (const uc*)u.end()), uo.begin()); got = uo.str(); break;
         case 4: r = strtk::convert_hex_to_bin(std::make_pair(b.begin(), b.end()), out.begin()); got = out.str(); break;
         default: r = strtk::convert_hex_to_bin(std::make_pair((const char*)b.begin(), (const char*)b.end()), out.begin()); got = out.str(); break;
      }
      MC_EQM(r, w, "pointer form"); if (w && !garbage) MC_EQM(got, want, "pointer form");
   }
   mc::outcome(mc::Hash()(w)(o));
}
static void round_trip(const std::string& s)
{
   MC_CASE(o << "hex of " << s);
   const std::string want = enc(s); 
   for (std::string o : mc::stale(want)) { strtk::convert_bin_to_hex(s, o); MC_EQ(o, want); } MC_EQ(strtk::convert_bin_to_hex(s), want);
   mc::Buf<char> b(s); mc::Buf<uc> u(s);
   for (int form = 0; form < 5; ++form)
   {
      mc::Buf<char> out(s.size() * 2); mc::Buf<uc> uo(s.size() * 2);
      switch (form)
      {
         case 0: strtk::convert_bin_to_hex((const char*)b.begin(), (const char*)b.end(), out.begin()); break;
         case 1: strtk::convert_bin_to_hex((const uc*)u.begin(), (const uc*)u.end(), uo.begin()); break;
         case 2: strtk::convert_bin_to_hex(std::make_pair(u.begin(), u.end()), uo.begin()); break;
         case 3: strtk::convert_bin_to_hex(std::make_pair((const uc*)u.begin(), (const uc*)u.end()), uo.begin()); break;
         default: strtk::convert_bin_to_hex(std::make_pair((const char*)b.begin(), (const char*)b.end()), out.begin()); break;
      }
      MC_EQM(form == 0 || form == 4 ? out.str() : uo.str(), want, "pointer form");
   }
   decode(want); std::string lc = want, mx = want;
   for (size_t i = 0; i < lc.size(); ++i) { lc[i] = (char)tolower(lc[i]); if (i % 2) mx[i] = lc[i]; }
   decode(lc); decode(mx);
}
MC_SECTION(pairs_of_bytes) { for (int a = 0; a < 256; ++a) { std::string s(1, (char)a); round_trip(s); for (int b = 0; b < 256; ++b) { std::string t = s; t += (char)b; round_trip(t); } } }
MC_SECTION(every_byte_at_every_position)
{
   for (size_t n = 0; n <= mc::tier((size_t)18, (size_t)64); ++n) for (size_t i = 0; i < n; ++i) for (int c = 0; c < 256; ++c) { std::string s(n, '\x5A'); s[i] = (char)c; round_trip(s); }
   for (size_t n = 0; n <= mc::tier((size_t)300, (size_t)3000); ++n) { std::string s; for (size_t i = 0; i < n; ++i) s += (char)(i * 37 + n); round_trip(s); round_trip(std::string(n, '\xFF')); round_trip(std::string(n, '\0')); }
}
MC_SECTION(decode_small) { mc::strings("0aF9fg", 0, mc::tier(6, 8), [](const std::string& s) { MC_CASE(o << "hex decode " << s); decode(s); }); }
MC_SECTION(decode_bytes)
{
   for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { std::string s; s += (char)a; s += (char)b; { MC_CASE(o << "hex decode " << s); decode(s); } { MC_CASE(o << "hex decode 1F" << s); decode("1F" + s); } if (a % 16 == 0) { MC_CASE(o << "hex decode odd " << s); decode(s + "1"); } }
   for (size_t n = 0; n <= 600; ++n) { std::string s; for (size_t i = 0; i < n; ++i) s += "0123456789abcdefABCDEF"[(i * 5 + n) % 22]; MC_CASE(o << "hex decode " << n << " digits"); decode(s); }
}
MC_SECTION(huge)
{
   for (size_t n : mc::scales(200, 140000))
      for (int pat = 0; pat < 3; ++pat)
      { std::string s; uint32_t x = 7; for (size_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; s += pat == 0 ? (char)(x >> 20) : pat == 1 ? '\0' : (char)(i * 11); } round_trip(s); MC_CASE(o << "hex decode of " << n << " digits"); decode(enc(s) + "0"); decode(enc(s).substr(1)); }
}
MC_MAIN
