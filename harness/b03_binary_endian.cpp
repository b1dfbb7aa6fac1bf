// B03: byte order, padded text fields, short strings and streams of the binary reader and writer.
#include "bin_model.hpp"
namespace bd = strtk::binary::details;

template <typename T> static T swapped(T v) { unsigned char a[sizeof v]; memcpy(a, &v, sizeof v); std::reverse(a, a + sizeof v); memcpy(&v, a, sizeof v); return v; }
template <typename T> static void order(T v)
{
   MC_CASE(o << "byte order of " << sizeof(T) << "-byte value " << v);
   const T sw = swapped(v); const bool le = swapped((unsigned short)1) == 256 && *(const unsigned char*)"\1" == 1 && []{ unsigned x = 1; return *(unsigned char*)&x == 1; }();
   MC_EQM(bd::is_little_endian(), le, "is_little_endian"); MC_EQM(bd::is_big_endian(), !le, "is_big_endian");
   MC_EQM((T)bd::convert(v), sw, "convert"); MC_EQM((T)bd::convert(bd::convert(v)), v, "convert twice"); MC_EQM((T)bd::convert_to_be(v), le ? sw : v, "convert_to_be"); MC_EQM((T)bd::convert_to_le(v), le ? v : sw, "convert_to_le");
   S be, lb; for (size_t i = 0; i < sizeof v; ++i) { lb += (char)(unsigned char)((unsigned long long)v >> (8 * i)); } be = S(lb.rbegin(), lb.rend());
   for (size_t room = 0; room <= sizeof v; ++room)
   {
      const bool ok = room == sizeof v;
      { mc::Buf<char> b(room); Wr w(b.begin(), room); MC_EQM(w.native_to_be(v), ok, "native_to_be"); if (ok) MC_EQM(b.str(), be, "big endian bytes"); }
      { mc::Buf<char> b(room); Wr w(b.begin(), room); MC_EQM(w.native_to_le(v), ok, "native_to_le"); if (ok) MC_EQM(b.str(), lb, "little endian bytes"); }
      { mc::Buf<char> b(be.substr(0, room)); Rd r(b.begin(), room); T x = 0; MC_EQM(r.be_to_native(x), ok, "be_to_native"); MC_EQM(x, ok ? v : T(0), "value from big endian"); }
      { mc::Buf<char> b(lb.substr(0, room)); Rd r(b.begin(), room); T x = 0; MC_EQM(r.le_to_native(x), ok, "le_to_native"); MC_EQM(x, ok ? v : T(0), "value from little endian"); }
   }
   mc::outcome(mc::Hash()((uint64_t)v)((uint64_t)sizeof v));
}
template <typename T> static void orders(size_t nb)
{
   static const unsigned char B[] = {0x00, 0x01, 0x7F, 0x80, 0xFE, 0xFF, 0x12};
   mc::tuples(nb, sizeof(T), [&](const std::vector<size_t>& ix) { T v; for (size_t i = 0; i < sizeof(T); ++i) ((unsigned char*)&v)[i] = B[ix[i]]; order(v); });
   for (size_t i = 0; i < sizeof(T); ++i) for (unsigned x = 0; x < 256; ++x) { T v = 0; ((unsigned char*)&v)[i] = (unsigned char)x; order(v); }
}
MC_SECTION(order16) { for (unsigned v = 0; v < 65536; ++v) { order((unsigned short)v); order((short)v); } }
MC_SECTION(order32) { orders<unsigned>(mc::tier<size_t>(6, 7)); orders<int>(mc::tier<size_t>(6, 7)); }
MC_SECTION(order64) { orders<unsigned long long>(mc::tier<size_t>(3, 4)); orders<long long>(mc::tier<size_t>(3, 4)); }

template <typename T> static void padded(const T& v, const S& text)
{
   for (size_t size = 0; size <= text.size() + 4; ++size) for (size_t room = size ? size - 1 : 0; room <= size + 1; ++room) for (char pad : {' ', '0', 'x'}) for (int left = 0; left < 2; ++left)
   {
      MC_CASE(o << "field " << text << " width " << size << " room " << room << " pad " << pad << (left ? " left" : " right"));
      mc::Buf<char> b(S(room, '~')); Wr w(b.begin(), room); const bool ok = size <= room && text.size() <= size;
      MC_EQM(w(v, size, left ? Wr::left_padding : Wr::right_padding, pad), ok, "padded write");
      S f = text; if (ok) f = left ? S(size - text.size(), pad) + text : text + S(size - text.size(), pad);
      MC_EQM(b.str(), ok ? f + S(room - size, '~') : S(room, '~'), "field"); MC_EQM(w.amount_written(), ok ? size : 0, "amount_written");
      if (pad == ' ') { mc::Buf<char> b2(S(room, '~')); Wr w2(b2.begin(), room); MC_EQM(w2(v, size, left ? Wr::left_padding : Wr::right_padding), ok, "padded write, default padding"); MC_EQM(b2.str(), b.str(), "field, default padding"); }
      if (ok) { Rd r(b.begin(), room); T x = T(), y = T(); const bool c = conv(f, y); MC_EQM(r(x, size), c, "fixed width read"); if (c) MC_EQM(x, y, "value of the field"); MC_EQM(r.position(), size, "position after the field"); }
      mc::outcome(mc::Hash()(text)(size)(ok));
   }
}
MC_SECTION(padded_fields)
{
   for (int i = -120; i <= 120; ++i) padded(i, std::to_string(i));
   for (int i : {999, 1000, 99999, 100000, INT_MAX, INT_MIN}) padded(i, std::to_string(i));
   mc::strings("ab ", 0, mc::tier<size_t>(4, 6), [](const S& s) { padded(s, s); });
   for (size_t n : {15u, 16u, 17u, 31u, 64u}) padded(S(n, 'q'), S(n, 'q'));
}
MC_SECTION(fixed_width_reads)
{
   mc::strings("19-", 0, mc::tier<size_t>(6, 8), [](const S& s) {
      for (size_t a = 0; a <= s.size(); ++a) for (size_t k = 0; k <= s.size() - a + 1; ++k)
      {
         MC_CASE(o << "read " << a << " then " << k << " characters of " << s);
         mc::Buf<char> b(s); Rd r(b.begin(), b.n); S first; int x = 5, y = 5; MC_TRUE(r(first, a)); MC_EQM(first, s.substr(0, a), "text field");
         const bool fits = a + k <= s.size(), c = fits && conv(s.substr(a, k), y); MC_EQM(r(x, k), c, "number field"); if (c) MC_EQM(x, y, "number"); MC_EQM(r.position(), fits ? a + k : a, "position"); mc::outcome(mc::Hash()(s)(a)(k));
      }
   });
}
template <typename P, typename L> static void short_str(const S& s)
{
   MC_CASE(o << "short string of " << s.size() << " characters, " << sizeof(L) << "-byte length");
   const bool fits = s.size() <= std::numeric_limits<L>::max(); const L n = (L)s.size(); const S e = S((const char*)&n, sizeof n) + s;
   for (size_t room = 0; room <= e.size() + 1; ++room)
   {
      if (room > 6 && room + 6 < e.size() && room % 1021) continue;
      const bool ok = fits && room >= e.size(); S src = s;
      { mc::Buf<char> b(room); Wr w(b.begin(), room); MC_EQM(w(P(src)), ok, "short string written"); if (ok) { MC_EQM(b.str().substr(0, e.size()), e, "bytes"); MC_EQ(w.amount_written(), e.size()); } MC_TRUE(w.amount_written() <= room); MC_EQ(src, s); }
      if (!fits) continue;
      { mc::Buf<char> b(e.substr(0, room)); for (S out : mc::stale(s)) { Rd r(b.begin(), b.n); MC_EQM(r(P(out)), ok, "short string read"); if (ok) { MC_EQM(out, s, "text"); MC_EQ(r.amount_read(), e.size()); } MC_TRUE(r.amount_read() <= b.n); } }
      { mc::Buf<char> b(e.substr(0, room)); for (S out : mc::stale(s)) { Rd r(b.begin(), b.n); P p; MC_EQM(r(p.set(out)), ok, "short string read, set"); if (ok) MC_EQM(out, s, "text"); } }
   }
   P p; mc::Buf<char> b(8); Wr w(b.begin(), 8); MC_EQM(w(p), false, "no string to write"); Rd r(b.begin(), 8); MC_EQM(r(p), false, "no string to read into"); S t = "x"; p.set(t); p.clear(); MC_EQM(w(p), false, "cleared");
   mc::outcome(mc::Hash()(s)((uint64_t)sizeof(L)));
}
MC_SECTION(short_strings)
{
   typedef strtk::binary::short_string SS; typedef strtk::binary::pascal_string PS;
   mc::strings(S("a\0\xFF", 3), 0, 5, [](const S& s) { short_str<SS,unsigned short>(s); short_str<PS,unsigned char>(s); });
   for (size_t n = 6; n <= 520; ++n) { S s; for (size_t i = 0; i < n; ++i) s += (char)(i * 31 + n); short_str<PS,unsigned char>(s); if (n % 16 < 2) short_str<SS,unsigned short>(s); }
   for (size_t n : {65534u, 65535u, 65536u, 65537u, 65791u, 131072u}) short_str<SS,unsigned short>(S(n, 'q'));
}
MC_SECTION(streams)
{
   mc::Scratch d; const S f = d.file("s.bin");
   for (size_t n = 0; n <= 40; ++n) for (size_t wrote = 0; wrote <= n; ++wrote)
   {
      MC_CASE(o << "stream of " << wrote << " of " << n << " bytes");
      mc::Buf<char> b(n); Wr w(b.begin(), n); S e; for (size_t i = 0; i < wrote; ++i) { char c = (char)(i * 7 - 3); MC_TRUE(w(c)); e += c; }
      { std::ofstream o(f.c_str(), std::ios::binary); MC_EQM(w(o), wrote, "bytes to stream"); } MC_EQM(mc::slurp(f), e, "file");
      mc::Buf<char> in(S(n, '~')); Rd r(in.begin(), n);
      { std::ifstream i(f.c_str(), std::ios::binary); MC_EQM(r(i, n + 1), false, "more than the room"); MC_EQM(in.str(), S(n, '~'), "untouched"); }
      { std::ifstream i(f.c_str(), std::ios::binary); MC_EQM(r(i, wrote), true, "bytes from stream"); } MC_EQM(in.str(), e + S(n - wrote, '~'), "buffer");
      for (size_t i = 0; i < wrote; ++i) { char c = 0; MC_TRUE(r(c)); MC_EQ(c, e[i]); }
      mc::outcome(mc::Hash()(e)(n));
   }
}
MC_MAIN
