// Field adapters: each accepts exactly the fields it should and stores exactly what it should.
#include "strtk.hpp"
#include "mc.hpp"
#include <limits>
typedef unsigned char uc;
static char lower(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static char upper(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
static std::string lc(std::string s) { for (size_t i = 0; i < s.size(); ++i) s[i] = lower(s[i]); return s; }
static std::string ucs(std::string s) { for (size_t i = 0; i < s.size(); ++i) s[i] = upper(s[i]); return s; }
static bool wild(const char* p, const char* pe, const char* s, const char* se)
{
   if (p == pe) return s == se;
   if (*p == '*') return wild(p + 1, pe, s, se) || (s != se && wild(p, pe, s + 1, se));
   if (*p == '?') return wild(p + 1, pe, s, se) || (s != se && wild(p + 1, pe, s + 1, se));
   return s != se && *s == *p && wild(p + 1, pe, s + 1, se);
}
static std::string trimmed(const std::string& s, const std::string& rem, int mode)
{
   size_t a = 0, b = s.size();
   if (mode != 2) while (a < b && rem.find(s[a]) != std::string::npos) ++a;
   if (mode != 1) while (b > a && rem.find(s[b - 1]) != std::string::npos) --b;
   return s.substr(a, b - a);
}
static bool int_of(const std::string& s, long long lo, long long hi, long long& v)
{
   size_t i = 0; bool neg = false; if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; }
   if (i == s.size() || s.size() > 15) return false; v = 0;
   for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + s[i] - '0'; }
   if (neg) v = -v; return v >= lo && v <= hi;
}
// Runs the adapter made by 'make' over the field through every entry point; after() checks the stored value.
template <typename Make, typename After>
static void field(const std::string& s, bool want, Make make, After after, const char* what)
{
   mc::Buf<char> b(s);
   { auto a = make(); MC_EQM(strtk::string_to_type_converter((const char*)b.begin(), (const char*)b.end(), a.first.ref()), want, what); after(want); }
   if (s.empty() || s.find('|') != std::string::npos) return;
   for (int pos = 0; pos < 4; ++pos)
   {
      auto a = make(); std::string l = "old", r = "old"; bool got;
      switch (pos)
      {
         case 0: got = strtk::parse(s + "|right", "|", a.first.ref(), r); break;
         case 1: got = strtk::parse("left|" + s, "|", l, a.first.ref()); break;
         case 2: got = strtk::parse("left|" + s + "|right", "|", l, a.first.ref(), r); break;
         default: got = strtk::parse(s, "|", a.first.ref()); break;
      }
      MC_EQM(got, want, what); after(want);
      if (want) { if (pos == 1 || pos == 2) MC_EQ(l, std::string("left")); if (pos == 0 || pos == 2) MC_EQ(r, std::string("right")); }
   }
   mc::outcome(mc::Hash()(want)((uint64_t)(what[0] * 256 + what[1])));
}
// the same, with a text target that holds each of several other texts before
static std::string old_;
template <typename Make, typename After>
static void field_over(const std::string& w, const std::string& s, bool want, Make make, After after, const char* what)
{ for (const std::string& o : mc::stale(w)) { old_ = o; field(s, want, make, after, what); } }
template <typename A> static std::pair<A,int> wrap(const A& a) { return std::make_pair(a, 0); }
static auto nothing = [](bool) {};
static const std::string ABC = "aAbZ[";
MC_SECTION(expect)
{
   mc::strings(ABC, 0, mc::tier(3, 4), [](const std::string& e) { mc::strings(ABC, 0, 3, [&](const std::string& s) {
      MC_CASE(o << "expect " << e << " field " << s);
      field(s, s == e, [&] { return wrap(strtk::expect(e)); }, nothing, "expect");
      field(s, lc(s) == lc(e), [&] { return wrap(strtk::iexpect(e)); }, nothing, "iexpect"); }); });
   for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b)
   {
      std::string e(1, (char)a), s(1, (char)b); MC_CASE(o << "expect " << e << " field " << s);
      auto x = strtk::expect("q"); x.set_value(e); auto y = strtk::iexpect("q"); y.set_value(e);
      MC_EQ(strtk::string_to_type_converter(s, x), a == b); MC_EQ(strtk::string_to_type_converter(s, y), lower((char)a) == lower((char)b));
   }
   for (size_t n = 0; n <= 80; ++n) for (size_t i = 0; i < n; i += n > 20 ? 5 : 1)
   { std::string s(n, 'q'), e = s; e[i] = 'Q'; MC_CASE(o << "expect length " << n << " differing at " << i); field(s, false, [&] { return wrap(strtk::expect(e)); }, nothing, "expect"); field(s, true, [&] { return wrap(strtk::iexpect(e)); }, nothing, "iexpect"); field(s + "q", false, [&] { return wrap(strtk::iexpect(e)); }, nothing, "iexpect"); field(s.substr(1), false, [&] { return wrap(strtk::expect(s)); }, nothing, "expect"); }
}
MC_SECTION(like)
{
   mc::strings("ab*?", 0, mc::tier(4, 5), [](const std::string& p) { mc::strings("ab", 0, mc::tier(4, 5), [&](const std::string& s) {
      MC_CASE(o << "like " << p << " field " << s);
      bool w = wild(p.data(), p.data() + p.size(), s.data(), s.data() + s.size());
      field(s, w, [&] { return wrap(strtk::like(p)); }, nothing, "like");
      auto x = strtk::like("zz"); x.set_pattern(p); MC_EQ(strtk::string_to_type_converter(s, x), w); }); });
}
template <typename T> static void range_int(const std::string& s, long long lo, long long hi)
{
   typedef std::numeric_limits<T> L; long long v = 0; bool w = int_of(s, L::is_signed ? (long long)L::min() : 0, (long long)std::min<unsigned long long>((unsigned long long)L::max(), 1LL << 60), v) && !(!L::is_signed && s[0] == '-') && v >= lo && v <= hi;
   T t = 99;
   field(s, w, [&] { t = 99; return wrap(strtk::inrange(t, (T)lo, (T)hi)); }, [&](bool k) { MC_EQM(t, k ? (T)v : (T)99, "inrange value"); }, "inrange");
   auto x = strtk::inrange(t, (T)0, (T)0); x.set_low_hi((T)lo, (T)hi); t = 99; MC_EQ(strtk::string_to_type_converter(s, x), w); MC_EQ(t, w ? (T)v : (T)99);
}
MC_SECTION(inrange)
{
   for (long long lo = -3; lo <= 3; ++lo) for (long long hi = -3; hi <= 3; ++hi) for (int v = -5; v <= 5; ++v)
   {
      std::string s = std::to_string(v); MC_CASE(o << "inrange [" << lo << "," << hi << "] field " << s);
      range_int<int>(s, lo, hi); range_int<short>(s, lo, hi); range_int<long>(s, lo, hi); range_int<long long>(s, lo, hi);
      if (lo >= 0 && hi >= 0) { range_int<unsigned int>(s, lo, hi); range_int<unsigned short>(s, lo, hi); range_int<unsigned long long>(s, lo, hi); range_int<unsigned long>(s, lo, hi); }
      double d = 99; bool w = v >= lo && v <= hi;
      field(s + ".5", v + (v < 0 || s == "-0" ? -0.5 : 0.5) >= lo && v + (v < 0 ? -0.5 : 0.5) <= hi, [&] { d = 99; return wrap(strtk::inrange(d, (double)lo, (double)hi)); }, [&](bool k) { MC_EQM(d, k ? v + (v < 0 ? -0.5 : 0.5) : 99, "inrange double"); }, "inrange double");
      float f = 99; field(s, w, [&] { f = 99; return wrap(strtk::inrange(f, (int)lo, (int)hi)); }, [&](bool k) { MC_EQM(f, k ? (float)v : 99, "inrange float"); }, "inrange float");
   }
   static const char* bad[] = { "", "x", "1x", "-", "+", "1.5", " 1", "99999999999999999999", "00000000000002", "+2", "-2", "--2" };
   for (int i = 0; i < 12; ++i) { std::string s = bad[i]; MC_CASE(o << "inrange field " << s); range_int<int>(s, -5, 5); range_int<short>(s, -5, 5); range_int<unsigned int>(s, 0, 5); }
   mc::strings("abc", 1, 3, [](const std::string& s) { MC_CASE(o << "inrange string " << s); std::string t; field_over(s, s, s >= "ab" && s <= "bb", [&] { t = old_; return wrap(strtk::inrange(t, "ab", "bb")); }, [&](bool k) { MC_EQ(t, k ? s : old_); }, "inrange string"); });
   for (int c = 0; c < 256; ++c) { std::string s(1, (char)c); MC_CASE(o << "inrange char " << s); char t = 'x'; if (c == '|') continue; field(s, (char)c >= 'c' && (char)c <= 'q', [&] { t = 'x'; return wrap(strtk::inrange(t, 'c', 'q')); }, [&](bool k) { MC_EQ(t, k ? (char)c : 'x'); }, "inrange char"); }
}
MC_SECTION(trim)
{
   static const char* rem[] = { " ", " x", "0", "" };
   for (int r = 0; r < 4; ++r) mc::strings(" x01", 0, mc::tier(5, 6), [&](const std::string& s) {
      MC_CASE(o << "trim " << rem[r] << " field " << s);
      std::string t; int n; double d;
      for (int m = 0; m < 3; ++m)
      {
         std::string w = trimmed(s, rem[r], m);
         field_over(w, s, true, [&] { t = old_; return wrap(m == 0 ? strtk::trim(rem[r], t) : m == 1 ? strtk::trim_leading(rem[r], t) : strtk::trim_trailing(rem[r], t)); }, [&](bool) { MC_EQM(t, w, "trimmed"); }, "trim string");
         long long v; bool ok = int_of(w, -1000000, 1000000, v);
         field(s, ok, [&] { n = 99; return wrap(m == 0 ? strtk::trim(rem[r], n) : m == 1 ? strtk::trim_leading(rem[r], n) : strtk::trim_trailing(rem[r], n)); }, [&](bool k) { MC_EQM(n, k ? (int)v : 99, "trimmed int"); }, "trim int");
         if (s.size() < 4) field(s, ok, [&] { d = 99; return wrap(m == 0 ? strtk::trim(rem[r], d) : m == 1 ? strtk::trim_leading(rem[r], d) : strtk::trim_trailing(rem[r], d)); }, [&](bool k) { MC_EQM(d, k ? (double)v : 99, "trimmed double"); }, "trim double");
      } });
   for (size_t a = 0; a <= 40; ++a) for (size_t b = 0; b <= 40; b += 3)
   { std::string s = std::string(a, ' ') + "-42" + std::string(b, ' '); MC_CASE(o << "trim " << a << " and " << b << " blanks"); long n; field(s, true, [&] { n = 9; return wrap(strtk::trim(" ", n)); }, [&](bool) { MC_EQ(n, -42L); }, "trim"); }
}
MC_SECTION(letter_case)
{
   mc::strings(ABC + "\xC0", 0, mc::tier(4, 5), [](const std::string& s) { MC_CASE(o << "as_lcase/as_ucase " << s); std::string t;
      field(s, true, [&] { t = "old text"; return wrap(strtk::as_lcase(t)); }, [&](bool) { MC_EQ(t, lc(s)); }, "as_lcase");
      field(s, true, [&] { t = "old text"; return wrap(strtk::as_ucase(t)); }, [&](bool) { MC_EQ(t, ucs(s)); }, "as_ucase"); });
   for (int c = 0; c < 256; ++c) for (size_t n = 1; n < 10; ++n) { std::string s(n, (char)c); MC_CASE(o << "as_lcase/as_ucase " << s); std::string t; if (c == '|') continue;
      field(s, true, [&] { t = ""; return wrap(strtk::as_lcase(t)); }, [&](bool) { MC_EQ(t, lc(s)); }, "as_lcase"); field(s, true, [&] { t = ""; return wrap(strtk::as_ucase(t)); }, [&](bool) { MC_EQ(t, ucs(s)); }, "as_ucase"); }
}
template <size_t N> static void fill(const std::string& s)
{
   bool w = s.size() == N; char a[N + 2]; uc u[N + 2]; std::string t; const std::string blank(N, '~');
   char (&ca)[N] = *reinterpret_cast<char (*)[N]>(a + 1); uc (&ua)[N] = *reinterpret_cast<uc (*)[N]>(u + 1);
   auto chk = [&](const char* p, bool k) { MC_EQM(std::string(p + 1, N), k ? s : blank, "filled"); MC_TRUE(p[0] == '~' && p[N + 1] == '~'); };
   auto reset = [&] { memset(a, '~', sizeof a); memset(u, '~', sizeof u); t = blank; };
   field(s, w, [&] { reset(); return wrap(strtk::fill_array(ca)); }, [&](bool k) { chk(a, k); }, "fill_array");
   field(s, w, [&] { reset(); return wrap(strtk::fill_array(ua)); }, [&](bool k) { chk((char*)u, k); }, "fill_array");
   field(s, w, [&] { reset(); return wrap(strtk::fill_array(a + 1, N)); }, [&](bool k) { chk(a, k); }, "fill_array");
   field(s, w, [&] { reset(); return wrap(strtk::fill_array(u + 1, N)); }, [&](bool k) { chk((char*)u, k); }, "fill_array");
   field(s, w, [&] { reset(); return wrap(strtk::fill_array(t)); }, [&](bool k) { MC_EQ(t, k ? s : blank); }, "fill_array");
   field(s, w, [&] { reset(); return wrap(strtk::fill_array(t, N)); }, [&](bool k) { MC_EQ(t, k ? s : blank); }, "fill_array");
   field(s, w, [&] { reset(); auto x = strtk::fill_array(ca); x.set(t.empty() ? a : &t[0], N); return wrap(x); }, [&](bool k) { MC_EQ(t, k ? s : blank); }, "fill_array set");
   field(s, w, [&] { reset(); auto x = strtk::fill_array(a, 1000); x.set_data(u + 1).set_size(N); return wrap(x); }, [&](bool k) { chk((char*)u, k); }, "fill_array set_data");
   field(s, w, [&] { reset(); auto x = strtk::fill_array(ca); x.set(u + 1, N); return wrap(x); }, [&](bool k) { chk((char*)u, k); }, "fill_array set, unsigned");
   field(s, w, [&] { reset(); auto x = strtk::fill_array(u, 1000); x.set_size(N).set_data(a + 1); return wrap(x); }, [&](bool k) { chk(a, k); }, "fill_array set_data, char");
}
MC_SECTION(fill_array)
{
   mc::strings(std::string("a\x00\xFF", 3), 0, mc::tier(5, 6), [](const std::string& s) { MC_CASE(o << "fill_array field " << s); fill<1>(s); fill<2>(s); fill<3>(s); fill<4>(s); });
   for (size_t n = 0; n <= 70; ++n) { std::string s; for (size_t i = 0; i < n; ++i) s += (char)('A' + i % 26); MC_CASE(o << "fill_array field of " << n); fill<8>(s); fill<15>(s); fill<16>(s); fill<17>(s); fill<63>(s); fill<64>(s); }
}
MC_SECTION(ignore)
{
   mc::strings("a1-", 1, 4, [](const std::string& s) { MC_CASE(o << "ignore_token over " << s);
      for (int pos = 0; pos < 3; ++pos) { strtk::ignore_token ig; std::string a = "o", b = "o"; bool r = pos == 0 ? strtk::parse(s + "|p|q", "|", ig, a, b) : pos == 1 ? strtk::parse("p|" + s + "|q", "|", a, ig, b) : strtk::parse("p|q|" + s, "|", a, b, ig); MC_TRUE(r); MC_EQ(a, std::string("p")); MC_EQ(b, std::string("q")); } });
}
MC_SECTION(every_byte)
{
   for (int b = 0; b < 256; ++b)
   {
      const char c = (char)b; if (c == '|') continue;
      for (int form = 0; form < 5; ++form)
      {
         std::string s = "mNm"; const std::string k(1, c);
         if (form < 4) s.insert(form, k); else s = k;
         MC_CASE(o << "byte " << b << " in the field " << s);
         std::string t;
         field(s, true, [&] { return wrap(strtk::expect(s)); }, nothing, "expect"); field(s, lc(s) == s, [&] { return wrap(strtk::expect(lc(s))); }, nothing, "expect");
         field(s, true, [&] { return wrap(strtk::iexpect(ucs(s))); }, nothing, "iexpect");
         if (c != '*' && c != '?') { field(s, true, [&] { return wrap(strtk::like(s)); }, nothing, "like"); field(s, s.find('N') != std::string::npos, [&] { return wrap(strtk::like("*N*")); }, nothing, "like"); field(s, true, [&] { return wrap(strtk::like("*" + k + "*")); }, nothing, "like"); }
         for (int m = 0; m < 3; ++m) { const std::string w = trimmed(k + s + k, k, m); field_over(w, k + s + k, true, [&] { t = old_; return wrap(m == 0 ? strtk::trim(k, t) : m == 1 ? strtk::trim_leading(k, t) : strtk::trim_trailing(k, t)); }, [&](bool) { MC_EQM(t, w, "trimmed"); }, "trim"); }
         field_over(s, s, s >= "m" && s <= "mp", [&] { t = old_; return wrap(strtk::inrange(t, "m", "mp")); }, [&](bool g) { MC_EQ(t, g ? s : old_); }, "inrange string");
      }
   }
}
MC_SECTION(huge)
{
   for (size_t n : mc::scales(100, 70000))
   {
      MC_CASE(o << "a field of " << n << " characters");
      const std::string s = mc::letters(n), S = ucs(s); std::string t;
      field(s, true, [&] { return wrap(strtk::expect(s)); }, nothing, "expect"); field(s, true, [&] { return wrap(strtk::iexpect(S)); }, nothing, "iexpect"); field(s, false, [&] { return wrap(strtk::expect(S)); }, nothing, "expect");
      for (size_t at : { (size_t)0, (size_t)1, n / 2, n - 2, n - 1 })
      {
         std::string e = s; e[at] = '5';
         field(e, false, [&] { return wrap(strtk::expect(s)); }, nothing, "expect"); field(e, false, [&] { return wrap(strtk::iexpect(S)); }, nothing, "iexpect"); if (n <= 1025) {
         field(e, false, [&] { return wrap(strtk::like(s)); }, nothing, "like");
         std::string p = s; p[at] = '?'; field(e, true, [&] { return wrap(strtk::like(p)); }, nothing, "like"); field(e, true, [&] { return wrap(strtk::like(s.substr(0, at) + "*" + s.substr(at + 1))); }, nothing, "like"); field(s, false, [&] { return wrap(strtk::like(s.substr(0, at) + "*5" + s.substr(at + 1))); }, nothing, "like"); }
         { const std::string q = e.substr(at, 3); field(e, true, [&] { return wrap(strtk::like("*" + q + "*")); }, nothing, "like"); field(e, at + 3 >= n, [&] { return wrap(strtk::like("*" + q)); }, nothing, "like"); field(e, at == 0, [&] { return wrap(strtk::like(q + "*")); }, nothing, "like"); }
         field(e, true, [&] { t = ""; return wrap(strtk::as_ucase(t)); }, [&](bool) { MC_TRUE(t == ucs(e)); }, "as_ucase"); field(ucs(e), true, [&] { t = ""; return wrap(strtk::as_lcase(t)); }, [&](bool) { MC_TRUE(t == e); }, "as_lcase");
         field(e, e >= "m" && e <= s, [&] { t = ""; return wrap(strtk::inrange(t, "m", s)); }, [&](bool k) { MC_TRUE(t == (k ? e : std::string())); }, "inrange");
      }
      field(s + "a", false, [&] { return wrap(strtk::expect(s)); }, nothing, "expect"); field(s.substr(1), false, [&] { return wrap(strtk::expect(s)); }, nothing, "expect"); field(s.substr(0, n - 1), false, [&] { return wrap(strtk::iexpect(s)); }, nothing, "iexpect"); if (n <= 1025) field(s.substr(0, n - 1), false, [&] { return wrap(strtk::like(s)); }, nothing, "like");
      for (int side = 0; side < 4; ++side)
      {
         const std::string f = std::string(side & 1 ? n : 2, ' ') + "-7" + std::string(side & 2 ? n : 3, ' '); int v = 0;
         field(f, true, [&] { v = 99; return wrap(strtk::trim(" ", v)); }, [&](bool) { MC_EQ(v, -7); }, "trim int"); field(f, true, [&] { t = "old"; return wrap(strtk::trim_leading(" ", t)); }, [&](bool) { MC_TRUE(t == trimmed(f, " ", 1)); }, "trim_leading"); field(f, true, [&] { t = "old"; return wrap(strtk::trim_trailing(" ", t)); }, [&](bool) { MC_TRUE(t == trimmed(f, " ", 2)); }, "trim_trailing");
      }
      field(" " + s + " ", true, [&] { t = "old"; return wrap(strtk::trim(" ", t)); }, [&](bool) { MC_TRUE(t == s); }, "trim"); field(std::string(n, ' '), true, [&] { t = "old"; return wrap(strtk::trim(" ", t)); }, [&](bool) { MC_TRUE(t.empty()); }, "trim");
      mc::Buf<char> a(n); mc::Buf<uc> u(n);
      for (int d = -1; d <= 1; ++d)
      {
         const std::string f = d < 0 ? s.substr(1) : d ? s + "z" : s; const bool w = d == 0;
         field(f, w, [&] { memset(a.begin(), '~', n); return wrap(strtk::fill_array(a.begin(), n)); }, [&](bool k) { MC_TRUE(a.str() == (k ? f : std::string(n, '~'))); }, "fill_array");
         field(f, w, [&] { memset(u.begin(), '~', n); return wrap(strtk::fill_array(u.begin(), n)); }, [&](bool k) { MC_TRUE(u.str() == (k ? f : std::string(n, '~'))); }, "fill_array");
         field(f, w, [&] { t = std::string(n, '~'); return wrap(strtk::fill_array(t)); }, [&](bool k) { MC_TRUE(t == (k ? f : std::string(n, '~'))); }, "fill_array");
      }
      { strtk::ignore_token ig; std::string l = "o", r = "o"; MC_TRUE(strtk::parse("p|" + s + "|q", "|", l, ig, r)); MC_EQ(l, std::string("p")); MC_EQ(r, std::string("q")); }
   }
}
MC_MAIN
