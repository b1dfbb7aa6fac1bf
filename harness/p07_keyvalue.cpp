#include <deque>
#include <memory>
#include "split_model.hpp"
#include "parse_model.hpp"
using namespace strtk::keyvalue;
typedef unsigned char uc;
// ---- reference: blocks between block delimiters, empty ones skipped; key up to the first pair delimiter, non-empty value after it
struct Target { bool is_int; int i; std::string s; Target() : is_int(true), i(-777), s("SENT") {} };
typedef std::map<std::string,int> Reg;         // key text -> target index
static std::vector<std::string> blocks(const std::string& s, char d)
{
   std::vector<std::string> r; if (s.empty()) return r;
   std::string cur; for (size_t i = 0; i < s.size(); ++i) if (s[i] == d) { r.push_back(cur); cur.clear(); } else cur += s[i];
   r.push_back(cur); return r;
}
template <typename Lookup> static bool one(const std::string& b, char pd, Lookup find, std::vector<Target>& t)
{
   size_t p = b.find(pd);
   if (p == std::string::npos || p + 1 == b.size()) return false;
   int k = find(b.substr(0, p)); const std::string v = b.substr(p + 1);
   if (k < 0) return false;
   return t[k].is_int ? conv(v, t[k].i) : conv(v, t[k].s);
}
template <typename Lookup> static bool ref_strict(const std::string& s, char bd, char pd, Lookup find, std::vector<Target>& t)
{
   const std::vector<std::string> b = blocks(s, bd);
   if (b.empty()) return false;
   for (size_t i = 0; i < b.size(); ++i) if (!b[i].empty() && !one(b[i], pd, find, t)) return false;
   return true;
}
template <typename Lookup> static size_t ref_lenient(const std::string& s, char bd, char pd, Lookup find, std::vector<Target>& t)
{
   const std::vector<std::string> b = blocks(s, bd); size_t f = 0;
   for (size_t i = 0; i < b.size(); ++i) if (!b[i].empty() && !one(b[i], pd, find, t)) ++f;
   return f;
}
static std::vector<std::string> show(const std::vector<Target>& t)
{ std::vector<std::string> r; for (size_t i = 0; i < t.size(); ++i) r.push_back(t[i].is_int ? std::to_string(t[i].i) : t[i].s); return r; }
static void put(std::vector<Target>& t, const char* kinds) { t.clear(); for (; *kinds; ++kinds) { t.push_back(Target()); t.back().is_int = *kinds == 'i'; } }
template <typename Parser, typename Key> static bool reg(Parser& p, const Key& k, Target& t) { return t.is_int ? p.register_keyvalue(k, t.i) : p.register_keyvalue(k, t.s); }
// one parser, used strictly and leniently, through both call operators
template <typename Parser, typename Lookup>
static void drive(Parser& p, std::vector<Target>& live, const std::string& s, char bd, char pd, Lookup find, size_t& failures)
{
   std::vector<Target> want = live;
   bool w = ref_strict(s, bd, pd, find, want);
   MC_EQM(p(s), w, "strict result"); MC_EQM(show(live), show(want), "strict values"); MC_EQM(p.failure_count(), failures, "failure count untouched by a strict parse");
   mc::outcome(mc::Hash()(w)(show(want)));
   failures = ref_lenient(s, bd, pd, find, want);
   MC_EQM(p(s, true), true, "lenient result"); MC_EQM(show(live), show(want), "lenient values"); MC_EQM(p.failure_count(), failures, "failure count");
   mc::Buf<char> b(s); std::pair<uc*,uc*> r((uc*)b.begin(), (uc*)b.end());
   w = ref_strict(s, bd, pd, find, want);
   MC_EQM(p(r), w, "strict result of a range"); MC_EQM(show(live), show(want), "strict values of a range");
   failures = ref_lenient(s, bd, pd, find, want);
   MC_EQM(p(r, true), true, "lenient result of a range"); MC_EQM(show(live), show(want), "lenient values of a range"); MC_EQM(p.failure_count(), failures, "failure count of a range");
   // the count is that of the last lenient parse, whatever that one and the ones before it were given
   const std::string t[] = { "", s, std::string(1, bd), std::string(2, pd), s + bd + pd + bd + s, "" };
   for (size_t i = 0; i < 6; ++i) { failures = ref_lenient(t[i], bd, pd, find, want); MC_EQM(p(t[i], true), true, "lenient result, one after another"); MC_EQM(show(live), show(want), "values, one after another"); MC_EQM(p.failure_count(), failures, "failure count, one after another"); }
}
struct StrFind { const Reg& r; int operator()(const std::string& k) const { Reg::const_iterator i = r.find(k); return i == r.end() ? -1 : i->second; } };
struct NumFind   // decimal digits denoting a registered number
{
   const std::map<unsigned long long,int>& r;
   int operator()(const std::string& k) const
   {
      if (k.empty() || k.size() > 19 || k.find_first_not_of("0123456789") != std::string::npos) return -1;
      std::map<unsigned long long,int>::const_iterator i = r.find(strtoull(k.c_str(), 0, 10)); return i == r.end() ? -1 : i->second;
   }
};
static void set(options<uc>& o, char bd, char pd) { o.pair_block_delimiter = bd; o.pair_delimiter = pd; }
static void string_keys(const char* alpha, char bd, char pd, size_t len)
{
   std::vector<Target> live; Reg r; r["a"] = 0; r["b"] = 1; r["ab"] = 2; r[""] = 3;
   options<uc> o; set(o, bd, pd);
   parser<stringkey_map> p(o); put(live, "isis"); size_t failures = 0;
   for (Reg::iterator i = r.begin(); i != r.end(); ++i) MC_TRUE(reg(p, i->first, live[i->second]));
   StrFind find = { r };
   mc::strings(alpha, 0, len, [&](const std::string& s) {
      for (size_t i = 0; i < live.size(); ++i) { live[i].i = -777; live[i].s = "SENT"; }
      MC_CASE(o << "string keys a,b,ab and the empty key, data " << s);
      drive(p, live, s, bd, pd, find, failures);
   });
}
MC_SECTION(string_keys_small) { string_keys("ab=|1", '|', '=', mc::tier(7, 8)); }
MC_SECTION(string_keys_delims) { string_keys("a1:\n", '\n', ':', mc::tier(7, 8)); string_keys(std::string("a1\x80\xff").c_str(), '\x80', '\xff', mc::tier(6, 7)); }
MC_SECTION(uint_keys_small)
{
   for (size_t count = 0; count <= 12; count += 4)
   {
      std::vector<Target> live; put(live, "isis"); const unsigned keys[] = { 0, 1, 3, 11 };
      std::map<unsigned long long,int> r; size_t failures = 0;
      uintkey_map::options o; set(o, '|', '='); o.key_count = count;
      parser<uintkey_map> p(o);
      for (int i = 0; i < 4; ++i) { MC_CASE(o << "registering key " << keys[i] << " of " << count); MC_EQM(reg(p, keys[i], live[i]), keys[i] < count, "register_keyvalue"); if (keys[i] < count) r[keys[i]] = i; }
      NumFind find = { r };
      mc::strings("01=|3", 0, mc::tier(6, 7), [&](const std::string& s) {
         for (size_t i = 0; i < live.size(); ++i) { live[i].i = -777; live[i].s = "SENT"; }
         MC_CASE(o << "numeric keys 0,1,3,11 below " << count << ", data " << s);
         drive(p, live, s, '|', '=', find, failures);
      });
   }
}
MC_SECTION(numeric_key_text)
{
   // key texts of 0..40 characters: digits, leading zeros, wrap-around of 32 and 64 bit, and one foreign character at each place
   std::vector<std::string> ks;
   for (size_t n = 0; n <= 40; ++n)
      for (char c = '0'; c <= '9'; c += 3) ks.push_back(std::string(n, c));
   const char* big[] = { "4294967295", "4294967296", "4294967297", "4294967299", "18446744073709551615", "18446744073709551616", "18446744073709551617", "9223372036854775808", "9999999999999999999", "99999999999999999999", "1", "7", "01", "0007", "0000000000000000007" };
   for (size_t i = 0; i < sizeof big / sizeof *big; ++i) ks.push_back(big[i]);
   for (size_t i = 0, n = ks.size(); i < n; ++i) for (size_t q = 0; q < ks[i].size() && q < 10; ++q) { std::string k = ks[i]; const char bad[] = "+-x/:."; for (const char* b = bad; *b; ++b) { k[q] = *b; ks.push_back(k); } }
   for (int b = 0; b < 256; ++b) { ks.push_back(std::string(1, (char)b)); ks.push_back(std::string("1") + (char)b); }
   for (size_t i = 0; i < ks.size(); ++i)
   {
      if (ks[i].find_first_of("|=") != std::string::npos) continue;
      MC_CASE(o << "numeric key text " << ks[i]);
      const std::string s = ks[i] + "=5";
      std::vector<Target> live; put(live, "iiiii"); const unsigned keys[] = { 0, 1, 7, 9, 33 };
      std::map<unsigned long long,int> r; for (int k = 0; k < 5; ++k) r[keys[k]] = k;
      NumFind find = { r };
      { uintkey_map::options o; set(o, '|', '='); o.key_count = 34; parser<uintkey_map> p(o); size_t f = 0; for (int k = 0; k < 5; ++k) MC_TRUE(reg(p, keys[k], live[k])); drive(p, live, s, '|', '=', find, f); }
      put(live, "iiiii");
      { options<uc> o; set(o, '|', '='); parser<key_map<unsigned int> > p(o); size_t f = 0; for (int k = 0; k < 5; ++k) MC_TRUE(reg(p, keys[k], live[k])); drive(p, live, s, '|', '=', find, f); }
      put(live, "iiiii"); const unsigned top[] = { 0, 1, 9, 4294967294u, 4294967295u }; std::map<unsigned long long,int> rt; for (int k = 0; k < 5; ++k) rt[top[k]] = k; NumFind find_top = { rt };
      { options<uc> o; set(o, '|', '='); parser<key_map<unsigned int> > p(o); size_t f = 0; for (int k = 0; k < 5; ++k) MC_TRUE(reg(p, top[k], live[k])); drive(p, live, s, '|', '=', find_top, f); }
   }
}
MC_SECTION(many_pairs)
{
   // 0..70 pairs; one broken in a given way at every position; separators at the ends and doubled
   const char* breaks[] = { "k=", "k", "zz=1", "k1=x", "=1", "k1==1", "" };
   for (size_t n = 0; n <= 70; n += (n < 6 ? 1 : 16))
      for (size_t bad = 0; bad <= n; ++bad)
         for (int br = 0; br < 7; ++br)
            for (int ends = 0; ends < 4; ++ends)
            {
               std::string s; std::vector<Target> live; put(live, std::string(n ? n : 1, 'i').c_str()); Reg r;
               if (ends & 1) s += "|";
               for (size_t i = 0; i < n; ++i) { r["k" + std::to_string(i)] = i; if (i) s += (i % 5 == 4) ? "||" : "|"; if (i == bad) s += breaks[br]; else s += "k" + std::to_string(i) + "=" + std::to_string(i * 3); }
               if (ends & 2) s += "|";
               MC_CASE(o << n << " pairs, pair " << bad << " replaced by " << breaks[br] << ", ends " << ends);
               options<uc> o; set(o, '|', '='); parser<stringkey_map> p(o); size_t f = 0; StrFind find = { r };
               for (Reg::iterator i = r.begin(); i != r.end(); ++i) MC_TRUE(reg(p, i->first, live[i->second]));
               drive(p, live, s, '|', '=', find, f);
            }
}
MC_SECTION(registration_histories)
{
   // explicit state: which target each key is bound to; re-registration rebinds, parses go to the last bound target
   const size_t depth = mc::tier(5, 6);
   mc::tuples(9, depth, [&](const std::vector<size_t>& h) {
      if (h.size() != depth) return;
      MC_CASE(o << "registration/parse history " << h);
      std::vector<Target> live; put(live, "isi"); Reg r; std::map<unsigned long long,int> rn; size_t f = 0, fn = 0;
      std::vector<Target> liven; put(liven, "isi");
      options<uc> o; set(o, '|', '='); parser<stringkey_map> p(o); StrFind find = { r };
      uintkey_map::options on; set(on, '|', '='); on.key_count = 3; parser<uintkey_map> pn(on); NumFind findn = { rn };
      for (size_t i = 0; i < h.size(); ++i)
      {
         const int k = h[i] % 3;
         if (h[i] < 6) { const int t = h[i] < 3 ? 0 : 1 + k % 2; r[std::string(1, '0' + k)] = t; rn[k] = t; MC_TRUE(reg(p, std::string(1, '0' + k), live[t])); MC_TRUE(reg(pn, (unsigned)k, liven[t])); }
         else { const std::string s = k == 0 ? "0=1|1=2|2=3" : k == 1 ? "2=-4|9=1|0=6" : "1=x|0=7"; drive(p, live, s, '|', '=', find, f); drive(pn, liven, s, '|', '=', findn, fn); MC_EQM(f, fn, "failure counts agree"); }
         mc::transition(); mc::state(mc::Hash()(show(live)).h);
      }
      mc::trace();
   });
}
struct ShortKey { template <typename R> bool operator()(const R& r) { return std::distance(r.first, r.second) <= 2; } };
struct NoX { template <typename R> bool operator()(const R& r) { return std::find(r.first, r.second, (uc)'x') == r.second; } };
MC_SECTION(validators)
{
   typedef key_map<std::string,std::map<std::string,strtk::util::value>,ShortKey,NoX> map_t;
   mc::strings("ax=|", 0, mc::tier(8, 9), [&](const std::string& s) {
      MC_CASE(o << "keys of at most 2 characters, values without x, data " << s);
      std::vector<Target> live; put(live, "sss"); Reg r; r["a"] = 0; r["aa"] = 1; r["aaa"] = 2;
      options<uc> o; set(o, '|', '='); parser<map_t> p(o);
      for (Reg::iterator i = r.begin(); i != r.end(); ++i) MC_TRUE(reg(p, i->first, live[i->second]));
      std::vector<Target> want = live; bool w = !s.empty(); size_t f = 0;
      const std::vector<std::string> b = blocks(s, '|');
      for (int pass = 0; pass < 2; ++pass)
         for (size_t i = 0; i < b.size(); ++i)
         {
            if (b[i].empty()) continue;
            size_t q = b[i].find('='); bool ok = q != std::string::npos && q + 1 < b[i].size();
            std::string k, v; if (ok) { k = b[i].substr(0, q); v = b[i].substr(q + 1); ok = k.size() <= 2 && v.find('x') == std::string::npos && r.count(k); }
            if (ok) { if (pass || w) want[r[k]].s = v; } else if (pass) ++f; else w = false;
         }
      std::vector<Target> strict = live; bool ws = !s.empty();
      for (size_t i = 0; ws && i < b.size(); ++i)
      {
         if (b[i].empty()) continue;
         size_t q = b[i].find('='); bool ok = q != std::string::npos && q + 1 < b[i].size();
         if (ok) { const std::string k = b[i].substr(0, q), v = b[i].substr(q + 1); ok = k.size() <= 2 && v.find('x') == std::string::npos && r.count(k); if (ok) strict[r[k]].s = v; }
         if (!ok) ws = false;
      }
      MC_EQM(p(s), ws, "strict result"); MC_EQM(show(live), show(strict), "strict values");
      MC_EQM(p(s, true), true, "lenient result"); MC_EQM(show(live), show(want), "lenient values"); MC_EQM(p.failure_count(), f, "failure count");
   });
}
MC_SECTION(bound_types)
{
   const char* f[] = { "0", "-1", "255", "256", "65535", "65536", "2147483648", "x", "3.5", "1e3", "z9" };
   for (size_t i = 0; i < sizeof f / sizeof *f; ++i)
   {
      MC_CASE(o << "keys bound to 9 types and a container, value " << f[i]);
      const std::string v = f[i]; unsigned bad = 0;
      short s1 = 0, s2 = 0; unsigned short us1 = 0, us2 = 0; int i1 = 0, i2 = 0; unsigned u1 = 0, u2 = 0; long long l1 = 0, l2 = 0; double d1 = 0, d2 = 0; char c1 = 0, c2 = 0; std::string q1, q2; strtk::util::attribute<int> a1, a2;
      std::deque<int> list; strtk::deque_sink<int>::type sink(","); sink(list);
      options<uc> o; set(o, '|', '='); parser<stringkey_map> p(o);
      p.register_keyvalue("s", s1); p.register_keyvalue("us", us1); p.register_keyvalue("i", i1); p.register_keyvalue("u", u1); p.register_keyvalue("l", l1); p.register_keyvalue("d", d1); p.register_keyvalue("c", c1); p.register_keyvalue("q", q1); p.register_keyvalue("a", a1); p.register_keyvalue("list", sink);
      std::string t; const char* ks[] = { "s", "us", "i", "u", "l", "d", "c", "q", "a" }; for (int k = 0; k < 9; ++k) t += std::string(ks[k]) + "=" + v + "|";
      t += "list=4,-5,6";
      bad = !strtk::string_to_type_converter(v, s2); bad += !strtk::string_to_type_converter(v, us2); bad += !strtk::string_to_type_converter(v, i2); bad += !strtk::string_to_type_converter(v, u2); bad += !strtk::string_to_type_converter(v, l2);
      bad += !strtk::string_to_type_converter(v, d2); bad += !strtk::string_to_type_converter(v, c2); bad += !strtk::string_to_type_converter(v, q2); bad += !strtk::string_to_type_converter(v, a2);
      MC_TRUE(p(t, true)); MC_EQ(p.failure_count(), (size_t)bad);
      MC_EQ(s1, s2); MC_EQ(us1, us2); MC_EQ(i1, i2); MC_EQ(u1, u2); MC_EQ(l1, l2); MC_EQ(d1, d2); MC_EQ(c1, c2); MC_EQ(q1, q2); MC_EQ(a1.initialised(), a2.initialised()); if (a2.initialised()) MC_EQ(a1.value(), a2.value());
      MC_EQ(std::vector<int>(list.begin(), list.end()), (std::vector<int>{ 4, -5, 6 }));
   }
}
MC_SECTION(every_byte)
{
   // every byte in the place of a key, of a value, of either delimiter; and as the first, middle or last character of a longer key or value
   for (int b = 0; b < 256; ++b)
   {
      const char c = (char)b;
      if (c != '|' && c != '=')
         for (int form = 0; form < 4; ++form)
         {
            const std::string pad = "qrst", k = form == 0 ? std::string(1, c) : form == 1 ? c + pad : form == 2 ? pad + c + pad : pad + c;
            MC_CASE(o << "byte " << b << " in key " << k);
            std::vector<Target> live; put(live, "sis"); Reg r; r[k] = 0; r["n"] = 1; r["z"] = 2; options<uc> o; set(o, '|', '='); parser<stringkey_map> p(o); StrFind find = { r }; size_t f = 0;
            for (Reg::iterator i = r.begin(); i != r.end(); ++i) MC_TRUE(reg(p, i->first, live[i->second]));
            drive(p, live, k + "=" + k + "|n=4|z=" + k, '|', '=', find, f);
            drive(p, live, "n=" + k + "|z=" + k + "|" + k + "x=1|" + k + "=w" + c, '|', '=', find, f);
         }
      for (int d = 0; d < 256; d += (b % 16 == 0 ? 1 : 17))
      {
         const char e = (char)d; if (c == e) continue;
         MC_CASE(o << "block delimiter " << b << ", pair delimiter " << d);
         std::vector<Target> live; put(live, "sss"); Reg r; options<uc> o; set(o, c, e); parser<stringkey_map> p(o); size_t f = 0, t = 0; std::string s;
         for (int k = 0; t < 3 && k < 256; k += 37) { char kc = (char)k; if (kc == c || kc == e) continue; r[std::string(1, kc)] = (int)t++; if (!s.empty()) s += c; s += kc; s += e; s += kc; s += (t == 2 ? std::string(1, e) + "v" : std::string(2, kc)); }
         StrFind find = { r };
         for (Reg::iterator i = r.begin(); i != r.end(); ++i) MC_TRUE(reg(p, i->first, live[i->second]));
         drive(p, live, s, c, e, find, f); drive(p, live, c + s + c + c, c, e, find, f); drive(p, live, s + c + "?" + e + "1", c, e, find, f);
      }
   }
}
MC_SECTION(huge)
{
   for (size_t n : mc::scales(60, 70000))
   {
      // n pairs over a few keys, one of them broken; n registered keys; a key and a value of n characters
      for (int bad = 0; bad < 3; ++bad)
      {
         MC_CASE(o << n << " pairs over 5 keys, broken: " << (bad == 0 ? "none" : bad == 1 ? "the last" : "one in 7"));
         std::vector<Target> live; put(live, "isisi"); Reg r; options<uc> o; set(o, '|', '='); parser<stringkey_map> p(o); size_t f = 0; std::string s;
         for (int k = 0; k < 5; ++k) { r[std::string(1, (char)('a' + k))] = k; MC_TRUE(reg(p, std::string(1, (char)('a' + k)), live[k])); }
         for (size_t i = 0; i < n; ++i) { if (i) s += "|"; s += (char)('a' + i % 5); if ((bad == 1 && i + 1 == n) || (bad == 2 && i % 7 == 3)) continue; s += "=" + std::to_string(i); }
         StrFind find = { r }; drive(p, live, s, '|', '=', find, f);
      }
      for (int key = 0; key < 2; ++key)
      {
         MC_CASE(o << (key ? "a key" : "a value") << " of " << n << " characters");
         const std::string big = mc::letters(n), k = key ? big : "k", v = key ? "v" : big;
         std::vector<Target> live; put(live, "sis"); Reg r; r[k] = 0; r["n"] = 1; r["zz"] = 2; options<uc> o; set(o, '|', '='); parser<stringkey_map> p(o); size_t f = 0; StrFind find = { r };
         for (Reg::iterator i = r.begin(); i != r.end(); ++i) MC_TRUE(reg(p, i->first, live[i->second]));
         drive(p, live, k + "=" + v + "|n=5|zz=" + v, '|', '=', find, f); drive(p, live, k + "x=1|" + k.substr(1) + "=2|" + k + "=7", '|', '=', find, f);
         if (!key) { std::map<unsigned long long,int> rn; rn[3] = 0; std::vector<Target> l2; put(l2, "s"); uintkey_map::options on; set(on, '|', '='); on.key_count = 4; parser<uintkey_map> pn(on); MC_TRUE(reg(pn, 3u, l2[0])); NumFind fn = { rn }; size_t g = 0; drive(pn, l2, "3=" + v, '|', '=', fn, g); }
      }
      {
         MC_CASE(o << n << " registered numeric keys");
         std::vector<Target> live; put(live, std::string(n, 'i').c_str()); std::map<unsigned long long,int> rn; uintkey_map::options on; set(on, '|', '='); on.key_count = n; parser<uintkey_map> p(on); size_t f = 0; std::string s;
         for (size_t i = 0; i < n; ++i) { rn[i] = (int)i; MC_TRUE(reg(p, (unsigned)i, live[i])); }
         MC_EQM(reg(p, (unsigned)n, live[0]), false, "a key at the limit");
         for (size_t i = 0; i < n; i += 1 + n / 40) { if (i) s += '|'; s += std::to_string(i) + "=" + std::to_string(i * 2 + 1); }
         s += "|" + std::to_string(n - 1) + "=77"; NumFind find = { rn }; drive(p, live, s, '|', '=', find, f); drive(p, live, s + "|" + std::to_string(n) + "=1|0=5", '|', '=', find, f);
      }
      {
         MC_CASE(o << n << " registered string keys");
         std::vector<Target> live; put(live, std::string(n, 'i').c_str()); Reg r; options<uc> o; set(o, '|', '='); parser<stringkey_map> p(o); size_t f = 0; std::string s;
         for (size_t i = 0; i < n; ++i) { r[std::to_string(i)] = (int)i; MC_TRUE(reg(p, std::to_string(i), live[i])); }
         for (size_t i = 0; i < n; i += 1 + n / 40) { if (i) s += '|'; s += std::to_string(i) + "=" + std::to_string(i * 2 + 1); }
         StrFind find = { r }; drive(p, live, s, '|', '=', find, f); drive(p, live, s + "|" + std::to_string(n) + "=1|0=5", '|', '=', find, f);
      }
   }
}
MC_MAIN
