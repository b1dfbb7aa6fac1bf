#include "split_model.hpp"
#include "parse_model.hpp"
#include "parse_arity.hpp"
template <typename It, typename T> static bool call(size_t k, It b, It e, const std::string& d, T* v)
{
   switch (k)
   {
      #define M(N) case N: return strtk::parse(b, e, d, AR##N);
      EACH16(M)
      #undef M
   }
   return false;
}
template <typename T> static bool call_s(size_t k, const std::string& s, const std::string& d, T* v)
{
   switch (k)
   {
      #define M(N) case N: return strtk::parse(s, d, AR##N);
      EACH16(M)
      #undef M
   }
   return false;
}
template <typename T>
static void fixed(const std::string& s, const std::string& d, size_t k, bool all_forms)
{
   SV tok = texts(s, model_split(s, d, 1));
   std::vector<T> want(16, Sentinel<T>::get());
   bool w = model(tok, k, want.data());
   {
      mc::Buf<T> v(16); for (int i = 0; i < 16; ++i) v.p[i] = Sentinel<T>::get();
      bool r = call_s(k, s, d, v.p);
      MC_EQM(r, w, "parse(string) result");
      MC_EQM(std::vector<T>(v.begin(), v.end()), want, "parse(string) values");
   }
   if (all_forms)
   {
      mc::Buf<char> b(s);
      std::vector<T> v(16, Sentinel<T>::get());
      MC_EQM(call(k, (const char*)b.begin(), (const char*)b.end(), d, v.data()), w, "parse(const char*) result"); MC_EQM(v, want, "parse(const char*) values");
      v.assign(16, Sentinel<T>::get());
      MC_EQM(call(k, s.begin(), s.end(), d, v.data()), w, "parse(string iterators) result"); MC_EQM(v, want, "parse(string iterators) values");
   }
   mc::outcome(mc::Hash()(k)(w)(tok));
}
template <typename T> static void arities(const std::string& s, const std::string& d, bool all)
{
   for (size_t k = 1; k <= 16; ++k)
   {
      MC_CASE(o << "parse(" << s << ", delims=" << d << ") into " << k << " values of size " << sizeof(T));
      fixed<T>(s, d, k, all);
   }
}
MC_SECTION(fixed_small)
{
   const char* ds[] = { ",", ",;" };
   for (int q = 0; q < 2; ++q)
      mc::strings("1,;x", 0, mc::tier(6, 8), [&](const std::string& s) {
         for (size_t k = 1; k <= 5; ++k)
         {
            MC_CASE(o << "parse(" << s << ", delims=" << ds[q] << ") into " << k << " values");
            fixed<std::string>(s, ds[q], k, false);
            fixed<int>(s, ds[q], k, false);
         }
      });
}
MC_SECTION(delimiter_sets)
{
   // sets of 0, 3, 4, 7 and 246 delimiters (all bytes no number needs), every member in every gap
   std::string all; for (int c = 0; c < 256; ++c) if (!strchr("0123456789-x", c) || c == 0) all += (char)c;
   for (const std::string& d : { std::string(), std::string(";|:"), std::string(";|:,"), std::string(" \t\r\n,;|"), all })
      for (size_t i = 0; i < d.size() + 1; ++i)
      {
         const std::string x = i < d.size() ? std::string(1, d[i]) : "", y = d.empty() ? "" : std::string(1, d[(i + 1) % d.size()]), t[] = { "1" + x + "2" + y + "3", x + "1" + y, "1" + x + y + "2", "1" + x + "x" + y + "2" + x };
         for (const std::string& s : t) for (size_t k = 1; k <= 4; ++k) { MC_CASE(o << "parse(" << s << ", delims=" << d << ") into " << k << " values"); fixed<std::string>(s, d, k, false); fixed<int>(s, d, k, false); }
      }
}
MC_SECTION(delimiter_lists_in_turn)
{
   const std::string s = "1,2;;3|4:5,;6|:7";
   mc::lists_in_turn(",;|:", 4, [&](const std::string& d) { for (size_t k = 1; k <= 5; ++k) { MC_CASE(o << "parse(" << s << ", delims=" << d << ") into " << k << " values, lists in turn"); fixed<std::string>(s, d, k, k == 3); fixed<std::string>(s, mc::same_place(d), k, false); } fixed<int>("1" + d + "2" + d + "3", d, 2, true); });
}
MC_SECTION(fixed_in_context)
{
   mc::in_context("1,;x", 1, mc::tier(2, 4), '0', '0', [&](const std::string& s) { for (size_t k = 1; k <= 4; ++k) { MC_CASE(o << "parse(" << s << ") into " << k << " values"); fixed<std::string>(s, ",;", k, false); fixed<int>(s, ",;", k, false); fixed<int>(s, ",", k, false); } });
}
MC_SECTION(fixed_every_arity)
{
   // n tokens, every arity 1..16, with the conversion failing at every position (or nowhere), several delimiter shapes
   const char* seps[] = { ",", ",,,", ";", ",;" };
   for (size_t n = 0; n <= 18; ++n)
      for (size_t bad = 0; bad <= n; ++bad)
         for (int sep = 0; sep < 4; ++sep)
            for (int ends = 0; ends < 4; ++ends)
            {
               std::string s, num;
               if (ends & 1) s += seps[sep];
               for (size_t i = 0; i < n; ++i)
               {
                  if (i) s += seps[sep];
                  if (i + 1 == bad) s += "x"; else s += std::to_string((int)(i * 37 % 1000) - 300);
               }
               if (ends & 2) s += seps[sep];
               arities<int>(s, ",;", n < 4 || sep == 0);
               if (bad == 0) arities<std::string>(s, ",;", true);
            }
}
MC_SECTION(fixed_types)
{
   mc::strings("1.a ", 0, mc::tier(6, 7), [&](const std::string& s) {
      for (size_t k = 1; k <= 4; ++k)
      {
         MC_CASE(o << "parse(" << s << ", delims=\" \") into " << k << " char/double values");
         fixed<char>(s, " ", k, true);
         fixed<double>(s, " ", k, true);
      }
   });
}
MC_SECTION(fixed_mixed_types)
{
   const char* parts[] = { "", "7", "-3", "q", "zz", "1.5" };
   for (size_t n = 0; n <= 5; ++n)
      mc::tuples(6, n, [&](const std::vector<size_t>& t) {
         std::string s; for (size_t i = 0; i < n; ++i) { if (i) s += "|"; s += parts[t[i]]; }
         MC_CASE(o << "parse(" << s << ") into string,int,char,double");
         SV tok = texts(s, model_split(s, "|", 1));
         std::string a = "S", wa = "S"; int b = -1, wb = -1; char c = '~', wc = '~'; double e = -2, we = -2;
         bool w = tok.size() >= 4 && conv(tok[0], wa) && conv(tok[1], wb) && conv(tok[2], wc) && conv(tok[3], we);
         bool r = strtk::parse(s, "|", a, b, c, e);
         MC_EQ(r, w); MC_EQ(a, wa); MC_EQ(b, wb); MC_EQ(c, wc); MC_EQ(e, we);
         mc::outcome(mc::Hash()(w)(tok));
      });
}
// ---------------------------------------------------------------- fixed targets followed by a container
template <typename T, typename C> static bool call_c(size_t k, const std::string& s, const std::string& d, T* v, C& c)
{
   switch (k)
   {
      #define M(N) case N: return strtk::parse(s, d, AR##N, c);
      EACH11(M)
      #undef M
   }
   return false;
}
template <typename T, typename C>
static void trailing(const char* kind, const std::string& s, const std::string& d, size_t k)
{
   SV tok = texts(s, model_split(s, d, 1));
   std::vector<T> want(11, Sentinel<T>::get()), v(11, Sentinel<T>::get());
   C wc, c;
   put(wc, Sentinel<T>::get()); put(c, Sentinel<T>::get());        // existing contents stay
   bool w = tok.size() >= k + 1 && model(tok, k, want.data());
   if (w) for (size_t i = k; i < tok.size(); ++i) { T t; if (!conv(tok[i], t)) { w = false; break; } put(wc, t); }
   bool r = call_c(k, s, d, v.data(), c);
   MC_EQM(r, w, kind); MC_EQM(v, want, kind); MC_EQM(drain(c), drain(wc), kind);
}
template <typename T> static void trailing_all(const std::string& s, const std::string& d, size_t k)
{
   MC_CASE(o << "parse(" << s << ", delims=" << d << ") into " << k << " values and a container, value size " << sizeof(T));
   trailing<T, std::vector<T> >("vector", s, d, k);
   trailing<T, std::deque<T> >("deque", s, d, k);
   trailing<T, std::list<T> >("list", s, d, k);
   trailing<T, std::set<T> >("set", s, d, k);
   trailing<T, std::multiset<T> >("multiset", s, d, k);
   trailing<T, std::queue<T> >("queue", s, d, k);
   trailing<T, std::stack<T> >("stack", s, d, k);
   trailing<T, std::priority_queue<T> >("priority_queue", s, d, k);
   mc::outcome(mc::Hash()(k)(s));
}
MC_SECTION(trailing_container_small)
{
   mc::strings("1,;x", 0, mc::tier(5, 7), [&](const std::string& s) {
      for (size_t k = 1; k <= 3; ++k) { trailing_all<int>(s, ",", k); trailing_all<std::string>(s, ",;", k); }
   });
}
MC_SECTION(trailing_container_every_arity)
{
   for (size_t n = 0; n <= 20; ++n)
      for (size_t bad = 0; bad <= n; ++bad)
         for (size_t k = 1; k <= 11; ++k)
         {
            std::string s;
            for (size_t i = 0; i < n; ++i) { if (i) s += (i % 3) ? "," : ",,"; if (i + 1 == bad) s += "x"; else s += std::to_string((int)(i * 7 % 10) - 3); }
            trailing_all<int>(s, ",", k);
            if (!bad) trailing_all<std::string>(s, ",;", k);
         }
}
MC_SECTION(huge_token_counts)
{
   for (size_t n : mc::scales(200, mc::tier<size_t>(70000, 140000)))
      for (int bad = 0; bad < 4; ++bad)
      {
         std::string s; const size_t at = bad == 0 ? n : bad == 1 ? n - 1 : bad == 2 ? n / 2 : 12;
         for (size_t i = 0; i < n; ++i) { if (i) s += i % 5 ? "," : ",,"; if (i == at) s += "x"; else s += std::to_string((int)(i * 37 % 100000) - 300); }
         for (size_t k : {1u, 2u, 9u, 13u, 16u}) { MC_CASE(o << "parse of " << n << " tokens, bad one at " << at << ", into " << k << " values"); fixed<int>(s, ",", k, bad < 2); if (bad == 0) fixed<std::string>(s, ",", k, false); }
         for (size_t k : {1u, 11u}) { if (n > 5000 && k == 11 && bad > 1) continue; trailing<int, std::vector<int> >("vector", s, ",", k); trailing<int, std::deque<int> >("deque", s, ",;", k); trailing<int, std::multiset<int> >("multiset", s, ",", k); trailing<int, std::queue<int> >("queue", s, ",", k); trailing<int, std::list<int> >("list", s, ",", k); trailing<int, std::set<int> >("set", s, ",", k); }
         mc::outcome(mc::Hash()(n)((uint64_t)bad));
      }
}
MC_SECTION(huge_tokens_and_delimiters)
{
   for (size_t n : mc::scales(30, 70000))
      for (size_t at = 0; at < 3; ++at)
      {
         std::string t[3] = { "a", "b", "c" }; t[at] = std::string(n, 'L'); t[at][n / 2] = 'M'; const std::string s = t[0] + "," + t[1] + "," + t[2];
         for (size_t k = 1; k <= 4; ++k) { MC_CASE(o << "token " << at << " of " << n << " characters, parsed into " << k << " strings"); fixed<std::string>(s, ",", k, true); trailing<std::string, std::vector<std::string> >("vector", s, ",", k); }
      }
   // delimiter lists of every size, the delimiter in use standing anywhere in the list
   for (size_t n = 1; n <= mc::tier<size_t>(200, 240); ++n)
      for (size_t use : {(size_t)0, n / 2, n - 1})
      {
         std::string d; for (int c = 255; d.size() < n && c >= 0; --c) if (!(c >= '0' && c <= '9') && c != '-') d += (char)c;
         std::string s = std::string("17") + d[use] + "-4" + d[use] + d[use] + "0";
         for (size_t k = 1; k <= 4; ++k) { MC_CASE(o << "delimiter " << use << " of " << n << " into " << k << " values"); fixed<int>(s, d, k, true); }
         MC_CASE(o << "delimiter " << use << " of " << n << " into a value and a container"); trailing<int, std::vector<int> >("vector", s, d, 1);
      }
}
MC_SECTION(targets_with_contents)
{
   // text targets that hold something already: a converted field replaces it, a field that is never reached leaves it
   auto one = [](const std::string& t) {
      MC_CASE(o << "field " << t << " into strings with other contents");
      for (const std::string& old : mc::stale(t))
      {
         std::string a = old, b = old, c = old, d = old, e = old, n;
         MC_TRUE(strtk::parse(t + ";" + t, ";", a, b)); MC_EQM(a, t, "first"); MC_EQM(b, t, "last");
         MC_EQ(strtk::parse(t, ";", c, d), false); MC_EQM(d, old, "a target without a field");
         MC_TRUE(strtk::string_to_type_converter(t, e)); MC_EQM(e, t, "string_to_type_converter"); MC_EQ(strtk::string_to_type_converter<std::string>(t), t);
         std::vector<std::string> v(2, old); MC_EQ(strtk::parse(t + ";" + t, ";", v), (size_t)2); MC_EQ(v, (std::vector<std::string>{old, old, t, t}));
      }
      mc::outcome(t);
   };
   mc::strings("ab", 1, mc::tier<size_t>(6, 8), one); for (int c = 0; c < 256; ++c) if (c != ';') { one(std::string(1, (char)c)); one(std::string(17, (char)c)); }
   for (size_t n = 1; n <= 80; ++n) one(std::string(n, 'k')); for (size_t n : mc::scales()) one(std::string(n, 'k'));
}
MC_MAIN
