// T08: string_condition, filter_on_match and filter_on_wildcard_match.
#include "strtk.hpp"
#include "mc.hpp"
#include <algorithm>
#include <memory>
typedef std::string S;
typedef std::vector<S> VS;
typedef std::pair<const char*, const char*> R;
typedef strtk::string_condition C;

static bool glob(const S& p, size_t i, const S& s, size_t j)      // naive reference
{
   if (i == p.size()) return j == s.size();
   if (p[i] == '*') { for (size_t k = j; k <= s.size(); ++k) if (glob(p, i + 1, s, k)) return true; return false; }
   if (p[i] == '?') return glob(p, i + 1, s, j) || (j < s.size() && glob(p, i + 1, s, j + 1));
   return j < s.size() && s[j] == p[i] && glob(p, i + 1, s, j + 1);
}
static bool ref(int t, const S& p, const S& s)
{
   switch (t)
   {
      case C::equal: return s == p; case C::notequal: return s != p; case C::like: return glob(p, 0, s, 0);
      case C::begins_with: return s.size() >= p.size() && s.substr(0, p.size()) == p;
      case C::ends_with: return s.size() >= p.size() && s.substr(s.size() - p.size()) == p;
      case C::within: return s.find(p) != S::npos; default: return s.find(p) == S::npos;
   }
}
static const int TYPES[] = {C::equal, C::notequal, C::like, C::begins_with, C::ends_with, C::within, C::notwithin};
static void cond(const S& p, const S& s)
{
   for (int t : TYPES)
   {
      if ((t == C::within || t == C::notwithin) && p.empty()) continue;      // unspecified for the empty string
      MC_CASE(o << "condition " << t << " with " << p << " on " << s);
      bool w = ref(t, p, s);
      C c((C::condition_type)t, p);
      mc::Buf<unsigned char> b(s);
      MC_EQ(c(s), w); MC_EQ(c((const unsigned char*)b.begin(), (const unsigned char*)b.end()), w); MC_EQ(c(s), w);
      C a(C::equal, "other string, long enough to be on the heap");
      { std::unique_ptr<C> h(new C((C::condition_type)t, p)); C k(*h); a = *h; h.reset(); MC_EQM(k(s), w, "copy"); }
      MC_EQM(a(s), w, "assigned"); a = a; MC_EQM(a(s), w, "self-assigned");
      mc::outcome(mc::Hash()((uint64_t)t)(w)(p)(s.size()));
   }
}
MC_SECTION(conditions_short)
{
   VS pats; mc::strings("ab*?", 0, 3, [&](const S& p) { pats.push_back(p); });
   for (auto& p : pats) mc::strings("ab*", 0, mc::tier<size_t>(4, 6), [&](const S& s) { cond(p, s); });
}
MC_SECTION(conditions_with_nul)
{
   const S al("a\0*", 3); VS pats; mc::strings(al, 0, 3, [&](const S& p) { pats.push_back(p); });
   for (auto& p : pats) mc::strings(al, 0, mc::tier<size_t>(4, 5), [&](const S& s) { cond(p, s); });
}
MC_SECTION(conditions_in_context)
{
   const char* ps[] = { "a", "ab", "*ab*", "x*", "*y", "xa", "by", "aa", "*a?b*" };
   mc::in_context("ab", 1, mc::tier<size_t>(2, 4), 'x', 'y', [&](const S& s) { for (const char* p : ps) cond(p, s); cond(s, s); cond(s.substr(1), s); cond(s.substr(0, s.size() - 1), s); });
}
MC_SECTION(conditions_long)
{
   for (size_t n = 1; n <= mc::tier<size_t>(40, 90); ++n)
   {
      S p; for (size_t i = 0; i < n; ++i) p += (char)(i * 5 + 128);
      std::replace(p.begin(), p.end(), '*', '+'); std::replace(p.begin(), p.end(), '?', '+');
      for (size_t pre = 0; pre <= 2; ++pre) for (size_t post = 0; post <= 2; ++post)
         for (size_t bad = 0; bad <= n; ++bad) { S s = p; if (bad < n) s[bad] = (char)(s[bad] ^ 1); cond(p, S(pre, 'x') + s + S(post, 'y')); }
      cond(p, p.substr(1)); cond(p, p.substr(0, n - 1));
   }
   for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { if (a == '*' || a == '?') continue; cond(S(1, (char)a), S(1, (char)b)); }
}

struct Sink { VS* v; void operator()(const S& s) const { v->push_back(s); } void operator()(const R& r) const { v->push_back(S(r.first, r.second)); }
   void operator()(const std::pair<S::const_iterator,S::const_iterator>& r) const { v->push_back(S(r.first, r.second)); } };
static bool ieq(const S& a, const S& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { char x = a[i], y = b[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return false; } return true; }
MC_SECTION(match_filter)
{
   VS words; mc::strings("aAb", 0, 2, [&](const S& p) { words.push_back(p); });
   words.push_back("aab"); words.push_back("word\x80"); words.push_back("WORD\x80"); words.push_back("WORD");
   auto one = [&](const VS& list, const VS& tokens) {
      for (int ci = 0; ci < 2; ++ci) for (int allow = 0; allow < 2; ++allow)
      {
         MC_CASE(o << "filter_on_match " << list << (ci ? " ignoring case" : "") << (allow ? " let through " : " hold back ") << tokens);
         VS w, a, b; for (auto& t : tokens) { bool m = false; for (auto& l : list) m = m || (ci ? ieq(l, t) : l == t); if (m == (allow != 0)) w.push_back(t); }
         const S* L = list.empty() ? 0 : &list[0];
         Sink sa = {&a}, sb = {&b};
         strtk::filter_on_match<Sink> fa(L, L + list.size(), sa, ci != 0, allow != 0), fb(L, L + list.size(), sb, ci != 0, allow != 0);
         for (auto& t : tokens) { mc::Buf<char> x(t); fa(R(x.begin(), x.end())); fb(t); }
         MC_EQM(a, w, "ranges"); MC_EQM(b, w, "strings");
         if (allow) { VS d; Sink sd = {&d}; strtk::filter_on_match<Sink> fd(L, L + list.size(), sd, ci != 0); for (auto& t : tokens) fd(t); MC_EQM(d, w, "default"); }
         mc::outcome(mc::Hash()(w)((uint64_t)ci)((uint64_t)allow));
      }
   };
   const size_t n = words.size();
   for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { one({words[i]}, {words[j]}); for (size_t k = 0; k < n; ++k) one({words[i], words[j]}, {words[k], words[i]}); }
   one({}, words); for (size_t k = 0; k <= n; ++k) one(VS(words.begin(), words.begin() + k), words);
}
MC_SECTION(wildcard_filter)
{
   VS pats; mc::strings("a*?", 0, mc::tier<size_t>(4, 5), [&](const S& p) { pats.push_back(p); });
   VS tokens; mc::strings("ab", 0, mc::tier<size_t>(4, 5), [&](const S& p) { tokens.push_back(p); });
   for (auto& p : pats) for (int allow = 0; allow < 2; ++allow)
   {
      MC_CASE(o << "filter_on_wildcard_match " << p << (allow ? " let through" : " hold back"));
      VS w, a, b, d; for (auto& t : tokens) if (glob(p, 0, t, 0) == (allow != 0)) w.push_back(t);
      Sink sa = {&a}, sb = {&b}, sd = {&d};
      strtk::filter_on_wildcard_match<Sink> fa(p, sa, allow != 0), fb(p, sb, allow != 0), fd(p, sd);
      for (auto& t : tokens) { const S& ct = t; fa(std::make_pair(ct.begin(), ct.end())); fa(std::make_pair(ct.begin(), ct.end())); fb(t); fd(t); }
      VS w2; for (auto& x : w) { w2.push_back(x); w2.push_back(x); }
      MC_EQM(a, w2, "ranges"); MC_EQM(b, w, "strings"); if (allow) MC_EQM(d, w, "default");
      mc::outcome(mc::Hash()(w));
   }
}
MC_SECTION(huge)
{
   const std::vector<size_t> n = mc::scales(31, 70000);
   for (size_t i = 0; i < n.size(); ++i)
   {
      const size_t L = n[i];
      S s = mc::letters(L);
      const size_t at[] = { 0, 1, L / 2, L - 2, L - 1, 255, 256, 65535 };
      for (int q = 0; q < 9; ++q)
      {
         if (q < 8 && at[q] >= L) continue;
         S t = s; if (q < 8) t[at[q]] = '!';
         MC_CASE(o << "conditions on " << L << " characters, change at " << (q < 8 ? at[q] : (size_t)-1));
         const S text[] = { t, "x" + t, t + "y", "x" + t + "y", t.substr(1), t.substr(0, L - 1) };
         for (int x = 0; x < 6; ++x) for (int ty : TYPES)
         {
            if (ty == C::like) continue;
            C c((C::condition_type)ty, s); MC_EQ(c(text[x]), ref(ty, s, text[x])); C d((C::condition_type)ty, text[x]); MC_EQ(d(s), ref(ty, text[x], s));
         }
         VS list(1, "z"), a, w; list.push_back(s); Sink sa = {&a};
         for (int ci = 0; ci < 2; ++ci) for (int allow = 0; allow < 2; ++allow)
         {
            a.clear(); w.clear(); strtk::filter_on_match<Sink> f(&list[0], &list[0] + 2, sa, ci != 0, allow != 0);
            for (int x = 0; x < 6; ++x) { f(text[x]); if ((text[x] == s) == (allow != 0)) w.push_back(text[x]); }
            MC_TRUE(a == w);
         }
      }
   }
   // long word lists
   VS words; for (int i = 0; i < 700; ++i) words.push_back("Word" + std::to_string(i));
   for (int ci = 0; ci < 2; ++ci) for (int allow = 0; allow < 2; ++allow)
   {
      MC_CASE(o << "filter_on_match over 700 words");
      VS a, w; Sink sa = {&a}; strtk::filter_on_match<Sink> f(&words[0], &words[0] + 700, sa, ci != 0, allow != 0);
      for (int i = 0; i < 705; ++i) { S t = (i & 1 ? "Word" : "wORD") + std::to_string(i); f(t); bool m = i < 700 && (ci || (i & 1)); if (m == (allow != 0)) w.push_back(t); }
      MC_TRUE(a == w);
   }
}
MC_MAIN
