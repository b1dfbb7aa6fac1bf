// Regular expression splitting: one token per match, the requested group, in order, at most n for the _n forms.
#define strtk_enable_regex
#define BOOST_REGEX_MAX_STATE_COUNT 100000000
#include "strtk.hpp"
#include "mc.hpp"
#include <regex>
typedef std::vector<std::pair<long,long> > Off;
struct Expr { std::string text; boost::regex b; std::regex s; int groups; Expr(const char* t, int g) : text(t), b(t), s(t), groups(g) {} };
static const strtk::regex_match_mode::type mode[] = { strtk::regex_match_mode::match_all, strtk::regex_match_mode::match_1, strtk::regex_match_mode::match_2, strtk::regex_match_mode::match_3, strtk::regex_match_mode::match_4,
   strtk::regex_match_mode::match_5, strtk::regex_match_mode::match_6, strtk::regex_match_mode::match_7, strtk::regex_match_mode::match_8, strtk::regex_match_mode::match_9 };
typedef std::string::const_iterator SI;
typedef std::pair<SI,SI> R;
static Off model(const Expr& e, const std::string& s, int g, size_t n)
{
   Off r;
   for (std::sregex_iterator i(s.begin(), s.end(), e.s), z; i != z && r.size() < n; ++i)
   { const std::ssub_match& m = (*i)[g]; if (m.matched) r.push_back(std::make_pair(m.first - s.begin(), m.second - s.begin())); else r.push_back(std::make_pair(-1L, -1L)); }
   return r;
}
template <typename V> static void same(const V& got, size_t ret, const Off& want, const std::string& s, const char* what)
{
   if (ret != want.size()) { mc::eq(ret, want.size(), what); return; }
   if (got.size() != want.size()) { mc::eq(got.size(), want.size(), what); return; }
   for (size_t i = 0; i < want.size(); ++i)
   {
      long a = got[i].first - s.begin(), b = got[i].second - s.begin();
      if (want[i].first < 0 ? a != b : (a != want[i].first || b != want[i].second)) { mc::Out o; o << what << ": token " << i << " is [" << a << "," << b << ") want [" << want[i].first << "," << want[i].second << ")"; mc::fail(o.str()); return; }
   }
}
static void one(const Expr& e, const std::string& s)
{
   MC_CASE(o << "split_regex " << e.text << " over " << s);
   for (int g = 0; g <= e.groups; ++g)
   {
      const Off all = model(e, s, g, (size_t)-1);
      mc::Hash h; for (size_t i = 0; i < all.size(); ++i) h((uint64_t)all[i].first)((uint64_t)all[i].second); mc::outcome(h((uint64_t)g)(e.text));
      { std::vector<R> v; size_t r = strtk::split_regex(e.b, s, mc::append(v), mode[g]); same(v, r, all, s, "regex, string"); }
      { std::vector<R> v; size_t r = strtk::split_regex(e.b, s.begin(), s.end(), mc::append(v), mode[g]); same(v, r, all, s, "regex, range"); }
      if (s.size() < 5) {
      { std::vector<R> v; size_t r = strtk::split_regex(e.text, s, mc::append(v), mode[g]); same(v, r, all, s, "text, string"); }
      { std::vector<R> v; size_t r = strtk::split_regex(e.text, s.begin(), s.end(), mc::append(v), mode[g]); same(v, r, all, s, "text, range"); } }
      if (g == 0) { std::vector<R> v; size_t r = strtk::split_regex(e.b, s, mc::append(v)); same(v, r, all, s, "default mode"); }
      if (g <= 1)
      {
         std::vector<std::string> t; strtk::split_regex(e.b, s, strtk::range_to_type_back_inserter(t), mode[g]); MC_EQ(t.size(), all.size());
         for (size_t i = 0; i < t.size() && i < all.size(); ++i) MC_EQ(t[i], all[i].first < 0 ? std::string() : s.substr(all[i].first, all[i].second - all[i].first));
      }
      std::set<size_t> ns; ns.insert(0); ns.insert(1); ns.insert(2); ns.insert(all.size()); ns.insert(all.size() + 1); if (all.size()) ns.insert(all.size() - 1);
      for (std::set<size_t>::iterator n = ns.begin(); n != ns.end(); ++n)
      {
         Off w = all; if (w.size() > *n) w.resize(*n);
         { std::vector<R> v; size_t r = strtk::split_regex_n(e.b, s, *n, mc::append(v), mode[g]); same(v, r, w, s, "n: regex, string"); }
         { std::vector<R> v(*n, R(s.begin(), s.begin())); size_t r = strtk::split_regex_n(e.b, s.begin(), s.end(), *n, v.begin(), mode[g]); v.resize(std::min(r, v.size())); same(v, r, w, s, "n: regex, range"); }
         if (s.size() < 4) {
         { std::vector<R> v; size_t r = strtk::split_regex_n(e.text, s, *n, mc::append(v), mode[g]); same(v, r, w, s, "n: text, string"); }
         { std::vector<R> v; size_t r = strtk::split_regex_n(e.text, s.begin(), s.end(), *n, mc::append(v), mode[g]); same(v, r, w, s, "n: text, range"); } }
      }
   }
}
static void family(const char** ex, const int* gr, int n, const std::string& alphabet, size_t len)
{ for (int i = 0; i < n; ++i) { Expr e(ex[i], gr[i]); mc::strings(alphabet, 0, len, [&](const std::string& s) { one(e, s); }); } }
MC_SECTION(literals) { static const char* e[] = { "a", "ab", "aa", "a|b", "[^a]", "a+", "ab+a" }; static const int g[] = { 0,0,0,0,0,0,0 }; family(e, g, 7, "ab", mc::tier(7, 10)); }
MC_SECTION(groups) { static const char* e[] = { "(a)(b)", "(a)(b)?", "(a|b)(a|b)", "((a)b)|(b)", "(a+)(b*)", "(a)(b)?(a)?" }; static const int g[] = { 2,2,2,3,2,3 }; family(e, g, 6, "ab", mc::tier(7, 9)); }
MC_SECTION(nine_groups) { static const char* e[] = { "(.)(.)(.)(.)(.)(.)(.)(.)(.)", "(((((((((a)))))))))" }; static const int g[] = { 9, 9 }; family(e, g, 2, "ab", mc::tier(9, 11)); }
MC_SECTION(documented) { static const char* e[] = { "\\(.*?\\)", "\\(([^()]*)\\)", "([+-]?([\\d]+))" }; static const int g[] = { 0,1,2 }; family(e, g, 2, "a(),", mc::tier(5, 7)); family(e + 2, g + 2, 1, "1+-,", mc::tier(5, 7)); }
MC_SECTION(lengths)
{
   Expr e1("a", 0), e2("(a)(b)?", 2), e3("b+", 0);
   for (size_t n = 0; n <= mc::tier((size_t)120, (size_t)500); ++n) { std::string a(n, 'a'), m; for (size_t i = 0; i < n; ++i) m += "abba"[i * i % 4]; one(e1, a); one(e2, a); one(e2, m); one(e3, m); one(e3, a); }
}
MC_MAIN
