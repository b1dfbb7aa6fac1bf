// C01: permutations and combinations are enumerated completely, once each, in order; n_choose_k and the n'th sequences agree with the enumeration.
#include "split_model.hpp"
#include <deque>
#include <list>
typedef std::string S;
typedef std::vector<S> VS;

static std::vector<S> subsets(const S& s, size_t k)          // distinct k-multisets of sorted s in lexicographic order
{
   std::set<S> r; for (unsigned m = 0; m < (1u << s.size()); ++m) if ((size_t)__builtin_popcount(m) == k) { S t; for (size_t i = 0; i < s.size(); ++i) if (m >> i & 1) t += s[i]; r.insert(t); }
   return std::vector<S>(r.begin(), r.end());
}
MC_SECTION(next_combination)
{
   auto one = [](const S& s) {
      for (size_t i = 1; i < s.size(); ++i) if (s[i] < s[i - 1]) return;
      for (size_t k = 0; k <= s.size(); ++k)
      {
         MC_CASE(o << "combinations of " << k << " of " << s);
         const std::vector<S> w = subsets(s, k); S rest = s; std::sort(rest.begin(), rest.end());
         std::vector<S> g, g2, g3; S t = s; bool more = true;
         while (more) { g.push_back(t.substr(0, k)); S u = t; std::sort(u.begin(), u.end()); MC_EQM(u, s, "elements kept"); S tail = t.substr(k); MC_TRUE(std::is_sorted(tail.begin(), tail.end())); more = strtk::next_combination(t.begin(), t.begin() + k, t.end()); MC_TRUE(g.size() <= w.size()); mc::transition(); mc::state(mc::Hash()(t)(k)); }
         MC_EQM(g, w, "combinations in order"); MC_EQM(t, s, "sorted again at the end");
         std::vector<char> v(s.begin(), s.end()); do g2.push_back(S(v.begin(), v.begin() + k)); while (strtk::next_combination(v, k)); MC_EQM(g2, w, "sequence form");
         std::deque<char> d(s.begin(), s.end()); do g3.push_back(S(d.begin(), d.begin() + k)); while (strtk::next_combination(d, k)); MC_EQM(g3, w, "deque form");
         std::list<char> l(s.begin(), s.end()); g3.clear(); std::list<char>::iterator m = l.begin(); std::advance(m, k); size_t n = 0; do { g3.push_back(S(l.begin(), m)); ++n; } while (n <= w.size() && k && k < s.size() && strtk::next_combination(l.begin(), m, l.end())); MC_EQM(g3, w, "list iterators");
         mc::outcome(mc::Hash()(s)(k));
      }
   };
   mc::strings("abcd", 1, mc::tier<size_t>(8, 9), one); one("abcdefgh"); one("aabbccddee"); one("abcdefghijkl");
   { MC_CASE(o << "empty"); S e; MC_EQ(strtk::next_combination(e.begin(), e.begin(), e.end()), false); }
}
MC_SECTION(combination_iterators)
{
   auto one = [](const S& s0) {
      S s = s0; std::sort(s.begin(), s.end()); const bool sorted = s == s0;
      for (size_t k = 1; k <= s.size(); ++k)
      {
         MC_CASE(o << "combination_iterator " << k << " of " << s0);
         const std::vector<S> w = subsets(s, k); std::vector<S> g;
         for (int pre = 0; pre < 2; ++pre) for (int arg = 0; arg < 2; ++arg)
         {
            if (arg && !sorted) continue;      // sorted = true promises sorted input
            { S t = s0; g.clear(); strtk::combination_iterator<char*> i(k, t, arg ? true : false), e(t); while (i != e) { MC_TRUE(g.size() < w.size()); g.push_back(S((*i).first, (*i).second)); if (pre) ++i; else i++; } MC_EQM(g, w, "over a string"); }
            { std::vector<char> t(s0.begin(), s0.end()); g.clear(); strtk::combination_iterator<std::vector<char>::iterator> i(k, t, arg ? true : false), e(t); while (i != e) { MC_TRUE(g.size() < w.size()); g.push_back(S((*i).first, (*i).second)); if (pre) ++i; else i++; } MC_EQM(g, w, "over a vector"); }
            { std::deque<char> t(s0.begin(), s0.end()); g.clear(); strtk::combination_iterator<std::deque<char>::iterator> i(k, t.begin(), t.end(), arg ? true : false), e(t.end()); while (!(i == e)) { MC_TRUE(g.size() < w.size()); g.push_back(S((*i).first, (*i).second)); if (pre) ++i; else i++; } MC_EQM(g, w, "over iterators"); ++i; MC_TRUE(i == e); }
            for (int inc = -1; inc <= (int)std::min<size_t>(w.size(), 4) + 1; ++inc) { S t = s0; strtk::combination_iterator<char*> i(k, t, false), e(t); i += inc; const size_t at = inc < 0 ? 0 : (size_t)inc; if (at < w.size()) { MC_TRUE(i != e); MC_EQM(S((*i).first, (*i).second), w[at], "after +="); } else MC_TRUE(i == e); }
         }
         mc::outcome(mc::Hash()(s0)(k));
      }
   };
   mc::strings("abc", 1, mc::tier<size_t>(7, 8), one); mc::strings("abcde", 1, 4, one); one("gfedcba"); one("abcdefgh"); one("aabbaabb");
}
struct Visit { std::vector<S>* out; size_t stop; template <typename I> bool operator()(I a, I b) { out->push_back(S(a, b)); mc::transition(); return out->size() != stop; } };
MC_SECTION(for_each)
{
   auto one = [](const S& s) {
      // permutations: from s onwards in lexicographic order
      S t = s; std::vector<S> w; do w.push_back(t); while (std::next_permutation(t.begin(), t.end()));
      for (size_t stop = 0; stop <= w.size() + 1; ++stop)
      {
         if (stop > 8 && stop + 3 < w.size()) continue;
         MC_CASE(o << "permutations of " << s << " stop " << stop);
         std::vector<S> g; Visit v = {&g, stop}; t = s; 
         MC_EQM(strtk::for_each_permutation_conditional(t.begin(), t.end(), v), !(stop >= 1 && stop <= w.size()), "result"); MC_EQM(g, std::vector<S>(w.begin(), w.begin() + (stop ? std::min(stop, w.size()) : w.size())), "permutations until stopped");
         if (!stop) { g.clear(); t = s; strtk::for_each_permutation(t.begin(), t.end(), v); MC_EQM(g, w, "permutations"); std::vector<char> c(s.begin(), s.end()); g.clear(); strtk::for_each_permutation(&c[0], &c[0] + c.size(), v); MC_EQM(g, w, "permutations of an array"); }
         mc::outcome(mc::Hash()(s)(stop));
      }
      // combinations: each position subset once, elements of every combination in their order, range restored
      for (size_t k = 0; k <= s.size() + 1; ++k)
      {
         MC_CASE(o << "for_each_combination " << k << " of " << s);
         std::vector<S> wc; for (unsigned m = 0; m < (1u << s.size()); ++m) if ((size_t)__builtin_popcount(m) == k) { S x; for (size_t i = 0; i < s.size(); ++i) if (m >> i & 1) x += s[i]; wc.push_back(x); }
         std::vector<S> g; Visit v = {&g, 0}; t = s; strtk::for_each_combination(t.begin(), t.end(), k, v); MC_EQM(t, s, "range restored"); const std::vector<S> order = g;
         std::vector<S> a = g, b = wc; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MC_EQM(a, b, "combinations");
         g.clear(); std::deque<char> d(s.begin(), s.end()); strtk::for_each_combination(d.begin(), d.end(), k, v); MC_EQM(g, order, "over a deque");
         for (size_t stop = 0; stop <= order.size() + 1; ++stop) { if (stop > 6 && stop + 3 < order.size()) continue; g.clear(); v.stop = stop; t = s; strtk::for_each_combination_conditional(t.begin(), t.end(), k, v); MC_EQM(g, std::vector<S>(order.begin(), order.begin() + (stop ? std::min(stop, order.size()) : order.size())), "combinations until stopped"); S u = t, u2 = s; std::sort(u.begin(), u.end()); std::sort(u2.begin(), u2.end()); MC_EQM(u, u2, "elements kept"); if (!stop) MC_EQM(t, s, "range restored"); }
         mc::outcome(mc::Hash()(s)(k)(7));
      }
   };
   for (size_t n = 0; n <= mc::tier<size_t>(7, 9); ++n) one(S("abcdefghij").substr(0, n));
   mc::strings("abc", 1, 5, one); one("hgfedcba"); 
   for (size_t n = 8; n <= mc::tier<size_t>(11, 14); ++n) for (size_t k = 0; k <= n; ++k) { MC_CASE(o << k << " of " << n); S s = S("abcdefghijklmn").substr(0, n); std::vector<S> g; Visit v = {&g, 0}; S t = s; strtk::for_each_combination(t.begin(), t.end(), k, v); MC_EQ(t, s); for (auto& x : g) MC_TRUE(std::is_sorted(x.begin(), x.end()) && x.size() == k); MC_EQM(g.size(), (size_t)strtk::n_choose_k(n, k), "count"); std::set<S> u(g.begin(), g.end()); MC_EQM(u.size(), g.size(), "each once"); mc::outcome(mc::Hash()(n)(k)); }
}
typedef unsigned long long u64;
static std::vector<std::vector<u64> > pascal(size_t n)      // ~0: does not fit
{
   std::vector<std::vector<u64> > p(n + 1); for (size_t i = 0; i <= n; ++i) { p[i].assign(i + 1, 1); for (size_t k = 1; k < i; ++k) { u64 a = p[i - 1][k - 1], b = p[i - 1][k]; p[i][k] = a == ~0ull || b == ~0ull || a + b < a ? ~0ull : a + b; } } return p;
}
static void choose(const std::vector<std::vector<u64> >& p, size_t n, size_t k, const char* how)
{ if (k <= n && p[n][k] == ~0ull) return; MC_CASE(o << how << ": " << n << " choose " << k); MC_EQM((u64)strtk::n_choose_k(n, k), k > n ? 0 : p[n][k], "n_choose_k"); mc::outcome(mc::Hash()(n)(k)); }
MC_SECTION(n_choose_k_up) { auto p = pascal(110); for (size_t n = 0; n <= 110; ++n) for (size_t k = 0; k <= n + 2; ++k) { if (n > 67 && k > 12 && k + 12 < n) continue; choose(p, n, k, "ascending"); } }
MC_SECTION(n_choose_k_down) { auto p = pascal(110); for (size_t n = 111; n-- > 0; ) for (size_t k = n + 2; ; --k) { if (!(n > 67 && k > 12 && k + 12 < n)) choose(p, n, k, "descending"); if (!k) break; } }
MC_SECTION(n_choose_k_big) { const size_t N = mc::tier<size_t>(200, 400); auto p = pascal(N); for (size_t n : std::vector<size_t>{101, 102, 127, 128, 150, 199, N}) for (size_t k = 0; k <= 6; ++k) { choose(p, n, k, "big"); choose(p, n, n - k, "big"); choose(p, 10 + k, 4, "small after big"); } }
MC_SECTION(n_choose_k_histories)
{
   // the shared table gives the same answers whatever was asked before
   auto p = pascal(120); static const size_t Q[][2] = {{0, 0}, {1, 1}, {2, 1}, {10, 5}, {67, 33}, {100, 3}, {100, 97}, {99, 4}, {101, 2}, {120, 3}, {5, 9}};
   mc::tuples(11, 3, [&](const std::vector<size_t>& ix) { for (size_t i : ix) choose(p, Q[i][0], Q[i][1], "history"); mc::trace(); });
   strtk::initialize_n_choose_k(); for (size_t n = 0; n <= 67; ++n) for (size_t k = 0; k <= n; ++k) choose(p, n, k, "after initialize_n_choose_k");
}
MC_SECTION(nth_combination)
{
   for (size_t r = 0; r <= mc::tier<size_t>(11, 13); ++r) for (size_t k = 0; k <= r; ++k)
   {
      S s = S("abcdefghijklm").substr(0, r); const std::vector<S> w = subsets(s, k);
      for (size_t n = 0; n < w.size(); ++n)
      {
         MC_CASE(o << "combination " << n << " of " << r << " choose " << k);
         S rest; for (char c : s) if (w[n].find(c) == S::npos) rest += c;
         for (int full = 0; full < 2; ++full)
         {
            const S want = w[n] + (full ? rest : S()); std::vector<size_t> ix; for (char c : want) ix.push_back((size_t)(c - 'a'));
            { std::vector<size_t> g; strtk::nth_combination_sequence(n, r, k, mc::append(g), full != 0); MC_EQM(g, ix, "indexes"); }
            { mc::Buf<size_t> g(ix.size()); strtk::nth_combination_sequence(n, r, k, g.begin(), full != 0); MC_EQM(std::vector<size_t>(g.begin(), g.end()), ix, "indexes through a pointer"); }
            { S g; strtk::nth_combination_sequence(n, k, s.begin(), s.end(), mc::append(g), full != 0); MC_EQM(g, want, "elements"); }
            { mc::Buf<char> g(want.size()); std::vector<char> in(s.begin(), s.end()); strtk::nth_combination_sequence(n, k, in.begin(), in.end(), g.begin(), full != 0); MC_EQM(g.str(), want, "elements through a pointer"); }
         }
         { std::vector<size_t> g; strtk::nth_combination_sequence(n, r, k, mc::append(g)); MC_EQM(g.size(), r, "default is complete"); }
         mc::outcome(mc::Hash()(n)(r)(k));
      }
   }
   // larger sets: first, last and consecutive ones follow next_combination
   for (size_t r : {20u, 40u, 64u, 101u}) for (size_t k : {1u, 2u, 3u, 5u}) { std::vector<size_t> c(r); for (size_t i = 0; i < r; ++i) c[i] = i; const u64 total = strtk::n_choose_k(r, k); std::vector<size_t> last; strtk::nth_combination_sequence(total - 1, r, k, mc::append(last), false); MC_CASE(o << k << " of " << r); for (size_t i = 0; i < k; ++i) MC_EQM(last[i], r - k + i, "last combination"); for (size_t n = 0; n < 30 && n < total; ++n) { std::vector<size_t> g; strtk::nth_combination_sequence(n, r, k, mc::append(g), false); MC_EQM(g, std::vector<size_t>(c.begin(), c.begin() + k), "combination"); strtk::next_combination(c, k); } mc::outcome(mc::Hash()(r)(k)(1)); }
}
// every index of the selections of 1, 2, r-2 and r-1 out of up to 140 elements, with and without the remainder
MC_SECTION(nth_combination_wide)
{
   for (size_t r : {12u, 14u, 31u, 33u, 62u, 63u, 64u, 65u, 66u, 70u, 100u, 127u, 128u, 129u, 140u})
      for (int form = 0; form < 4; ++form)
      {
         const size_t k = form == 0 ? 1 : form == 1 ? 2 : form == 2 ? r - 1 : r - 2, m = k < 3 ? k : r - k;   // m marks are inside or left out
         if (form && form != 2 && r > mc::tier<size_t>(70, 140)) continue;
         std::vector<std::vector<size_t> > all;
         if (m == 1) for (size_t a = 0; a < r; ++a) all.push_back(std::vector<size_t>(1, a));
         else for (size_t a = 0; a < r; ++a) for (size_t b = a + 1; b < r; ++b) { std::vector<size_t> x(1, a); x.push_back(b); all.push_back(x); }
         if (k >= 3) std::reverse(all.begin(), all.end());       // leaving out the greatest elements comes first
         for (size_t n = 0; n < all.size(); ++n)
         {
            MC_CASE(o << "combination " << n << " of " << r << " choose " << k);
            std::vector<size_t> rest; for (size_t i = 0; i < r; ++i) if (std::find(all[n].begin(), all[n].end(), i) == all[n].end()) rest.push_back(i);
            const std::vector<size_t>& head = k < 3 ? all[n] : rest; const std::vector<size_t>& tail = k < 3 ? rest : all[n];
            std::vector<size_t> want(head), g; strtk::nth_combination_sequence(n, r, k, mc::append(g), false); MC_EQM(g, want, "selected");
            want.insert(want.end(), tail.begin(), tail.end()); g.clear(); strtk::nth_combination_sequence(n, r, k, mc::append(g), true); MC_EQM(g, want, "selected and the rest");
            mc::outcome(mc::Hash()(n)(r)(k));
         }
      }
}
MC_SECTION(nth_permutation)
{
   for (size_t k = 0; k <= mc::tier<size_t>(7, 8); ++k)
   {
      S s = S("abcdefgh").substr(0, k), t = s; size_t n = 0;
      do
      {
         MC_CASE(o << "permutation " << n << " of " << k);
         std::vector<size_t> ix; for (char c : t) ix.push_back((size_t)(c - 'a'));
         { mc::Buf<size_t> g(k); strtk::nth_permutation_sequence(n, k, g.begin()); MC_EQM(std::vector<size_t>(g.begin(), g.end()), ix, "indexes"); }
         { std::vector<size_t> g; strtk::nth_permutation_sequence(n, k, mc::append(g)); MC_EQM(g, ix, "indexes appended"); }
         MC_EQM(strtk::nth_permutation_sequence(n, s), t, "string");
         { std::vector<S::const_iterator> g; const S& cs = s; strtk::nth_permutation_sequence(n, cs.begin(), cs.end(), mc::append(g)); S x; for (auto i : g) x += *i; MC_EQM(x, t, "iterators of the elements"); }
         ++n; mc::outcome(t);
      }
      while (std::next_permutation(t.begin(), t.end()));
   }
   for (size_t k = 9; k <= 20; ++k)
   {
      unsigned long long f = 1; for (size_t i = 2; i <= k; ++i) f *= i; S s = S("abcdefghijklmnopqrstuvwxyz").substr(0, k);
      S t = s; for (size_t n = 0; n < 200; ++n) { MC_CASE(o << "permutation " << n << " of " << k); MC_EQ(strtk::nth_permutation_sequence(n, s), t); std::next_permutation(t.begin(), t.end()); }
      t = S(s.rbegin(), s.rend()); for (size_t n = 0; n < 200; ++n) { MC_CASE(o << "permutation " << n << " before the last of " << k); MC_EQ(strtk::nth_permutation_sequence((size_t)(f - 1 - n), s), t); std::prev_permutation(t.begin(), t.end()); }
      mc::outcome(mc::Hash()(k)(99));
   }
}
MC_MAIN
