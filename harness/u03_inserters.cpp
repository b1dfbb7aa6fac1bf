// U03: output iterators fed with token ranges (directly, through split, tokenizer and as call-backs).
#include "strtk.hpp"
#include "mc.hpp"
#include "parse_model.hpp"
#include <deque>
#include <list>
#include <queue>
#include <set>
#include <stack>
#include <algorithm>
typedef std::string S;
typedef std::vector<S> VS;
typedef std::pair<const char*, const char*> R;

static const char* TOK_INT[] = {"0", "7", "-12", "", "x", "2147483647", "2147483648", "+3", "1 ", "00042"};
static const size_t NT = sizeof(TOK_INT) / sizeof(*TOK_INT);
// the reference: which tokens are ints (written out, no strtk code)
static bool ref(const S& s, int& v) { static const bool ok[] = {1,1,1,0,0,1,0,1,0,1}; static const int val[] = {0,7,-12,0,0,2147483647,0,3,0,42}; for (size_t i = 0; i < NT; ++i) if (s == TOK_INT[i]) { v = val[i]; return ok[i]; } mc::fail("unknown token"); return false; }
static bool ref(const S& s, S& v) { v = s; return true; }
static const bool vec_s = true;

template <typename It> static void feed(It it, const VS& t, int mode)
{
   mc::Buf<char>* b;
   for (size_t i = 0; i < t.size(); ++i)
   {
      b = new mc::Buf<char>(t[i]); R r(b->begin(), b->end());
      if (mode == 0) *it++ = r; else { *it = r; ++it; }
      delete b;
   }
}
static S joined(const VS& t) { S r; for (size_t i = 0; i < t.size(); ++i) r += (i ? "," : "") + t[i]; return r; }

template <typename T> static std::vector<T> want_of(const VS& t) { std::vector<T> w; T v; for (auto& s : t) if (ref(s, v)) w.push_back(v); return w; }
template <typename Q, typename T> static std::vector<T> drain_q(Q q) { std::vector<T> r; while (!q.empty()) { r.push_back(q.front()); q.pop(); } return r; }
template <typename Q, typename T> static std::vector<T> drain_t(Q q) { std::vector<T> r; while (!q.empty()) { r.push_back(q.top()); q.pop(); } return r; }

template <typename T> static void one(const VS& t)
{
   MC_CASE(o << (sizeof(T) > 4 ? "strings" : "ints") << " from tokens " << t);
   const std::vector<T> w = want_of<T>(t);
   std::vector<T> srt = w, desc; std::sort(srt.begin(), srt.end()); desc.assign(srt.rbegin(), srt.rend()); std::vector<T> rev(w.rbegin(), w.rend());
   const S text = joined(t);
   for (int mode = 0; mode < 4; ++mode)     // 0/1: assignment, 2: through split, 3: as a call-back per token
   {
      #define RUN(mk) do { if (mode < 2) feed(mk, t, mode); else if (t.empty()) {} else if (t.size() == 1 && t[0].empty()) { feed(mk, t, 0); } \
         else if (mode == 2) { strtk::split(",", text, mk); } \
         else { auto it = mk; for (auto& s : t) { mc::Buf<char> b(s); it(R(b.begin(), b.end())); } } } while (0)
      { std::vector<T> c; RUN(strtk::range_to_type_back_inserter(c)); MC_EQM(c, w, "range_to_type_back_inserter vector"); }
      { std::deque<T> c; RUN(strtk::range_to_type_back_inserter(c)); MC_EQM(std::vector<T>(c.begin(), c.end()), w, "range_to_type_back_inserter deque"); }
      { std::list<T> c; RUN(strtk::range_to_type_back_inserter(c)); MC_EQM(std::vector<T>(c.begin(), c.end()), w, "range_to_type_back_inserter list"); }
      { std::set<T> c; RUN(strtk::range_to_type_inserter(c)); MC_TRUE(c == std::set<T>(w.begin(), w.end())); }
      { typedef std::set<T, std::greater<T> > D; D c; RUN(strtk::range_to_type_inserter(c)); MC_TRUE(c == D(w.begin(), w.end())); }
      { std::multiset<T> c; RUN(strtk::range_to_type_inserter(c)); MC_TRUE(c == std::multiset<T>(w.begin(), w.end())); }
      { std::queue<T> c; RUN(strtk::range_to_type_push_inserter(c)); MC_EQM((drain_q<std::queue<T>,T>(c)), w, "push inserter queue"); }
      { std::stack<T> c; RUN(strtk::range_to_type_push_inserter(c)); MC_EQM((drain_t<std::stack<T>,T>(c)), rev, "push inserter stack"); }
      { std::priority_queue<T> c; RUN(strtk::range_to_type_push_inserter(c)); MC_EQM((drain_t<std::priority_queue<T>,T>(c)), desc, "push inserter priority_queue"); }
      if (mode < 2)
      {
         // the destination is exactly as long as what has to be written
         mc::Buf<T> c(w.size()); size_t n = 100; feed(strtk::range_to_ptr_type(c.begin(), n), t, mode); MC_EQM(n, 100 + w.size(), "count of range_to_ptr_type"); MC_EQM(std::vector<T>(c.begin(), c.end()), w, "range_to_ptr_type");
         mc::Buf<T> d(w.size()); feed(strtk::range_to_ptr_type(d.begin()), t, mode); MC_EQM(std::vector<T>(d.begin(), d.end()), w, "range_to_ptr_type without count");
      }
      #undef RUN
   }
   {  // std::string tokens
      std::vector<T> c; auto it = strtk::range_to_type_back_inserter(c); for (auto& s : t) *it++ = s; MC_EQ(c, w);
      mc::Buf<T> d(w.size()); size_t n = 0; auto ip = strtk::range_to_ptr_type(d.begin(), n); for (auto& s : t) { *ip = s; ++ip; } MC_EQ(std::vector<T>(d.begin(), d.end()), w); MC_EQ(n, w.size());
   }
   mc::outcome(mc::Hash()((uint64_t)w.size())(text)((uint64_t)sizeof(T)));
}
MC_SECTION(conversion_inserters)
{
   const size_t D = mc::tier<size_t>(3, 4);
   for (size_t n = 0; n <= D; ++n)
      mc::tuples(NT, n, [&](const std::vector<size_t>& x) { VS t; for (auto i : x) t.push_back(TOK_INT[i]); one<int>(t); one<S>(t); });
   for (size_t n = 0; n <= mc::tier<size_t>(80, 300); ++n)
      for (size_t bad = 0; bad <= n; ++bad)
      { if (n > 12 && bad > 2 && bad + 2 < n && bad % 16) continue; VS t(n, "7"); for (size_t i = 0; i < n; i += 3) t[i] = "-12"; if (bad < n) t[bad] = "x"; one<int>(t); }
}

struct Rec { std::vector<int>* v; void operator()(const int& x) const { v->push_back(x); } };
static void insert_values(const std::vector<int>& w)
{
         const size_t n = w.size();
         MC_CASE(o << "values " << w);
         std::vector<int> srt = w; std::sort(srt.begin(), srt.end()); std::vector<int> desc(srt.rbegin(), srt.rend()), rev(w.rbegin(), w.rend());
         #define PUT(mk) do { auto it = mk; size_t k = 0; for (int e : w) { if (k++ % 2) *it++ = e; else { *it = e; ++it; } } } while (0)
         #define CALL(mk) do { auto it = mk; for (int e : w) it(e); } while (0)
         { std::vector<int> c; PUT(strtk::back_inserter_with_valuetype(c)); MC_EQ(c, w); CALL(strtk::back_inserter_with_valuetype(c)); MC_EQ(c.size(), 2 * n); MC_TRUE(std::equal(w.begin(), w.end(), c.begin() + n)); }
         { std::deque<int> c; PUT(strtk::back_inserter_with_valuetype(c)); MC_EQ(std::vector<int>(c.begin(), c.end()), w); }
         { std::list<int> c; CALL(strtk::back_inserter_with_valuetype(c)); MC_EQ(std::vector<int>(c.begin(), c.end()), w); }
         { std::set<int> c; PUT(strtk::inserter_with_valuetype(c)); MC_TRUE(c == std::set<int>(w.begin(), w.end())); }
         { std::multiset<int> c; PUT(strtk::inserter_with_valuetype(c)); MC_TRUE(c == std::multiset<int>(w.begin(), w.end())); }
         { std::multiset<int> c; CALL(strtk::inserter_with_valuetype(c)); MC_TRUE(c == std::multiset<int>(w.begin(), w.end())); }
         { std::set<int> c; CALL(strtk::inserter_with_valuetype(c)); MC_TRUE(c == std::set<int>(w.begin(), w.end())); }
         { std::deque<int> c; CALL(strtk::back_inserter_with_valuetype(c)); MC_EQ(std::vector<int>(c.begin(), c.end()), w); }
         { std::list<int> c; PUT(strtk::back_inserter_with_valuetype(c)); MC_EQ(std::vector<int>(c.begin(), c.end()), w); }
         { std::queue<int> c; PUT(strtk::push_inserter(c)); MC_EQ((drain_q<std::queue<int>,int>(c)), w); }
         { std::stack<int> c; PUT(strtk::push_inserter(c)); MC_EQ((drain_t<std::stack<int>,int>(c)), rev); }
         { std::priority_queue<int> c; PUT(strtk::push_inserter(c)); MC_EQ((drain_t<std::priority_queue<int>,int>(c)), desc); }
         { size_t c = 5; PUT(strtk::counting_back_inserter<int>(c)); MC_EQ(c, 5 + n); CALL(strtk::counting_back_inserter<int>(c)); MC_EQ(c, 5 + 2 * n); }
         { std::vector<int> c; Rec r = {&c}; PUT(strtk::functional_inserter(r)); MC_EQ(c, w); CALL(strtk::functional_inserter(r)); MC_EQ(c.size(), 2 * n); }
         mc::outcome(mc::Hash()(n)(w.size() ? (uint64_t)(w[0] * 16 + w.back()) : 77));
}
MC_SECTION(value_inserters)
{
   for (size_t n = 0; n <= mc::tier<size_t>(6, 8); ++n)
      mc::tuples(4, n, [&](const std::vector<size_t>& x) { insert_values(std::vector<int>(x.begin(), x.end())); });
   for (size_t n : mc::scales(100, 70000)) for (int many : { 1, 2, 10, 1000000 }) { if (n > 5000 && many % 10) continue; std::vector<int> w(n); for (size_t k = 0; k < n; ++k) w[k] = (int)(k * 7 % many); insert_values(w); }
}

struct Collect { VS* v; template <typename P> void operator()(const P& r) const { v->push_back(S(r.first, r.second)); } };
MC_SECTION(token_callbacks)
{
   // for_each_token calls the function once per token, in order; the filters pass exactly the non-empty ranges
   mc::strings("a,;", 0, mc::tier<size_t>(8, 10), [&](const S& s) {
      MC_CASE(o << "for_each_token " << s);
      VS w, ne; S cur; for (char c : s) { if (c == 'a') cur += c; else { w.push_back(cur); cur.clear(); } } if (!s.empty()) w.push_back(cur);
      for (auto& t : w) if (!t.empty()) ne.push_back(t);
      VS got; Collect f = {&got};
      MC_EQ(strtk::for_each_token(s, S(",;"), f), w.size()); MC_EQ(got, w);
      got.clear(); typedef strtk::multiple_char_delimiter_predicate P; P pr(S(",;"));
      MC_EQ(strtk::for_each_token(s, ",;", f), w.size()); MC_EQ(got, w);
      got.clear(); typedef strtk::std_string::tokenizer<P>::type Tk; Tk tk(s, pr);
      MC_EQ(strtk::for_each_token(s, tk, f), w.size()); MC_EQ(got, w);
      typedef std::pair<S::const_iterator, S::const_iterator> SR; std::vector<R> rs;
      strtk::filter_non_empty_range<std::back_insert_iterator<std::vector<R> > > flt(std::back_inserter(rs));
      got.clear(); { const char* p = s.data(); const char* e = p + s.size(); const char* b = p; for (;; ++p) { if (p == e || *p != 'a') { flt(R(b, p)); b = p + 1; if (p == e) break; } } }
      for (auto& r : rs) got.push_back(S(r.first, r.second)); MC_EQ(got, ne);
      strtk::empty_range er; strtk::nonempty_range nr; MC_EQ(er(s.begin(), s.end()), s.empty()); MC_EQ(nr(s.begin(), s.end()), !s.empty());
      mc::outcome(mc::Hash()(w));
   });
}
MC_SECTION(huge)
{
   for (size_t n : mc::scales(200, 70000))
      for (int pat = 0; pat < 4; ++pat)
      {
         MC_CASE(o << n << " tokens, pattern " << pat);
         S text; std::vector<int> w; VS ws;
         for (size_t i = 0; i < n; ++i)
         {
            const bool bad = pat == 1 ? i == 255 || i == 256 : pat == 2 ? i % 2 == 1 : pat == 3 ? i + 1 == n : false;
            const S t = bad ? "x" : std::to_string((int)(i * 7 % 1000) - 300); if (!bad) w.push_back((int)(i * 7 % 1000) - 300); ws.push_back(t); text += (i ? "," : "") + t;
         }
         { std::vector<int> c; strtk::split(",", text, strtk::range_to_type_back_inserter(c)); MC_TRUE(c == w); }
         { VS c; strtk::split(",", text, strtk::range_to_type_back_inserter(c)); MC_TRUE(c == ws); }
         { std::deque<int> c; strtk::split(",", text, strtk::range_to_type_back_inserter(c)); MC_TRUE(std::vector<int>(c.begin(), c.end()) == w); }
         { std::multiset<int> c; strtk::split(",", text, strtk::range_to_type_inserter(c)); MC_TRUE(c == std::multiset<int>(w.begin(), w.end())); }
         { std::queue<int> c; strtk::split(",", text, strtk::range_to_type_push_inserter(c)); MC_TRUE((drain_q<std::queue<int>,int>(c)) == w); }
         { std::stack<int> c; strtk::split(",", text, strtk::range_to_type_push_inserter(c)); MC_TRUE((drain_t<std::stack<int>,int>(c)) == std::vector<int>(w.rbegin(), w.rend())); }
         { mc::Buf<int> c(w.size()); size_t k = 0; feed(strtk::range_to_ptr_type(c.begin(), k), ws, 0); MC_EQ(k, w.size()); MC_TRUE(std::vector<int>(c.begin(), c.end()) == w); }
         { VS c; Collect f = { &c }; MC_EQ(strtk::for_each_token(text, ",", f), n); MC_TRUE(c == ws); }
         { size_t c = 0; std::copy(w.begin(), w.end(), strtk::counting_back_inserter<int>(c)); MC_EQ(c, w.size()); }
         { std::vector<int> c; Rec r = { &c }; std::copy(w.begin(), w.end(), strtk::functional_inserter(r)); MC_TRUE(c == w); c.clear(); std::copy(w.begin(), w.end(), strtk::back_inserter_with_valuetype(c)); MC_TRUE(c == w); }
      }
}
// an unusual token (empty, not a number, long) arriving when the container already holds n elements, for every n
MC_SECTION(unusual_token_at_every_size)
{
   const S odd[] = { "", "x", "-2147483648", "00000000000000000000000000000000000001", S(300, 'y') };
   for (const S& t : odd)
   {
      VS a, wa; std::vector<int> b, wb; std::deque<S> c; std::queue<S> q; std::vector<S> back; std::set<int> st, wst; std::vector<int> pv(20000, 7); size_t pn = 0;
      for (size_t n = 0; n < mc::tier<size_t>(9000, 70000); ++n)
      {
         MC_CASE(o << "token " << t << " at size " << n);
         const S u[] = { t, std::to_string(n) };
         for (int i = 0; i < 2; ++i)
         {
            const R r(u[i].data(), u[i].data() + u[i].size()); int v = (int)n; bool ok = true; if (!i) { if (&t == odd) ok = ref(t, v); else if (&t == odd + 2) v = -2147483647 - 1; else if (&t == odd + 3) v = 1; else ok = false; }
            { auto it = strtk::range_to_type_back_inserter(a); *it++ = r; } wa.push_back(u[i]); MC_TRUE(a.size() == wa.size() && a.back() == u[i]);
            { auto it = strtk::range_to_type_back_inserter(b); *it++ = r; } if (ok) wb.push_back(v); MC_TRUE(b.size() == wb.size() && (!ok || b.back() == v));
            { auto it = strtk::range_to_type_back_inserter(c); *it++ = r; } MC_TRUE(c.size() == wa.size() && c.back() == u[i]);
            { auto it = strtk::range_to_type_push_inserter(q); *it++ = r; } MC_TRUE(q.size() == wa.size() && q.back() == u[i]);
            { auto it = strtk::range_to_type_inserter(st); *it++ = r; } if (ok) wst.insert(v); MC_TRUE(st.size() == wst.size() && (!ok || st.count(v)));
            if (n < 9000) { const size_t p0 = pn; int* at = pv.data() + pn; { strtk::range_to_ptr_type_iterator<int> it(pv.data() + pn, pn); it = r; } MC_EQ(pn, p0 + ok); MC_TRUE(!ok || *at == v); }
         }
      }
      MC_TRUE(a == wa && b == wb && st == wst && VS(c.begin(), c.end()) == wa); mc::outcome(mc::Hash()(t.size()));
   }
}
// the iterators themselves are values: they can be copied and assigned, and the whole sequence of tokens arrives whichever copy was used
template <typename It> static void relay(It a, const VS& t, size_t cut) { It b(a); for (size_t i = 0; i < t.size(); ++i) { mc::Buf<char> s(t[i]); R r(s.begin(), s.end()); if (i == cut) { b = a; b = *&b; } if (i < cut) *a++ = r; else *b++ = r; } }
template <typename It> static void relay_v(It a, const std::vector<int>& v, size_t cut) { It b(a); for (size_t i = 0; i < v.size(); ++i) { if (i == cut) { b = a; b = *&b; } if (i < cut) *a++ = v[i]; else *b++ = v[i]; } }
struct CountFn { int* n; CountFn(int& x) : n(&x) {} void operator()(int x) { *n = *n * 5 + x + 1; } };
template <typename It, typename C> static void pairs_of(It it, const VS& t, C want_next)   // the two-iterator call: a token that is no value is an exception, not a value
{
   for (auto& s : t) { mc::Buf<char> b(s); int v; const bool ok = ref(s, v); bool threw = false; try { it((const char*)b.begin(), (const char*)b.end()); } catch (const std::invalid_argument&) { threw = true; } MC_EQM(threw, !ok, "exception for a token that is no value"); if (ok) want_next(v); }
}
MC_SECTION(iterators_as_values)
{
   for (size_t n = 0; n <= mc::tier<size_t>(3, 4); ++n)
      mc::tuples(NT, n, [&](const std::vector<size_t>& x) {
         VS t; for (auto i : x) t.push_back(TOK_INT[i]);
         const std::vector<int> w = want_of<int>(t); const std::vector<int> rev(w.rbegin(), w.rend()); std::vector<int> desc(w); std::sort(desc.rbegin(), desc.rend());
         for (size_t cut = 0; cut <= n; ++cut)
         {
            MC_CASE(o << "tokens " << t << " hand over to a copy at " << cut);
            { std::vector<int> c; relay(strtk::range_to_type_back_inserter(c), t, cut); MC_EQM(c, w, "range_to_type_back_inserter"); }
            { std::set<int> c; relay(strtk::range_to_type_inserter(c), t, cut); MC_TRUE(c == std::set<int>(w.begin(), w.end())); }
            { std::stack<int> c; relay(strtk::range_to_type_push_inserter(c), t, cut); MC_EQM((drain_t<std::stack<int>,int>(c)), rev, "range_to_type_push_inserter"); }
            { mc::Buf<int> c(w.size()); size_t k = 3; relay(strtk::range_to_ptr_type(c.begin(), k), t, cut); MC_EQM(std::vector<int>(c.begin(), c.end()), w, "range_to_ptr_type"); MC_EQ(k, 3 + w.size()); }
            { std::vector<int> c; relay_v(strtk::back_inserter_with_valuetype(c), w, cut); MC_EQM(c, w, "back_inserter_with_valuetype"); }
            { std::multiset<int> c; relay_v(strtk::inserter_with_valuetype(c), w, cut); MC_TRUE(c == std::multiset<int>(w.begin(), w.end())); }
            { std::priority_queue<int> c; relay_v(strtk::push_inserter(c), w, cut); MC_EQM((drain_t<std::priority_queue<int>,int>(c)), desc, "push_inserter"); }
            { size_t c = 5; relay_v(strtk::counting_back_inserter<int>(c), w, cut); MC_EQ(c, 5 + w.size()); }
            { int got = 0, want = 0; CountFn f(got), g(want); relay_v(strtk::functional_inserter(f), w, cut); for (int v : w) g(v); MC_EQ(got, want); }
         }
         {
            MC_CASE(o << "two-iterator calls and single conversions, tokens " << t);
            { std::vector<int> c, u; pairs_of(strtk::range_to_type_back_inserter(c), t, [&](int v) { u.push_back(v); MC_EQ(c, u); }); MC_EQ(c, w); }
            { mc::Buf<int> c(w.size()); size_t k = 0, m = 0; pairs_of(strtk::range_to_ptr_type(c.begin(), k), t, [&](int v) { MC_EQ(c.begin()[m], v); ++m; MC_EQ(k, m); }); MC_EQ(m, w.size()); }
            { mc::Buf<int> c(w.size()); size_t k = 0; auto it = strtk::range_to_ptr_type(c.begin(), k); for (auto& s : t) { mc::Buf<char> b(s); it(R(b.begin(), b.end())); } MC_EQ(std::vector<int>(c.begin(), c.end()), w); MC_EQ(k, w.size()); }
            { mc::Buf<int> c(w.size()); size_t k = 0; auto it = strtk::range_to_ptr_type(c.begin(), k); for (auto& s : t) { mc::Buf<char> b(s); *it++ = R(b.begin(), b.end()); } MC_EQ(std::vector<int>(c.begin(), c.end()), w); MC_EQ(k, w.size()); }
         }
         mc::outcome(mc::Hash()(w));
      });
}
MC_MAIN
