// U01: sequence utilities against one-line reference definitions.
#include "strtk.hpp"
#include "mc.hpp"
#include <deque>
#include <list>
#include <set>
#include <algorithm>
#include <climits>
typedef std::string S;
typedef std::vector<int> VI;
typedef std::vector<S> VS;

// every sequence over 0..base-1 of length lo..hi, and long ones with few distinct values
template <typename F> static void seqs(size_t base, size_t lo, size_t hi, size_t longest, F f)
{
   for (size_t n = lo; n <= hi; ++n) mc::tuples(base, n, [&](const std::vector<size_t>& t) { VI v; for (auto x : t) v.push_back((int)x - 1); f(v); });
   for (size_t n = hi + 1; n <= longest; ++n)
      for (size_t pat = 0; pat < 8; ++pat)
      {
         VI v;
         for (size_t i = 0; i < n; ++i)
            v.push_back(pat == 0 ? 3 : pat == 1 ? (int)i : pat == 2 ? (int)(n - i) : pat == 3 ? (int)(i % 2) : pat == 4 ? (int)(i % 3) * 5 - 4 : pat == 5 ? (int)(i / 2) : pat == 6 ? (i + 1 == n ? -7 : 1) : (i + 1 == n ? 9 : 1));
         f(v);
      }
}

template <typename T> static std::vector<T> ref_iota(size_t n, T v) { std::vector<T> r; for (size_t i = 0; i < n; ++i) { r.push_back(v); v = (T)(v + 1); } return r; }
template <typename T> static void iota_type(const std::vector<T>& starts, const char* name)
{
   for (T v : starts)
      for (size_t n = 0; n <= mc::tier<size_t>(130, 600); ++n)
      {
         if (sizeof(T) >= 4 && (T)(std::numeric_limits<T>::max() - v) < (T)(n > 127 ? 127 : n) ) continue;
         if (sizeof(T) >= 4 && (unsigned long long)(std::numeric_limits<T>::max()) - (unsigned long long)v < n + 1 && v > 0) continue;
         MC_CASE(o << "iota " << name << " n " << n << " from " << v);
         std::vector<T> w = ref_iota(n, v);
         mc::Buf<T> b((std::vector<T>(n, (T)77)));
         strtk::iota(b.begin(), b.end(), v);
         MC_EQ(std::vector<T>(b.begin(), b.end()), w);
         { std::vector<T> a; strtk::iota(a, n, v); MC_EQ(a, w); strtk::iota(a, n, v); MC_EQ(a.size(), 2 * n); MC_TRUE(std::equal(w.begin(), w.end(), a.begin() + n)); }
         { std::deque<T> a; strtk::iota(a, n, v); MC_EQ(std::vector<T>(a.begin(), a.end()), w); }
         { std::list<T> a; strtk::iota(a, n, v); MC_EQ(std::vector<T>(a.begin(), a.end()), w); }
         { std::set<T> a, r(w.begin(), w.end()); strtk::iota(a, n, v); MC_TRUE(a == r); }
         { std::multiset<T> a, r(w.begin(), w.end()); strtk::iota(a, n, v); MC_TRUE(a == r); }
         { typedef std::greater<T> G; std::set<T,G> a, r(w.begin(), w.end()); strtk::iota(a, n, v); MC_TRUE(a == r); std::multiset<T,G> b, q(w.begin(), w.end()); strtk::iota(b, n, v); MC_TRUE(b == q); }
         { std::vector<T> a; strtk::iota(n, v, mc::append(a)); MC_EQ(a, w); }
         { std::vector<T> a(n, (T)5); const T cv = v; strtk::iota(a, cv); MC_EQ(a, w); }
         { std::deque<T> a(n, (T)5); const T cv = v; strtk::iota(a, cv); MC_EQ(std::vector<T>(a.begin(), a.end()), w); }
         mc::outcome(mc::Hash()(n)((uint64_t)v)(w.size() ? (uint64_t)w.back() : 0));
      }
}
MC_SECTION(iota_forms)
{
   iota_type<int>({0, 1, -1, -40, 1000, INT_MIN}, "int");
   iota_type<unsigned char>({0, 1, 100, 255}, "uchar");
   iota_type<short>({0, -5, SHRT_MAX}, "short");
   iota_type<unsigned long long>({0, 0xFFFFFFFFull, 0xFFFFFFFFFFFFull}, "u64");
   iota_type<long>({0, -3, 0x7FFFFFFFL}, "long");
   for (int n = 0; n <= 60; ++n)
   {
      MC_CASE(o << "iota double/char " << n);
      std::vector<double> d((size_t)n, 9.0), w; for (int i = 0; i < n; ++i) w.push_back(0.5 + i);
      strtk::iota(d.begin(), d.end(), 0.5); MC_EQ(d, w);
      S s((size_t)n, 'x'), x; for (int i = 0; i < n; ++i) x += (char)('A' + i);
      strtk::iota(s.begin(), s.end(), 'A'); MC_EQ(s, x);
   }
}

MC_SECTION(cut_sequences)
{
   const S big = "0123456789abcdefghijklmnopqrstuvwxyz";
   auto one = [&](size_t r0, size_t r1, const VS& in) {
      MC_CASE(o << "cut " << r0 << ".." << r1 << " of " << in);
      VS w, wi;
      for (auto& s : in)
      {
         wi.push_back(s);
         if (s.size() < r0) continue;
         S t; for (size_t i = r0; i < s.size() && i < r1; ++i) t += s[i];
         w.push_back(t); wi.back() = t;
      }
      VS got; strtk::cut(r0, r1, in.begin(), in.end(), mc::append(got)); MC_EQ(got, w);
      VS g2; strtk::cut(r0, r1, in, mc::append(g2)); MC_EQ(g2, w);
      std::list<S> l(in.begin(), in.end()); VS g3; strtk::cut(r0, r1, l, mc::append(g3)); MC_EQ(g3, w);
      std::deque<S> q(in.begin(), in.end()); VS g4; strtk::cut(r0, r1, q, mc::append(g4)); MC_EQ(g4, w);
      VS v = in; strtk::cut_inplace(r0, r1, v.begin(), v.end()); MC_EQ(v, wi);
      VS v2 = in; strtk::cut(r0, r1, v2); MC_EQ(v2, wi); std::deque<S> q2(in.begin(), in.end()); strtk::cut(r0, r1, q2); MC_EQ(VS(q2.begin(), q2.end()), wi); std::list<S> l2(in.begin(), in.end()); strtk::cut(r0, r1, l2); MC_EQ(VS(l2.begin(), l2.end()), wi);
      mc::outcome(mc::Hash()(w)(wi));
   };
   const size_t M = mc::tier<size_t>(5, 7);
   for (size_t r0 = 0; r0 <= M; ++r0)
      for (size_t r1 = r0; r1 <= M + 1; ++r1)
         for (size_t n = 0; n <= 3; ++n)
            mc::tuples(M + 1, n, [&](const std::vector<size_t>& t) { VS in; for (auto x : t) in.push_back(big.substr(0, x)); one(r0, r1, in); });
   for (size_t len = 0; len <= 36; ++len)
      for (size_t r0 = 0; r0 <= 37; ++r0)
         for (size_t r1 = r0; r1 <= 40; ++r1)
            one(r0, r1 == 40 ? S::npos : r1, {big.substr(0, len)});
}

MC_SECTION(duplicates_and_extrema)
{
   seqs(4, 0, mc::tier<size_t>(7, 9), mc::tier<size_t>(150, 500), [&](const VI& v) {
      MC_CASE(o << "sequence " << v);
      size_t w = 0; for (size_t i = 1; i < v.size(); ++i) w += v[i] == v[i - 1];
      MC_EQ(strtk::count_consecutive_duplicates(v.begin(), v.end()), w);
      std::list<int> l(v.begin(), v.end());
      MC_EQ(strtk::count_consecutive_duplicates(l.begin(), l.end()), w);
      if (v.empty()) return;
      int lo = v[0], hi = v[0]; for (int x : v) { lo = std::min(lo, x); hi = std::max(hi, x); }
      std::deque<int> q(v.begin(), v.end()); std::set<int> s(v.begin(), v.end()); std::multiset<int> m(v.begin(), v.end());
      MC_EQ(strtk::min_of_cont(v), lo); MC_EQ(strtk::max_of_cont(v), hi);
      MC_EQ(strtk::min_of_cont(q), lo); MC_EQ(strtk::max_of_cont(q), hi);
      MC_EQ(strtk::min_of_cont(l), lo); MC_EQ(strtk::max_of_cont(l), hi);
      MC_EQ(strtk::min_of_cont(s), lo); MC_EQ(strtk::max_of_cont(s), hi);
      MC_EQ(strtk::min_of_cont(m), lo); MC_EQ(strtk::max_of_cont(m), hi);
      for (int k = 0; k < 7; ++k)
      {
         int a = 99, b = -99;
         switch (k)
         {
            case 0: strtk::min_max_of_range(v.begin(), v.end(), a, b); break;
            case 1: strtk::min_max_of_range(l.begin(), l.end(), a, b); break;
            case 2: strtk::min_max_of_cont(v, a, b); break;
            case 3: strtk::min_max_of_cont(q, a, b); break;
            case 4: strtk::min_max_of_cont(l, a, b); break;
            case 5: strtk::min_max_of_cont(s, a, b); break;
            case 6: strtk::min_max_of_cont(m, a, b); break;
         }
         MC_EQM(a, lo, "minimum"); MC_EQM(b, hi, "maximum");
      }
      mc::outcome(mc::Hash()(w)((uint64_t)lo)((uint64_t)hi)(v.size()));
   });
}

MC_SECTION(least_rotation)
{
   auto one = [&](const VI& v) {
      MC_CASE(o << "rotation of " << v);
      VI w = v; for (size_t k = 0; k < v.size(); ++k) { VI r(v.begin() + k, v.end()); r.insert(r.end(), v.begin(), v.begin() + k); if (r < w) w = r; }
      VI a = v; strtk::lexicographically_canonicalize(a); MC_EQ(a, w);
      VI b = v; strtk::lexicographically_canonicalize(b.begin(), b.end()); MC_EQ(b, w);
      std::list<int> l(v.begin(), v.end()); strtk::lexicographically_canonicalize(l); MC_EQ(VI(l.begin(), l.end()), w);
      std::deque<int> q(v.begin(), v.end()); strtk::lexicographically_canonicalize(q); MC_EQ(VI(q.begin(), q.end()), w);
      S s, sw; for (int x : v) s += (char)('b' + x); for (int x : w) sw += (char)('b' + x);
      strtk::lexicographically_canonicalize(s); MC_EQ(s, sw);
      mc::outcome(mc::Hash()(sw));
   };
   for (size_t n = 0; n <= mc::tier<size_t>(12, 15); ++n) mc::tuples(2, n, [&](const std::vector<size_t>& t) { VI v; for (auto x : t) v.push_back((int)x); one(v); });
   for (size_t n = 0; n <= mc::tier<size_t>(8, 10); ++n) mc::tuples(3, n, [&](const std::vector<size_t>& t) { VI v; for (auto x : t) v.push_back((int)x); one(v); });
   for (size_t n = 1; n <= mc::tier<size_t>(40, 90); ++n)
      for (size_t p = 1; p <= n; ++p)
         for (size_t shift = 0; shift < p; ++shift)
         { VI v; for (size_t i = 0; i < n; ++i) v.push_back(((i + shift) % p) ? 1 : 0); one(v); }
}

MC_SECTION(first_non_repeated)
{
   auto one = [&](const S& s) {
      MC_CASE(o << "first non repeated in " << s);
      size_t w = S::npos;
      for (size_t i = 0; i < s.size() && w == S::npos; ++i) if (std::count(s.begin(), s.end(), s[i]) == 1) w = i;
      MC_EQ(strtk::first_non_repeated_char(s), w);
      mc::Buf<char> b(s); const char* r = strtk::first_non_repeated_char((const char*)b.begin(), (const char*)b.end());
      MC_EQ((size_t)(r - b.begin()), w == S::npos ? s.size() : w);
      mc::Buf<unsigned char> u(s); const unsigned char* ru = strtk::first_non_repeated_char((const unsigned char*)u.begin(), (const unsigned char*)u.end());
      MC_EQ((size_t)(ru - u.begin()), w == S::npos ? s.size() : w);
      mc::outcome(mc::Hash()(w)(s.size()));
   };
   mc::strings("abc", 0, mc::tier<size_t>(8, 11), one);
   mc::strings(S("\0\x80\xff" "z\x7f", 5), 0, mc::tier<size_t>(5, 7), one);
   for (int a = 0; a < 256; ++a)
      for (int b = 0; b < 256; ++b) { one(S() + (char)a + (char)b + (char)a); one(S() + (char)a + (char)a + (char)b); }
   for (size_t n = 0; n <= mc::tier<size_t>(300, 900); ++n)
   {
      one(S(n, 'x'));
      for (size_t p : {(size_t)0, n / 2, n ? n - 1 : 0}) if (n) { S s(n, 'x'); s[p] = 'y'; one(s); }
      S s; for (size_t i = 0; i < n; ++i) s += (char)i; one(s);
   }
}

template <size_t N> static void sized()
{
   for (size_t n = 0; n <= 12; ++n)
   {
      MC_CASE(o << "size predicates <" << N << "> on " << n << " elements");
      VI v(n, 1); std::list<int> l(n, 1); std::deque<int> q(n, 1); std::multiset<int> m(v.begin(), v.end()); std::set<int> st; for (size_t i = 0; i < n; ++i) st.insert((int)i);
      S s(n, 'x'); std::pair<VI::iterator, VI::iterator> pr(v.begin(), v.end()); std::pair<const char*, const char*> cp(s.data(), s.data() + n);
#define SZ(P,W) do { strtk::P p; bool w = (W); \
      MC_EQM(p(v), w, #P " vector"); MC_EQM(p(l), w, #P " list"); MC_EQM(p(q), w, #P " deque"); MC_EQM(p(m), w, #P " multiset"); MC_EQM(p(st), w, #P " set"); \
      MC_EQM(p(s), w, #P " string"); MC_EQM(p(pr), w, #P " pair"); MC_EQM(p(cp), w, #P " char pair"); MC_EQM(p(v.begin(), v.end()), w, #P " range"); MC_EQM(p(l.begin(), l.end()), w, #P " list range"); MC_EQM(p(s.data(), s.data() + n), w, #P " char range"); } while (0)
      SZ(size_equal_to<N>, n == N); SZ(size_less_than<N>, n < N); SZ(size_greater_than<N>, n > N);
      SZ(size_is_even, n % 2 == 0); SZ(size_is_odd, n % 2 == 1);
      mc::outcome(mc::Hash()(n)(N));
   }
}
MC_SECTION(size_predicates)
{
   sized<0>(); sized<1>(); sized<2>(); sized<3>(); sized<4>(); sized<5>(); sized<6>(); sized<7>(); sized<8>(); sized<9>(); sized<10>(); sized<11>(); sized<12>(); sized<13>();
   // skip_while_matching
   mc::strings("ab", 0, mc::tier<size_t>(9, 13), [&](const S& s) {
      MC_CASE(o << "skip_while_matching " << s);
      mc::Buf<char> b(s); const char* it = b.begin(); const char* e = b.end();
      auto isa = [](char c) { return c == 'a'; };
      strtk::skip_while_matching(it, e, isa);
      size_t w = 0; while (w < s.size() && s[w] == 'a') ++w;
      MC_EQ((size_t)(it - b.begin()), w);
      std::list<char> l(s.begin(), s.end()); std::list<char>::iterator li = l.begin();
      strtk::skip_while_matching(li, l.end(), isa); MC_EQ((size_t)std::distance(l.begin(), li), w);
      mc::outcome(mc::Hash()(w)(s.size()));
   });
}

template <size_t N> struct Cmp
{
   static void run()
   {
      Cmp<N - 1>::run(); one();
   }
   static void one()
   {
      unsigned char A[N + 1], B[N + 1];
      for (size_t pos = 0; pos <= N; ++pos)      // the differing byte (N: none)
         for (int d = 0; d < (N < 40 || pos == N ? 255 : 2); ++d)
         {
            MC_CASE(o << "memcmp_n<" << N << "> difference at " << pos << " by " << (d + 1));
            for (size_t i = 0; i < N; ++i) A[i] = B[i] = (unsigned char)(i * 37 + 11);
            if (pos < N) B[pos] = (unsigned char)(B[pos] + d + 1);
            mc::Buf<unsigned char> a(A, N), b(B, N);
            bool w = pos == N;
            MC_EQ((strtk::memcmp_n<N>((const unsigned char*)a.begin(), (const unsigned char*)b.begin())), w);
            MC_EQ((strtk::memcmp_n<N>((const char*)a.begin(), (const char*)b.begin())), w);
            MC_EQ((strtk::memcmp_n<N>((const unsigned char*)b.begin(), (const unsigned char*)a.begin())), w);
            A[N] = 1; B[N] = 2;
            MC_EQ((strtk::memcmp_n<N, N + 1, N + 1>(A, B)), w);
            mc::outcome(mc::Hash()(N)(pos));
            if (pos == N) break;
         }
   }
};
template <> struct Cmp<0> { static void run() { MC_CASE(o << "memcmp_n<0>"); unsigned char a = 1, b = 2; MC_EQ((strtk::memcmp_n<0>(&a, &b)), true); } };
MC_SECTION(memcmp_n_all) { Cmp<70>::run(); Cmp<127>::one(); Cmp<128>::one(); Cmp<129>::one(); Cmp<255>::one(); }

template <size_t N> static void arrays()
{
   for (size_t len = 0; len <= N + 3; ++len)
   {
      MC_CASE(o << "arrays of " << N << ", length " << len);
      unsigned char u[N]; char c[N]; int a[N]; S whole;
      for (size_t i = 0; i < N; ++i) { u[i] = (unsigned char)(i * 7 + 200); c[i] = (char)(i * 7 + 200); a[i] = (int)i; whole += c[i]; }
      MC_EQ(strtk::make_string(u), whole); MC_EQ(strtk::make_string(c), whole);
      MC_EQ(strtk::make_string(u, len), len <= N ? whole.substr(0, len) : S()); MC_EQ(strtk::make_string(c, len), len <= N ? whole.substr(0, len) : S());
      MC_EQ(strtk::clear_array(a, -5, len), len <= N);
      for (size_t i = 0; i < N; ++i) MC_EQ(a[i], (len <= N && i < len) ? -5 : (int)i);
      MC_EQ(strtk::clear_array(a, 6), true); for (size_t i = 0; i < N; ++i) MC_EQ(a[i], 6);
      for (int pad = 0; pad < 3; ++pad)
      {
         unsigned char d[N]; for (size_t i = 0; i < N; ++i) d[i] = 0xEE;
         S s; for (size_t i = 0; i < len; ++i) s += (char)(i + 250);
         bool r = pad == 0 ? strtk::set_array(d, s) : pad == 1 ? strtk::set_array(d, s, true) : strtk::set_array(d, s, true, 0xAB);
         MC_EQ(r, len <= N);
         for (size_t i = 0; i < N; ++i) MC_EQ((int)d[i], (int)(len > N ? 0xEE : i < len ? (unsigned char)(i + 250) : pad == 0 ? 0xEE : pad == 1 ? '0' : 0xAB));
      }
      mc::outcome(mc::Hash()(N)(len));
   }
}
template <size_t N, size_t M> static void set_from()
{
   MC_CASE(o << "set_array " << N << " from " << M);
   for (int pad = 0; pad < 3; ++pad)
   {
      unsigned char d[N], s[M]; for (size_t i = 0; i < N; ++i) d[i] = 0xEE; for (size_t i = 0; i < M; ++i) s[i] = (unsigned char)(i + 1);
      bool r = pad == 0 ? strtk::set_array(d, s) : pad == 1 ? strtk::set_array(d, s, true) : strtk::set_array(d, s, true, 0xAB);
      MC_EQ(r, M <= N);
      for (size_t i = 0; i < N; ++i) MC_EQ((int)d[i], (int)(M > N ? 0xEE : i < M ? (unsigned char)(i + 1) : pad == 0 ? 0xEE : pad == 1 ? '0' : 0xAB));
   }
}
template <size_t N> static void set_all() { set_from<N,1>(); set_from<N,2>(); set_from<N,3>(); set_from<N,4>(); set_from<N,7>(); set_from<N,8>(); set_from<N,15>(); set_from<N,16>(); set_from<N,17>(); set_from<N,64>(); }
MC_SECTION(array_utilities)
{
   arrays<1>(); arrays<2>(); arrays<3>(); arrays<4>(); arrays<5>(); arrays<7>(); arrays<8>(); arrays<9>(); arrays<15>(); arrays<16>(); arrays<17>(); arrays<31>(); arrays<32>(); arrays<33>(); arrays<64>(); arrays<200>();
   set_all<1>(); set_all<2>(); set_all<3>(); set_all<4>(); set_all<8>(); set_all<16>(); set_all<17>(); set_all<63>(); set_all<64>(); set_all<65>();
}

MC_SECTION(reverse_fill_ranges)
{
   auto one = [&](const S& s) {
      MC_CASE(o << "reverse/fill " << s);
      S w(s.rbegin(), s.rend());
      S a = s; strtk::reverse(a); MC_EQ(a, w);
      mc::Buf<char> b(s); const char* B = b.begin(); const char* E = b.end();
      strtk::reverse(std::make_pair(B, E)); MC_EQ(S(B, E), w);
      strtk::reverse(strtk::range::string(B, E)); MC_EQ(S(B, E), s);
      strtk::reverse(strtk::range::adapter<char>(b.begin(), b.end())); MC_EQ(S(B, E), w);
      VI sv(s.begin(), s.end()); mc::Buf<int> bi(sv); strtk::reverse(strtk::range::adapter<const int>(bi.begin(), bi.end())); MC_EQ(VI(bi.begin(), bi.end()), VI(s.rbegin(), s.rend()));
      S f = s; strtk::fill(f, 'Q'); MC_EQ(f, S(s.size(), 'Q'));
      strtk::fill(strtk::range::string(B, E), 'R'); MC_EQ(S(B, E), S(s.size(), 'R'));
      VI v(s.size(), 1); const int nine = 9; strtk::fill(v, nine); MC_EQ(v, VI(s.size(), 9));
      std::list<int> l(s.size(), 1); strtk::fill(l, nine); MC_EQ(VI(l.begin(), l.end()), VI(s.size(), 9));
      std::deque<int> q(s.size(), 1); strtk::fill(q, nine); MC_EQ(VI(q.begin(), q.end()), VI(s.size(), 9));
      // ranges describe exactly the elements they were made from
      strtk::range::string r1(s.data(), s.size()), r2(std::make_pair(s.data(), s.data() + s.size())), r3 = strtk::range::type(s), r4 = strtk::range::type(s.data(), s.data() + s.size());
      const strtk::range::string* rs[] = {&r1, &r2, &r3, &r4};
      for (auto r : rs)
      {
         MC_EQ(r->size(), s.size()); MC_TRUE(r->begin() == s.data() && r->end() == s.data() + s.size());
         MC_EQ((S)*r, s); MC_EQ(strtk::range::as_string(*r), s); MC_EQ(strtk::make_string(std::make_pair(r->begin(), r->end())), s);
         for (size_t i = 0; i < s.size(); ++i) MC_EQ((int)(*r)[i], (int)s[i]);
      }
      mc::Buf<unsigned char> ub(s); strtk::range::ustring us(ub.begin(), ub.end()); MC_EQ(strtk::range::as_string(us), s);
      MC_EQ(strtk::distance(std::make_pair(s.begin(), s.end())), s.size());
      std::pair<unsigned char*, unsigned char*> up = strtk::make_pair<unsigned char*>(s); MC_TRUE((const char*)up.first == s.data()); MC_EQ((size_t)(up.second - up.first), s.size());
      up = strtk::make_pair<unsigned char*>(std::make_pair(s.data(), s.data() + s.size())); MC_TRUE((const char*)up.first == s.data()); MC_EQ((size_t)(up.second - up.first), s.size());
      up = strtk::make_pair<unsigned char*, unsigned char*>(r1); MC_TRUE((const char*)up.first == s.data()); MC_EQ((size_t)(up.second - up.first), s.size());
      mc::outcome(mc::Hash()(s));
   };
   mc::strings(S("a\0\xff", 3), 0, mc::tier<size_t>(6, 8), one);
   for (size_t n = 0; n <= mc::tier<size_t>(300, 1200); ++n) { S s; for (size_t i = 0; i < n; ++i) s += (char)(i * 3 + n); one(s); }
   int arr[5] = {1, 2, 3, 4, 5};
   MC_CASE(o << "range over an array");
   MC_EQ(strtk::range::type(arr).size(), (size_t)5); MC_TRUE(strtk::range::type(arr).begin() == arr && strtk::range::type(arr).end() == arr + 5);
}
MC_SECTION(huge)
{
   const std::vector<size_t> ns = mc::scales(0, 140000);
   for (size_t n : ns)
   {
      MC_CASE(o << "sequences of " << n << " elements");
      { VI w = ref_iota<int>(n, -5), a, b(n, 1); strtk::iota(a, n, -5); MC_TRUE(a == w); const int m5 = -5; strtk::iota(b, m5); MC_TRUE(a == b); strtk::iota(b.begin(), b.end(), m5); MC_TRUE(b == w); a.clear(); strtk::iota(n, -5, mc::append(a)); MC_TRUE(a == w);
        std::deque<int> d; strtk::iota(d, n, -5); MC_TRUE(VI(d.begin(), d.end()) == w); std::multiset<int> ms; strtk::iota(ms, n, -5); MC_TRUE(VI(ms.begin(), ms.end()) == w); VI oi; strtk::iota(n, -5, std::back_inserter(oi)); MC_TRUE(oi == w); std::list<int> l; strtk::iota(l, n, -5); MC_TRUE(VI(l.begin(), l.end()) == w); std::set<int> s; strtk::iota(s, n, -5); MC_TRUE(VI(s.begin(), s.end()) == w); }
      const S txt = mc::letters(n);
      const size_t at[] = { 0, 1, 255, 256, 257, 65535, 65536, n / 2, n - 1, n, n + 1 };
      for (size_t r0 : at) for (size_t r1 : at)
      {
         if (r1 < r0) continue;
         VS in(1, txt), got, w; in.push_back("ab"); VS v = in, wi = in;
         for (size_t i = 0; i < 2; ++i) if (in[i].size() >= r0) { wi[i] = in[i].substr(r0, r1 - r0); w.push_back(wi[i]); }
         strtk::cut(r0, r1, in, mc::append(got)); MC_TRUE(got == w); strtk::cut_inplace(r0, r1, v.begin(), v.end()); MC_TRUE(v == wi);
      }
      for (int pat = 0; pat < 5; ++pat)
      {
         VI v; for (size_t i = 0; i < n; ++i) v.push_back(pat == 0 ? 7 : pat == 1 ? (int)i - 70000 : pat == 2 ? (int)(n - i) : pat == 3 ? (int)(i / 3) : (int)(i % 2));
         for (size_t hot : at)
         {
            VI x = v; if (hot < n) x[hot] = -2000000000; size_t dup = 0; for (size_t i = 1; i < n; ++i) dup += x[i] == x[i - 1];
            MC_EQ(strtk::count_consecutive_duplicates(x.begin(), x.end()), dup);
            int lo = *std::min_element(x.begin(), x.end()), hi = *std::max_element(x.begin(), x.end()), a = 0, b = 0;
            MC_EQ(strtk::min_of_cont(x), lo); MC_EQ(strtk::max_of_cont(x), hi); strtk::min_max_of_range(x.begin(), x.end(), a, b); MC_EQ(a, lo); MC_EQ(b, hi); a = b = 0; strtk::min_max_of_cont(x, a, b); MC_EQ(a, lo); MC_EQ(b, hi);
            if (hot < n) { x[hot] = 2000000000; MC_EQ(strtk::max_of_cont(x), 2000000000); strtk::min_max_of_range(x.begin(), x.end(), a, b); MC_EQ(b, 2000000000); }
         }
      }
      // a byte that occurs 255, 256, 257, 65535, ... times is repeated
      for (size_t hot : at)
      {
         if (hot > n) continue;
         S s(n, 'x'); s.insert(hot, 1, 'y'); MC_EQ(strtk::first_non_repeated_char(s), n == 1 ? (size_t)0 : hot);
         S t(n, 'x'); t.insert(hot, "yzy"); MC_EQ(strtk::first_non_repeated_char(t), hot + 1);
         MC_EQ(strtk::first_non_repeated_char(S(n, 'x') + "y" + S(n, 'x') + "y"), S::npos);
      }
      { S a(n, 'a'); const char* it = a.data(); strtk::skip_while_matching(it, a.data() + n, [](char c) { return c == 'a'; }); MC_EQ((size_t)(it - a.data()), n); a[n / 2] = 'b'; it = a.data(); strtk::skip_while_matching(it, a.data() + n, [](char c) { return c == 'a'; }); MC_EQ((size_t)(it - a.data()), n / 2); }
      { S s = txt, w(txt.rbegin(), txt.rend()); strtk::reverse(s); MC_TRUE(s == w); strtk::fill(s, 'q'); MC_TRUE(s == S(n, 'q')); MC_EQ(strtk::range::type(txt).size(), n); MC_TRUE(strtk::range::as_string(strtk::range::type(txt)) == txt); }
      if (n < 1100)
      {  // least rotation, the smallest element at every place
         for (size_t p = 0; p < n; p += n > 140 ? 37 : 1) { S r(n, 'b'), w(n, 'b'); r[p] = 'a'; w[0] = 'a'; strtk::lexicographically_canonicalize(r); MC_TRUE(r == w); r = S(n, 'b'); w = S(n, 'a'); r = S(n, 'a'); r[p] = 'b'; w[n - 1] = 'b'; strtk::lexicographically_canonicalize(r); MC_TRUE(r == w); }
      }
   }
   // elements other than int: extremes of other types
   MC_CASE(o << "extremes of other element types");
   std::vector<double> d; d.push_back(-3.5); d.push_back(-1e300); d.push_back(-0.25); double dl = 1, dh = 1; MC_EQ(strtk::min_of_cont(d), -1e300); MC_EQ(strtk::max_of_cont(d), -0.25); strtk::min_max_of_cont(d, dl, dh); MC_EQ(dl, -1e300); MC_EQ(dh, -0.25);
   VS vs; vs.push_back("m"); vs.push_back("z"); vs.push_back("a"); vs.push_back(""); S sl, sh; MC_EQ(strtk::min_of_cont(vs), S()); MC_EQ(strtk::max_of_cont(vs), S("z")); strtk::min_max_of_range(vs.begin(), vs.end(), sl, sh); MC_EQ(sl, S()); MC_EQ(sh, S("z"));
   std::vector<unsigned char> uc; uc.push_back(200); uc.push_back(3); uc.push_back(127); MC_EQ((int)strtk::min_of_cont(uc), 3); MC_EQ((int)strtk::max_of_cont(uc), 200);
   std::vector<unsigned long long> ul; ul.push_back(1ull << 63); ul.push_back(5); MC_EQ(strtk::min_of_cont(ul), 5ull); MC_EQ(strtk::max_of_cont(ul), 1ull << 63);
}
MC_SECTION(from_a_stream)
{
   // iterators that pass over their values only once
   const char* words[] = { "a", "bcd", "efghi" };
   for (size_t len = 0; len <= mc::tier<size_t>(5, 7); ++len) mc::tuples(3, len, [&](const std::vector<size_t>& ix) {
      VS v; std::vector<int> nums; for (size_t i : ix) { v.push_back(words[i]); nums.push_back((int)i * 7 - 9); }
      MC_CASE(o << "cut and extrema of a stream of " << v);
      for (size_t r0 = 0; r0 <= 4; ++r0) for (size_t r1 = r0; r1 <= 6; ++r1)
      { VS w, g; for (const S& s : v) if (s.size() >= r0) w.push_back(s.substr(r0, r1 - r0)); mc::Once<S> s(v); strtk::cut(r0, r1, s.b, s.e, mc::append(g)); MC_EQM(g, w, "cut"); }
      if (len) { mc::Once<int> s(nums); int lo = 0, hi = 0; strtk::min_max_of_range(s.b, s.e, lo, hi); MC_EQ(lo, *std::min_element(nums.begin(), nums.end())); MC_EQ(hi, *std::max_element(nums.begin(), nums.end())); }
      mc::outcome(mc::Hash()(v));
   });
}
MC_MAIN
