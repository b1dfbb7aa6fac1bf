// B01: everything binary::writer writes is read back by binary::reader, in exactly the bytes it needs, and nothing shorter is accepted.
#include "bin_model.hpp"

// v written into room of every size, its bytes, read back from every prefix
template <typename T> static void round_trip(const T& v, const char* what)
{
   const S e = bytes(v); const size_t n = e.size();
   MC_CASE(o << "round trip of " << what << " as bytes " << e);
   for (size_t k = 0; k <= n; ++k)
   {
      if (n > 60 && k > 12 && k + 12 < n && k % 17) continue;
      const S pre = e.substr(0, k);
      { mc::Buf<char> b(k); Wr w(b.begin(), k); MC_EQM(w(v), k == n, "writer result"); MC_TRUE(w.amount_written() <= k && w.position_ptr() == b.begin() + w.amount_written()); if (k == n) { MC_EQM(b.str(), e, "bytes"); MC_EQM(w.amount_written(), n, "amount_written"); MC_EQM(w.position(), n, "position"); } }
      { mc::Buf<char> b(pre); Rd r(b.begin(), k); T x = T(); MC_EQM(r(x), k == n, "reader result"); MC_TRUE(r.amount_read() <= k && r.position_ptr() == b.begin() + r.amount_read()); if (k == n) { MC_EQM(bytes(x), e, "value read back"); MC_EQM(r.amount_read(), n, "amount_read"); MC_EQM(r.position(), n, "position"); } MC_EQM(b.str(), pre, "reader leaves the bytes"); }
   }
   const S g = "\x11\x22\x33\x44\x55\x66\x77";              // within a larger buffer
   { mc::Buf<char> b(g + S(n, 'z') + g); Wr w(b.begin(), b.n); char c; for (size_t i = 0; i < g.size(); ++i) { c = g[i]; MC_TRUE(w(c)); } MC_TRUE(w(v)); MC_EQM(b.str(), g + e + g, "bytes within a larger buffer");
     Rd r(b.begin(), b.n); for (size_t i = 0; i < g.size(); ++i) { MC_TRUE(r(c)); MC_EQ(c, g[i]); } T x = T(); MC_TRUE(r(x)); MC_EQM(bytes(x), e, "value after others"); MC_TRUE(r(c)); MC_EQM(c, g[0], "next value"); }
   mc::outcome(mc::Hash()(e)(S(what)));
}
// read into a target that already holds something: a string or vector is replaced, every other sequence is added to
template <typename T> static T joined(const T&, const T& v) { return v; }
template <typename T> static std::list<T> joined(std::list<T> a, const std::list<T>& v) { a.insert(a.end(), v.begin(), v.end()); return a; }
template <typename T> static std::deque<T> joined(std::deque<T> a, const std::deque<T>& v) { a.insert(a.end(), v.begin(), v.end()); return a; }
template <typename T> static std::set<T> joined(std::set<T> a, const std::set<T>& v) { a.insert(v.begin(), v.end()); return a; }
template <typename T> static std::multiset<T> joined(std::multiset<T> a, const std::multiset<T>& v) { for (const T& x : v) a.insert(a.end(), x); return a; }
template <typename T> static std::set<T, std::greater<T> > joined(std::set<T, std::greater<T> > a, const std::set<T, std::greater<T> >& v) { a.insert(v.begin(), v.end()); return a; }
template <typename T> static std::multiset<T, std::greater<T> > joined(std::multiset<T, std::greater<T> > a, const std::multiset<T, std::greater<T> >& v) { for (const T& x : v) a.insert(x); return a; }
template <typename T> static void reuse(const T& before, const T& v, const char* what)
{
   const S e = bytes(v);
   MC_CASE(o << "used " << what << " " << bytes(before) << " read from " << e);
   mc::Buf<char> b(e); Rd r(b.begin(), b.n); T x = before; MC_TRUE(r(x)); MC_EQM(bytes(x), bytes(joined(before, v)), "used target"); MC_EQ(r.amount_read(), e.size());
   mc::Buf<char> b2(e.size()); Wr w(b2.begin(), b2.n); MC_TRUE(w(v)); MC_EQ(b2.str(), e); w.reset(); MC_TRUE(w(v)); MC_EQM(b2.str(), e, "written again after reset");
   r.reset(); T y = T(); MC_TRUE(r(y)); MC_EQM(bytes(y), e, "read again after reset");
}
template <typename T> struct Values;
template <typename T> static std::vector<T> num() { std::vector<T> v; v.push_back(0); v.push_back(1); v.push_back((T)-1); v.push_back(std::numeric_limits<T>::max()); v.push_back(std::numeric_limits<T>::min()); return v; }
template <> struct Values<char> { static std::vector<char> get() { return {0, 'a', (char)0x80}; } };
template <> struct Values<int> { static std::vector<int> get() { return {0, -1, 0x01020304}; } };
template <> struct Values<double> { static std::vector<double> get() { return {0.0, -1.5, 1e300}; } };
template <> struct Values<unsigned short> { static std::vector<unsigned short> get() { return {0, 0x0102, 0xFFFF}; } };
template <> struct Values<long long> { static std::vector<long long> get() { return {0, -2, 0x0102030405060708LL}; } };
template <> struct Values<S> { static std::vector<S> get() { return {"", "a", S("b\0\xFF", 3)}; } };
template <> struct Values<Rec> { static std::vector<Rec> get() { Rec c(7, "xy", 'c', 2.5); c.tags = {"", "t"}; return {Rec(), Rec(1, "n"), c}; } };
template <typename A, typename B> struct Values<std::pair<A,B> > { static std::vector<std::pair<A,B> > get() { auto a = Values<A>::get(); auto b = Values<B>::get(); return {std::make_pair(a[0], b[1]), std::make_pair(a[1], b[0]), std::make_pair(a[2], b[2])}; } };
template <typename T> struct Values<std::vector<T> > { static std::vector<std::vector<T> > get() { auto a = Values<T>::get(); return {{}, {a[1]}, {a[2], a[0]}}; } };
template <typename T> struct Values<std::list<T> > { static std::vector<std::list<T> > get() { auto a = Values<T>::get(); return {{}, {a[1]}, {a[2], a[0]}}; } };
template <typename T> struct Values<std::set<T> > { static std::vector<std::set<T> > get() { auto a = Values<T>::get(); return {{}, {a[1]}, {a[2], a[0]}}; } };
template <typename C> static void containers(const char* what)
{
   typedef typename C::value_type T; auto vals = Values<T>::get();
   for (size_t len = 0; len <= mc::tier<size_t>(4, 6); ++len) mc::tuples(vals.size(), len, [&](const std::vector<size_t>& ix) { C c; for (size_t i : ix) put(c, vals[i]); round_trip(c, what); });
   std::vector<C> cs; for (size_t len = 0; len <= 3; ++len) mc::tuples(vals.size(), len, [&](const std::vector<size_t>& ix) { C c; for (size_t i : ix) put(c, vals[i]); cs.push_back(c); });
   for (auto& a : cs) for (auto& v : cs) reuse(a, v, what);
   for (size_t len : {7u, 16u, 31u, 32u, 33u, 64u, 100u, 255u, 256u, 257u}) { C c; for (size_t i = 0; i < len; ++i) put(c, vals[(i * 7 + len) % 3]); round_trip(c, what); }
}
template <typename T> static void each(const char* what)
{ containers<std::vector<T> >(what); containers<std::deque<T> >(what); containers<std::list<T> >(what); containers<std::set<T> >(what); containers<std::multiset<T> >(what); }

template <typename T> static void pods(const char* what) { for (T v : num<T>()) round_trip(v, what); for (size_t b = 0; b < sizeof(T); ++b) for (unsigned x = 0; x < 256; ++x) { T v = 0; ((unsigned char*)&v)[b] = (unsigned char)x; if (std::is_same<T,bool>::value && x > 1) continue; round_trip(v, what); } }
MC_SECTION(pod_values)
{
   pods<char>("char"); pods<signed char>("signed char"); pods<unsigned char>("unsigned char"); pods<bool>("bool"); pods<short>("short"); pods<unsigned short>("unsigned short"); pods<int>("int"); pods<unsigned>("unsigned");
   pods<long>("long"); pods<unsigned long>("unsigned long"); pods<long long>("long long"); pods<unsigned long long>("unsigned long long"); pods<float>("float"); pods<double>("double");
   for (long double v : {0.0L, -1.5L, 1e4000L, 1.0L / 3}) { MC_CASE(o << "long double"); mc::Buf<char> b(sizeof v); Wr w(b.begin(), b.n); MC_TRUE(w(v)); Rd r(b.begin(), b.n); long double x = 9; MC_TRUE(r(x)); MC_TRUE(x == v); MC_EQ(r.amount_read(), sizeof v); }
}
MC_SECTION(strings_and_pairs)
{
   mc::strings(S("a\0\xFF", 3), 0, mc::tier<size_t>(6, 8), [](const S& s) { round_trip(s, "string"); });
   for (size_t n = 7; n <= 300; ++n) { S s; for (size_t i = 0; i < n; ++i) s += (char)(i * 37 + n); round_trip(s, "string"); }
   for (auto& v : Values<std::pair<char,double> >::get()) round_trip(v, "pair<char,double>");
   for (auto& v : Values<std::pair<S,int> >::get()) round_trip(v, "pair<string,int>");
   for (auto& v : Values<std::pair<S,std::pair<S,S> > >::get()) round_trip(v, "nested pair");
   for (auto& v : Values<std::pair<std::vector<int>,std::list<S> > >::get()) round_trip(v, "pair of containers");
   for (auto& v : Values<Rec>::get()) round_trip(v, "record");
}
MC_SECTION(pod_containers) { each<char>("chars"); each<unsigned short>("unsigned shorts"); each<int>("ints"); each<long long>("long longs"); each<double>("doubles"); }
MC_SECTION(string_containers) { each<S>("strings"); }
MC_SECTION(pair_containers) { each<std::pair<char,int> >("pairs"); each<std::pair<S,S> >("string pairs"); }
MC_SECTION(record_containers) { each<Rec>("records"); }
MC_SECTION(own_order) { containers<std::set<int, std::greater<int> > >("descending ints"); containers<std::multiset<char, std::greater<char> > >("descending chars"); containers<std::set<S, std::greater<S> > >("descending strings"); containers<std::multiset<S, std::greater<S> > >("descending strings"); }
MC_SECTION(nested_containers) { each<std::vector<int> >("int vectors"); each<std::vector<S> >("string vectors"); each<std::list<double> >("double lists"); containers<std::vector<std::set<S> > >("string sets"); containers<std::list<std::vector<std::vector<char> > > >("vectors of vectors"); }

// ---- beyond 16-bit counts
template <typename T> static void big(const T& v, const char* what)
{
   const S e = bytes(v); const size_t n = e.size();
   MC_CASE(o << "round trip of " << n << " bytes of " << what);
   for (size_t k : {n, n - 1, n + 3, (size_t)4, n / 2, n - 65536, (size_t)65536})
   {
      { mc::Buf<char> b(k); Wr w(b.begin(), k); MC_EQM(w(v), k >= n, "writer result"); if (k >= n) { MC_TRUE(b.str().compare(0, n, e) == 0); MC_EQM(w.amount_written(), n, "amount_written"); MC_TRUE(w.position_ptr() == b.begin() + n); } else MC_TRUE(w.amount_written() <= k); }
      { S in = e; in.resize(k, '~'); mc::Buf<char> b(in); Rd r(b.begin(), k); T x = T(); MC_EQM(r(x), k >= n, "reader result"); if (k >= n) { MC_TRUE(bytes(x) == e); MC_EQM(r.amount_read(), n, "amount_read"); MC_TRUE(r.position_ptr() == b.begin() + n); } else MC_TRUE(r.amount_read() <= k); }
   }
   mc::outcome(mc::Hash()(e)(S(what)));
}
template <typename T> static std::vector<T> many(size_t n) { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) { unsigned long long x = i * 2654435761ULL + 99; v[i] = (T)(x ^ (x >> 13)); } return v; }
template <typename T> static void bigs(size_t n, const char* what)
{
   const std::vector<T> v = many<T>(n); big(v, what); big(std::deque<T>(v.begin(), v.end()), what); big(std::list<T>(v.begin(), v.end()), what); big(std::multiset<T>(v.begin(), v.end()), what); if (sizeof(T) > 2) big(std::set<T>(v.begin(), v.end()), what);
   const S raw((const char*)&v[0], n * sizeof(T)); S len; enc(len, (unsigned)n);
   MC_CASE(o << n << " " << what << " by pointer");
   { mc::Buf<char> b(raw.size() + 4); Wr w(b.begin(), b.n); MC_TRUE(w(&v[0], (unsigned)n)); MC_TRUE(b.str() == len + raw); Rd r(b.begin(), b.n); T* p = 0; unsigned c = 0; MC_TRUE(r(p, c)); MC_EQ(c, (unsigned)n); MC_TRUE(S((char*)p, raw.size()) == raw); delete[] p; r.reset(); unsigned long long c2 = 0; MC_TRUE(r(p, c2)); MC_EQ(c2, (unsigned long long)n); MC_TRUE(S((char*)p, raw.size()) == raw); delete[] p; }
   { mc::Buf<char> b(raw.size() + 4); Wr w(b.begin(), b.n); MC_TRUE(w(&v[0], (unsigned long long)n)); MC_TRUE(b.str() == len + raw); }
   { mc::Buf<char> b(raw.size()); Wr w(b.begin(), b.n); MC_TRUE(w(&v[0], (unsigned)n, false)); MC_TRUE(b.str() == raw); mc::Buf<T> in(n); Rd r(b.begin(), b.n); T* p = in.begin(); unsigned c = (unsigned)n; MC_TRUE(r(p, c, false)); MC_TRUE(in.str() == raw); }
}
MC_SECTION(huge)
{
   for (size_t n : {65535u, 65536u, 65537u, 131077u}) { bigs<char>(n, "chars"); bigs<unsigned short>(n, "unsigned shorts"); bigs<int>(n, "ints"); bigs<double>(n, "doubles"); }
   mc::huge_strings('q', (char)0, [](const S& s, int) { { big(s, "a string"); big(std::make_pair(s, S("tail")), "a pair"); big(std::vector<S>(2, s), "two strings"); Rec r(3, s); r.tags.push_back(s); big(r, "a record"); } }, 65537);
   big(std::vector<std::vector<char> >(66000, std::vector<char>(1, 'x')), "small vectors"); big(std::list<S>(70000, S()), "empty strings"); { std::set<S> ss; for (int i = 0; i < 66000; ++i) ss.insert(std::to_string(i)); big(ss, "a set of strings"); } big(std::deque<std::pair<char,int> >(66000, std::make_pair('c', 7)), "pairs");
}
template <typename T, size_t N> static void array_n(const char* what)
{
   for (int seed = 0; seed < 4; ++seed)
   {
      T a[N]; S raw; for (size_t i = 0; i < N; ++i) { a[i] = (T)(i * 37 + seed * 129 - 2); enc(raw, a[i]); }
      S len; enc(len, (unsigned)N);
      MC_CASE(o << "array of " << N << " " << what);
      for (size_t k = 0; k <= raw.size() + 4; ++k)
      {
         if (k > 12 && k + 12 < raw.size() && k % 13) continue;
         { mc::Buf<char> b(k); Wr w(b.begin(), k); MC_EQM(w(a), k >= raw.size(), "array written"); if (k >= raw.size()) { MC_EQM(b.str().substr(0, raw.size()), raw, "array bytes"); MC_EQ(w.amount_written(), raw.size()); } else MC_EQ(w.amount_written(), (size_t)0); }
         { mc::Buf<char> b(k); Wr w(b.begin(), k); MC_EQM(w(a, true), k >= raw.size() + 4, "counted array written"); if (k >= raw.size() + 4) { MC_EQM(b.str(), len + raw, "counted array bytes"); MC_EQ(w.amount_written(), raw.size() + 4); MC_TRUE(w.position_ptr() == b.begin() + raw.size() + 4); } }
         { mc::Buf<char> b(k); Wr w(b.begin(), k); MC_EQM(w(&a[0], (unsigned)N), k >= raw.size() + 4, "pointer and count written"); if (k >= raw.size() + 4) { MC_EQM(b.str(), len + raw, "pointer and count bytes"); MC_EQ(w.amount_written(), raw.size() + 4); MC_TRUE(w.position_ptr() == b.begin() + raw.size() + 4); } }
         { mc::Buf<char> b(k); Wr w(b.begin(), k); MC_EQM(w(&a[0], (unsigned long long)N), k >= raw.size() + 4, "pointer and 64-bit count"); if (k >= raw.size() + 4) { MC_EQM(b.str(), len + raw, "pointer and 64-bit count bytes"); MC_EQ(w.amount_written(), raw.size() + 4); MC_TRUE(w.position_ptr() == b.begin() + raw.size() + 4); } }
         { mc::Buf<char> b(k); Wr w(b.begin(), k); MC_EQM(w(&a[0], (unsigned short)N), k >= raw.size() + 4, "pointer and 16-bit count"); if (k >= raw.size() + 4) { MC_EQM(b.str(), len + raw, "pointer and 16-bit count bytes"); MC_EQ(w.amount_written(), raw.size() + 4); MC_TRUE(w.position_ptr() == b.begin() + raw.size() + 4); } }
         if (N < 256) { mc::Buf<char> b(k); Wr w(b.begin(), k); MC_EQM(w(&a[0], (unsigned char)N), k >= raw.size() + 4, "pointer and 8-bit count"); if (k >= raw.size() + 4) { MC_EQM(b.str(), len + raw, "pointer and 8-bit count bytes"); MC_EQ(w.amount_written(), raw.size() + 4); MC_TRUE(w.position_ptr() == b.begin() + raw.size() + 4); } }
         { mc::Buf<char> b(k); Wr w(b.begin(), k); MC_EQM(w(&a[0], (unsigned)N, false), k >= raw.size(), "pointer without count"); if (k >= raw.size()) { MC_EQM(b.str().substr(0, raw.size()), raw, "pointer without count bytes"); MC_EQ(w.amount_written(), raw.size()); } }
         { mc::Buf<char> b(raw.substr(0, std::min(k, raw.size()))); Rd r(b.begin(), b.n); T x[N]; for (T& y : x) y = T(); const bool ok = k >= raw.size(); MC_EQM(r(x), ok, "array read"); MC_EQM(r.amount_read(), ok ? raw.size() : (size_t)0, "amount_read"); MC_EQ(r.position(), r.amount_read()); MC_TRUE(r.position_ptr() == b.begin() + r.amount_read()); for (size_t i = 0; i < N; ++i) MC_EQM(x[i], ok ? a[i] : T(), "array element"); }
         { mc::Buf<char> b((len + raw).substr(0, k)); Rd r(b.begin(), b.n); T* p = 0; unsigned n = 0; const bool ok = k >= raw.size() + 4; MC_EQM(r(p, n), ok, "allocating read"); if (ok) { MC_EQ(r.amount_read(), raw.size() + 4); MC_TRUE(r.position_ptr() == b.begin() + raw.size() + 4); } if (ok) { MC_EQM(n, (unsigned)N, "count"); for (size_t i = 0; i < N; ++i) MC_EQM(p[i], a[i], "element"); delete[] p; } else MC_TRUE(p == 0); }
         { mc::Buf<char> b((len + raw).substr(0, k)); Rd r(b.begin(), b.n); T* p = 0; unsigned long long n = 77; const bool ok = k >= raw.size() + 4; MC_EQM(r(p, n), ok, "allocating read, 64-bit count"); if (ok) { MC_EQ(r.amount_read(), raw.size() + 4); MC_TRUE(r.position_ptr() == b.begin() + raw.size() + 4); } if (ok) { MC_EQM(n, (unsigned long long)N, "count"); for (size_t i = 0; i < N; ++i) MC_EQM(p[i], a[i], "element"); delete[] p; } else MC_TRUE(p == 0); }
         { mc::Buf<char> b(raw.substr(0, std::min(k, raw.size()))); mc::Buf<T> x(N); Rd r(b.begin(), b.n); T* p = x.begin(); unsigned n = N; const bool ok = k >= raw.size(); MC_EQM(r(p, n, false), ok, "read into place"); MC_EQ(r.amount_read(), ok ? raw.size() : (size_t)0); MC_TRUE(r.position_ptr() == b.begin() + r.amount_read()); MC_TRUE(p == x.begin()); MC_EQM(x.str(), ok ? raw : S(raw.size(), 0), "elements in place"); }
         { mc::Buf<char> b(raw.substr(0, std::min(k, raw.size()))); mc::Buf<T> x(N); Rd r(b.begin(), b.n); T* p = x.begin(); unsigned long long n = N; const bool ok = k >= raw.size(); MC_EQM(r(p, n, false), ok, "read into place, 64-bit count"); MC_TRUE(p == x.begin() && n == N); MC_EQM(x.str(), ok ? raw : S(raw.size(), 0), "elements in place"); }
      }
      mc::outcome(mc::Hash()(raw)(S(what)));
   }
}
template <typename T> static void arrays(const char* what) { array_n<T,1>(what); array_n<T,2>(what); array_n<T,7>(what); array_n<T,255>(what); array_n<T,256>(what); }
MC_SECTION(arrays_) { arrays<char>("chars"); arrays<unsigned short>("unsigned shorts"); arrays<int>("ints"); arrays<double>("doubles"); }
MC_MAIN
