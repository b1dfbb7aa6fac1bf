// B04: read_pod / write_pod over memory: native bytes, one after the other, the pointer moved behind them.
#include "split_model.hpp"
#include <array>
#include <deque>
#include <list>
#include <tuple>
typedef std::string S;
typedef unsigned char uc;
#pragma pack(push, 1)
struct Packed { char a; int b; short c; bool operator==(const Packed& o) const { return a == o.a && b == o.b && c == o.c; } };
#pragma pack(pop)
template <typename T> struct Gen { static T make(unsigned k) { T t; uc* p = (uc*)&t; for (size_t i = 0; i < sizeof t; ++i) p[i] = (uc)(k * 37 + i * 11 + 1); return t; } };
template <> struct Gen<bool> { static bool make(unsigned k) { return k & 1; } };
template <> struct Gen<float> { static float make(unsigned k) { return k * 1.25f - 3; } };
template <> struct Gen<double> { static double make(unsigned k) { return k * 1.25e100 - 3; } };
template <typename T> static S bytes(const T& t) { return S((const char*)&t, sizeof t); }

template <typename Tuple, size_t... I> static S cat(const Tuple& t, std::index_sequence<I...>) { S r; int d[] = { 0, (r += bytes(std::get<I>(t)), 0)... }; (void)d; return r; }
template <typename Tuple, size_t... I> static uc* wr(uc* p, const Tuple& t, std::index_sequence<I...>) { return strtk::write_pod(p, std::get<I>(t)...); }
template <typename Tuple, size_t... I> static uc* rd(uc* p, Tuple& t, std::index_sequence<I...>) { return strtk::read_pod(p, std::get<I>(t)...); }

template <typename... T> static void pack(unsigned k)
{
   typedef std::tuple<T...> Tu; typedef std::index_sequence_for<T...> Ix;
   unsigned c = k; Tu v{ Gen<T>::make(++c)... }; const S w = cat(v, Ix());
   MC_CASE(o << sizeof...(T) << " values, " << w.size() << " bytes, values " << k);
   for (size_t off = 0; off < 9; off += (off == 0 ? 1 : 7))
   {
      mc::Buf<uc> b(w.size() + off); for (size_t i = 0; i < off; ++i) b.p[i] = 0x5A;
      MC_TRUE(wr(b.begin() + off, v, Ix()) == b.end()); MC_EQ(b.str(), S(off, 0x5A) + w);
      unsigned e = k + 100; Tu r{ Gen<T>::make(++e)... }; const S before = b.str();
      MC_TRUE(rd(b.begin() + off, r, Ix()) == b.end()); MC_TRUE(cat(r, Ix()) == w); MC_EQ(b.str(), before);
   }
   mc::outcome(w);
}
MC_SECTION(values)
{
   for (unsigned k = 0; k < mc::tier(40u, 400u); ++k)
   {
      #define A1 uc
      #define A2 A1,short
      #define A3 A2,int
      #define A4 A3,long long
      #define A5 A4,double
      #define A6 A5,char
      #define A7 A6,Packed
      #define A8 A7,float
      #define A9 A8,unsigned long
      #define A10 A9,bool
      #define A11 A10,unsigned short
      #define A12 A11,signed char
      pack<A1>(k); pack<A2>(k); pack<A3>(k); pack<A4>(k); pack<A5>(k); pack<A6>(k); pack<A7>(k); pack<A8>(k); pack<A9>(k); pack<A10>(k); pack<A11>(k); pack<A12>(k);
      pack<Packed>(k); pack<long long,uc>(k); pack<Packed,double,uc>(k); pack<uc,uc,uc,int>(k); pack<double,short,double,uc,uc>(k); pack<int,int,int,int,int,int>(k); pack<uc,int,uc,int,uc,int,uc>(k); pack<long long,short,long long,short,long long,short,long long,short>(k);
      pack<uc,uc,uc,uc,uc,uc,uc,uc,long long>(k); pack<double,uc,double,uc,double,uc,double,uc,double,uc>(k); pack<int,int,int,int,int,int,int,int,int,int,int>(k); pack<long long,Packed,uc,Packed,short,Packed,int,Packed,uc,Packed,uc,long long>(k);
   }
}
template <typename T, size_t N> static void arr(unsigned k)
{
   T a[N]; S w; for (size_t i = 0; i < N; ++i) { a[i] = Gen<T>::make(k + (unsigned)i); w += bytes(a[i]); }
   MC_CASE(o << "array of " << N << " elements of " << sizeof(T) << " bytes, values " << k);
   mc::Buf<uc> b(w.size()); MC_TRUE(strtk::write_pod(b.begin(), a) == b.end()); MC_EQ(b.str(), w);
   { mc::Buf<uc> c(w.size()); const T (&ca)[N] = a; MC_TRUE(strtk::write_pod(c.begin(), ca) == c.end()); MC_EQ(c.str(), w); }
   T r[N]; for (size_t i = 0; i < N; ++i) r[i] = Gen<T>::make(k + 77); MC_TRUE(strtk::read_pod(b.begin(), r) == b.end()); MC_TRUE(std::equal(r, r + N, a)); MC_EQ(b.str(), w);
   mc::outcome(w);
}
template <typename T> static void arrays() { for (unsigned k = 0; k < 16; ++k) { arr<T,1>(k); arr<T,2>(k); arr<T,3>(k); arr<T,7>(k); arr<T,8>(k); arr<T,64>(k); arr<T,255>(k); arr<T,256>(k); arr<T,257>(k); } arr<T,5000>(3); }
MC_SECTION(arrays_) { arrays<uc>(); arrays<char>(); arrays<short>(); arrays<int>(); arrays<unsigned long>(); arrays<double>(); arrays<Packed>(); }

template <typename C> static void seq(const std::vector<typename C::value_type>& v, const char* name)
{
   typedef typename C::value_type T;
   const C c(v.begin(), v.end()); const std::vector<T> ord(c.begin(), c.end()); S w; for (const T& t : ord) w += bytes(t);
   MC_CASE(o << name << " of " << c.size() << " elements of " << sizeof(T) << " bytes");
   mc::Buf<uc> b(w.size()); MC_TRUE(strtk::write_pod(b.begin(), c) == b.end()); MC_TRUE(b.str() == w);
   for (size_t n = 0; n <= ord.size(); n = (n < 9 ? n + 1 : n == ord.size() ? n + 1 : std::min(n * 2, ord.size())))
   {
      mc::Buf<uc> in(w.substr(0, n * sizeof(T))); C r; MC_TRUE(strtk::read_pod(in.begin(), n, r) == in.end());
      MC_TRUE((std::vector<T>(r.begin(), r.end()) == std::vector<T>(ord.begin(), ord.begin() + n)));
   }
   if (!ord.empty())
   {  // into a container that already has elements: appended (inserted), and the pointer moves by what was read
      C r(v.begin(), v.begin() + 1); C want = r; for (const T& t : ord) want.insert(want.end(), t);
      MC_TRUE(strtk::read_pod(b.begin(), ord.size(), r) == b.end()); MC_TRUE(r == want);
   }
   mc::outcome(mc::Hash()(w)(S(name)));
}
template <typename T> static void seqs()
{
   const T m[3] = { Gen<T>::make(3), Gen<T>::make(90), Gen<T>::make(201) };
   auto all = [&](const std::vector<T>& v) { seq<std::vector<T> >(v, "vector"); seq<std::deque<T> >(v, "deque"); seq<std::list<T> >(v, "list"); seq<std::set<T> >(v, "set"); seq<std::multiset<T> >(v, "multiset"); seq<std::set<T, std::greater<T> > >(v, "descending set"); seq<std::multiset<T, std::greater<T> > >(v, "descending multiset"); };
   for (size_t n = 0; n <= mc::tier((size_t)4, (size_t)6); ++n) mc::tuples(3, n, [&](const std::vector<size_t>& ix) { std::vector<T> v; for (size_t i : ix) v.push_back(m[i]); all(v); });
   const size_t ns[] = { 15, 16, 17, 255, 256, 257, 4096, 65536, 65537 };
   for (size_t n : ns) { std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(Gen<T>::make((unsigned)(i % 241))); all(v); }
}
MC_SECTION(containers_small) { seqs<uc>(); seqs<short>(); }
MC_SECTION(containers_int) { seqs<int>(); seqs<long long>(); }
MC_SECTION(containers_real) { seqs<double>(); seqs<float>(); }
MC_MAIN
