// D02: a bloom filter never forgets: after every history of operations every inserted key is reported, and nothing else changes.
#include "bloom_model.hpp"

static const std::vector<S>& KEYS() { static const std::vector<S> k = {"", "a", S("a\0", 2), "abc", "abcdefgh", "abcdefghijklmno", S("\xFF\x80\0\x01", 4)}; return k; }
// the bits of a key: what inserting it alone into an empty filter sets
static S mask(const Prm& p, size_t bits, const S& k) { F f(p); f.insert(k); return table(f, bits); }
struct Op { int type; int key; };
static mc::Out& operator<<(mc::Out& o, const Op& p) { static const char* n[] = {"insert A", "insert B", "A |= B", "A &= B", "A ^= B", "A = B", "clear A", "A = copy", "A = A | B", "A = A & B", "A = A ^ B", "B = A"}; return o << n[p.type] << "(" << p.key << ")"; }
static void history(const Prm& p, size_t bits, const std::vector<S>& m, const std::vector<Op>& h)
{
   F a(p), b(p); S ta((bits + 7) / 8, 0), tb = ta; std::set<int> ka, kb; size_t na = 0, nb = 0;
   for (auto& q : h)
   {
      mc::transition();
      switch (q.type)
      {
         case 0: a.insert(KEYS()[q.key]); ta = bor(ta, m[q.key]); ka.insert(q.key); ++na; break;
         case 1: b.insert(KEYS()[q.key]); tb = bor(tb, m[q.key]); kb.insert(q.key); ++nb; break;
         case 2: a |= b; ta = bor(ta, tb); ka.insert(kb.begin(), kb.end()); break;
         case 8: a = a | b; ta = bor(ta, tb); ka.insert(kb.begin(), kb.end()); break;
         case 3: case 9: { if (q.type == 3) a &= b; else a = a & b; ta = band(ta, tb); std::set<int> r; for (int k : ka) if (kb.count(k)) r.insert(k); ka = r; break; }
         case 4: case 10: if (q.type == 4) a ^= b; else a = a ^ b; ta = bxor(ta, tb); ka.clear(); break;
         case 5: a = b; ta = tb; ka = kb; na = nb; break;
         case 6: a.clear(); ta.assign(ta.size(), 0); ka.clear(); na = 0; break;
         case 7: { F c(a); MC_TRUE(c == a); MC_TRUE(!(c != a)); c.insert(S("other")); MC_TRUE(c != a); a.clear(); ta.assign(ta.size(), 0); ka.clear(); na = 0; break; }
         case 11: b = a; tb = ta; kb = ka; nb = na; break;
      }
      MC_EQM(table(a, bits), ta, "table of A"); MC_EQM(table(b, bits), tb, "table of B");
   }
   MC_EQM(a.element_count(), na, "element_count"); MC_EQM((size_t)a.size(), bits, "size"); MC_EQM(!a, false, "operator!"); MC_EQM(a == b, ta == tb && na == nb, "equality"); MC_EQM(a != b, !(ta == tb && na == nb), "inequality");
   for (int k : ka) MC_TRUE(a.contains(KEYS()[k])); for (int k : kb) MC_TRUE(b.contains(KEYS()[k]));
   for (size_t k = 0; k < KEYS().size(); ++k)
   {
      const bool w = covers(ta, m[k]); const S& s = KEYS()[k];
      MC_EQM(a.contains(s), w, "contains"); MC_EQM(a.contains(s.data(), s.size()), w, "contains(pointer,length)"); mc::Buf<unsigned char> x(s); MC_EQM(a.contains((const unsigned char*)x.begin(), s.size()), w, "contains(unsigned pointer,length)");
   }
   mc::trace(); mc::Hash hh; hh(ta)(tb)((uint64_t)na)((uint64_t)nb); mc::state(hh); mc::outcome(hh);
}
static void histories(size_t bits, unsigned hashes, size_t depth, unsigned long long seed = 7)
{
   const Prm p = params(bits, hashes, seed); std::vector<S> m; for (auto& k : KEYS()) m.push_back(mask(p, bits, k));
   std::vector<Op> ops; for (int k : {0, 1, 3, 5, 6}) { ops.push_back(Op{0, k}); } for (int k : {1, 4}) ops.push_back(Op{1, k}); for (int t = 2; t < 12; ++t) ops.push_back(Op{t, 0});
   for (size_t d = 0; d <= depth; ++d) mc::tuples(ops.size(), d, [&](const std::vector<size_t>& ix) { std::vector<Op> h; for (size_t i : ix) h.push_back(ops[i]); MC_CASE(o << bits << " bits, " << hashes << " hashes: " << h); history(p, bits, m, h); });
}
MC_SECTION(histories_64_3) { histories(64, 3, mc::tier<size_t>(4, 5)); }
MC_SECTION(histories_odd) { for (size_t bits : {1u, 7u, 9u, 13u, 1001u}) histories(bits, 2, mc::tier<size_t>(3, 4)); }
MC_SECTION(histories_many_hashes) { histories(4096, 128, 2); histories(4096, 129, 2); histories(4096, 200, mc::tier<size_t>(1, 2)); }
MC_SECTION(histories_seeds) { for (unsigned long long s : {1ull, 2ull, 0xFFFFFFFFull, 0x100000000ull, 0xFFFFFFFFFFFFFFFEull}) histories(200, 5, 2, s); }

template <typename T> static void keys(const std::vector<T>& v, const char* what)
{
   for (size_t bits : {8u, 65u, 512u, 4099u}) for (unsigned hashes : {1u, 2u, 7u, 20u})
   {
      const Prm p = params(bits, hashes); F f(p), g(p), e(p);
      for (size_t i = 0; i < v.size(); ++i)
      {
         MC_CASE(o << what << " key " << i << " in " << bits << " bits, " << hashes << " hashes");
         F one(p); one.insert(v[i]); MC_TRUE(one.contains(v[i])); MC_EQM(one.element_count(), (size_t)1, "element_count"); MC_TRUE(table(one, bits) != table(e, bits)); MC_EQM(e.contains(v[i]), false, "an empty filter contains nothing");
         const S before = table(f, bits); f.insert(v[i]); MC_EQM(table(f, bits), bor(before, table(one, bits)), "exactly the key's bits are added"); for (size_t j = 0; j <= i; ++j) if (j + 40 > i || j % 16 == 0) MC_TRUE(f.contains(v[j])); mc::outcome(mc::Hash()(S(what))(i)(bits)(hashes)(table(one, bits)));
      }
      MC_CASE(o << what << " keys in " << bits << " bits, " << hashes << " hashes");
      g.insert(v.begin(), v.end()); MC_TRUE(g == f); MC_TRUE(g.contains_all(v.begin(), v.end()) == v.end()); MC_TRUE(e.contains_none(v.begin(), v.end()) == v.end()); MC_EQM(g.hash_count(), (size_t)hashes, "hash_count");
      for (size_t i = 0; i < v.size(); i += 5)   // first one missing, first one found
      {
         F h(p); for (size_t j = 0; j < v.size(); ++j) if (j != i) h.insert(v[j]); size_t w = v.size(); for (size_t j = 0; j < v.size(); ++j) if (!h.contains(v[j])) { w = j; break; } MC_TRUE(w == v.size() || w == i); MC_EQM((size_t)(h.contains_all(v.begin(), v.end()) - v.begin()), w, "contains_all");
         F k(p); k.insert(v[i]); w = v.size(); for (size_t j = 0; j < v.size(); ++j) if (k.contains(v[j])) { w = j; break; } MC_TRUE(w <= i); MC_EQM((size_t)(k.contains_none(v.begin(), v.end()) - v.begin()), w, "contains_none");
      }
   }
}
MC_SECTION(key_strings) { std::vector<S> v; for (size_t n = 0; n <= 70; ++n) { S s; for (size_t i = 0; i < n; ++i) s += (char)(i * 73 + n); v.push_back(s); } mc::strings(S("a\0\xFF", 3), 1, mc::tier<size_t>(4, 5), [&](const S& s) { v.push_back(s); }); keys(v, "string"); }
// the same bytes are the same key however they are handed over, whatever their length
MC_SECTION(key_forms)
{
   std::vector<size_t> lens; for (size_t n = 1; n <= 24; ++n) lens.push_back(n); for (size_t n : {31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 255u, 256u, 257u, 1000u, 4096u, 65535u, 65536u, 70001u}) lens.push_back(n);
   for (size_t n : lens) for (size_t bits : {8u, 512u, 4099u, 100003u}) for (unsigned hashes : {1u, 7u, 20u}) for (int align = 0; align < 4; ++align)
   {
      MC_CASE(o << "key of " << n << " bytes at alignment " << align << " in " << bits << " bits, " << hashes << " hashes");
      S s; for (size_t i = 0; i < n; ++i) s += (char)(i * 131 + n * 7 + 3);
      const Prm p = params(bits, hashes); F a(p), b(p), c(p), e(p); mc::Buf<unsigned char> k(S((size_t)align, 'x') + s); const unsigned char* q = k.begin() + align;
      a.insert(s); b.insert((const char*)q, n); c.insert(q, n); MC_TRUE(table(a, bits) == table(b, bits)); MC_TRUE(table(a, bits) == table(c, bits)); MC_TRUE(a == b); MC_EQ(b.element_count(), (size_t)1); MC_EQ(c.element_count(), (size_t)1);
      MC_TRUE(a.contains(s)); MC_TRUE(a.contains((const char*)q, n)); MC_TRUE(a.contains(q, n)); MC_TRUE(!e.contains((const char*)q, n)); MC_TRUE(!e.contains(q, n)); MC_TRUE(!e.contains(s));
      std::vector<S> v(3, s); v[1] += "+"; v[2] += "-"; F g(p); g.insert(v.begin(), v.end()); MC_EQM(g.element_count(), (size_t)3, "element_count of a range"); for (auto& x : v) MC_TRUE(g.contains(x));
      size_t set = 0; for (char x : table(a, bits)) for (int i = 0; i < 8; ++i) set += x >> i & 1; MC_TRUE(set >= 1 && set <= hashes);
      mc::outcome(mc::Hash()(n)(bits)(hashes)(set));
   }
}
MC_SECTION(key_ints) { std::vector<int> v; for (int i = -60; i < 60; ++i) v.push_back(i); v.push_back(INT_MAX); v.push_back(INT_MIN); keys(v, "int"); std::vector<unsigned long long> u; for (int b = 0; b < 64; ++b) { u.push_back(1ull << b); } keys(u, "64-bit"); }
MC_SECTION(key_other) { std::vector<char> c; for (int i = 0; i < 256; ++i) c.push_back((char)i); keys(c, "char"); std::vector<short> s; for (int i = -40; i < 40; ++i) s.push_back((short)(i * 811)); keys(s, "short"); std::vector<double> d; for (int i = 0; i < 60; ++i) d.push_back(i * 1.37 - 20); keys(d, "double"); }
// set operations work on every byte of the table, whatever its size
MC_SECTION(sizes)
{
   std::vector<size_t> bits; for (size_t by = 1; by <= 140; ++by) { bits.push_back(8 * by); bits.push_back(8 * by - 7); }
   for (size_t by : {255u, 256u, 257u, 511u, 512u, 513u, 1000u, 1023u, 1025u, 4095u, 4097u, 8191u, 8192u, 8193u, 65535u, 65536u, 65537u, 131073u}) for (size_t d : {7u, 3u, 0u}) bits.push_back(8 * by - d);
   for (size_t n : bits) for (int fill = 0; fill < 3; ++fill) for (int pos = 0; pos < 3; ++pos)
   {
      MC_CASE(o << n << " bits, filling " << fill << ", key at " << pos);
      // the filling: every bit set, half of them, or a few; then one more key set in B alone
      const Prm p = params(n, 1, 7); F a(p), b(p); const size_t many = fill == 0 ? 12 * n : fill == 1 ? n : 20; 
      if (many < 2000000 && !(fill == 0 && n > 20000)) for (unsigned i = 0; i < many; ++i) (i % 3 ? a : b).insert(i); else for (unsigned i = 0; i < 60000; ++i) (i % 3 ? a : b).insert(i * 3u);
      for (unsigned k = 0; pos && k < 40; ++k) (pos == 1 ? a : b).insert(k * 77777u + 5);
      const S ta = table(a, n), tb = table(b, n); const size_t na = a.element_count(), nb = b.element_count(); S t0(ta.size(), 0);
      { F c(a); MC_TRUE(table(c, n) == ta); MC_TRUE(c == a); MC_EQ(c == b, ta == tb && na == nb); c |= b; MC_TRUE(table(c, n) == bor(ta, tb)); MC_TRUE(table(a, n) == ta && table(b, n) == tb); }
      { F c(a); c &= b; MC_TRUE(table(c, n) == band(ta, tb)); F d(a & b); MC_TRUE(table(d, n) == band(ta, tb)); F e(a | b); MC_TRUE(table(e, n) == bor(ta, tb)); F g(a ^ b); MC_TRUE(table(g, n) == bxor(ta, tb)); g = a; MC_TRUE(g == a && table(g, n) == ta); }
      { F c(a); c ^= b; MC_TRUE(table(c, n) == bxor(ta, tb)); c ^= c; MC_TRUE(table(c, n) == t0); c = a; c |= c; c &= c; MC_TRUE(table(c, n) == ta); c = c; MC_TRUE(table(c, n) == ta); }
      { F c(a), z(p); c &= z; MC_TRUE(table(c, n) == t0); c = b; MC_TRUE(table(c, n) == tb); c.clear(); MC_TRUE(table(c, n) == t0); MC_EQ(c.element_count(), (size_t)0); MC_TRUE(c == z); }
      // filters of one key each are equal only when every bit is: each byte decides
      mc::outcome(mc::Hash()(n)(ta)(tb));
   }
   for (size_t n : bits) if (n <= 1200)
   {
      MC_CASE(o << "every bit of " << n << " decides equality");
      const Prm p = params(n, 1, 7); std::set<size_t> seen; const F e(p); const size_t NB = n;
      for (unsigned i = 0; i < 40 * n && seen.size() < NB; ++i) { F f(p); f.insert(i); const S t = table(f, n); size_t at = 0; while (!t[at / 8]) at += 8; while (!(t[at / 8] >> (at % 8) & 1)) ++at; if (!seen.insert(at).second) continue; MC_TRUE(!(f == e)); MC_TRUE(f != e); F u(e); u |= f; MC_TRUE(table(u, n) == t); u ^= f; MC_TRUE(table(u, n) == table(e, n)); MC_TRUE(at < n); }
      MC_TRUE(seen.size() * 10 >= NB * 9); mc::outcome(mc::Hash()(n)(seen.size()));
   }
}
MC_SECTION(incompatible)
{
   // combining with a filter of another shape changes nothing
   const Prm base = params(64, 3, 7); const Prm other[] = {params(72, 3, 7), params(63, 3, 7), params(64, 4, 7), params(64, 3, 8), params(6400, 3, 7)};
   for (auto& q : other) for (int op = 0; op < 6; ++op)
   {
      MC_CASE(o << "combine with another shape, operation " << op);
      F a(base), b(q); a.insert(S("x")); b.insert(S("y")); const F before(a); switch (op) { case 0: a |= b; break; case 1: a &= b; break; case 2: a ^= b; break; case 3: a = a | b; break; case 4: a = a & b; break; case 5: a = a ^ b; break; }
      MC_TRUE(a == before); MC_TRUE(a != b); b = a; MC_TRUE(a == b); MC_TRUE(b.contains(S("x"))); b.insert(S("z")); MC_TRUE(b.contains(S("z"))); MC_TRUE(a != b); mc::outcome(mc::Hash()(op)((uint64_t)q.optimal_parameters.table_size)((uint64_t)q.optimal_parameters.number_of_hashes));
   }
   MC_CASE(o << "default constructed"); F e, e2(e); MC_EQM(!e, true, "operator!"); MC_TRUE(e == e2); F a(base); a.insert(S("x")); e = a; MC_TRUE(e == a && e.contains(S("x"))); a = F(); MC_TRUE(!a); a.clear(); MC_EQ(a.element_count(), (size_t)0);
}
static bool ok_params(Prm& p, double lo, double hi)
{ return !(p.minimum_size > p.maximum_size || p.minimum_number_of_hashes > p.maximum_number_of_hashes || p.minimum_number_of_hashes < 1 || p.projected_element_count == 0 || !(p.false_positive_probability > lo) || !(p.false_positive_probability <= hi) || p.random_seed == 0 || p.random_seed == ~0ull); }
MC_SECTION(parameters)
{
   for (unsigned long long n : {0ull, 1ull, 2ull, 3ull, 10ull, 100ull, 1000ull, 12345ull, 1000000ull}) for (double f : {0.0, -0.5, 1e-9, 1e-4, 0.001, 0.01, 0.1, 0.3, 0.5, 0.9, 0.999, 1.0, 2.0, HUGE_VAL, -HUGE_VAL, std::nan("")})
      for (auto& sz : std::vector<std::pair<unsigned long long,unsigned long long> >{{1, ~0ull}, {1, 1000}, {77, 77}, {100000, ~0ull}, {8, 7}}) for (auto& hs : std::vector<std::pair<unsigned,unsigned> >{{1, ~0u}, {1, 2}, {5, 5}, {20, 30}, {0, 4}, {3, 2}}) for (unsigned long long seed : {1ull, 0ull, ~0ull})
      {
         if (std::isnan(f)) continue;      // not a number: not specified
         MC_CASE(o << "elements " << n << " probability " << f << " size " << sz.first << ".." << sz.second << " hashes " << hs.first << ".." << hs.second << " seed " << seed);
         Prm p; p.projected_element_count = n; p.false_positive_probability = f; p.minimum_size = sz.first; p.maximum_size = sz.second; p.minimum_number_of_hashes = hs.first; p.maximum_number_of_hashes = hs.second; p.random_seed = seed;
         const bool ok = ok_params(p, 0.0, 1.0); MC_EQM(!p, !ok, "operator!"); MC_EQM(p.compute_optimal_parameters(), ok, "compute_optimal_parameters");
         if (!ok) { MC_EQM((size_t)p.optimal_parameters.table_size, (size_t)0, "nothing computed"); continue; }
         const unsigned long long m = p.optimal_parameters.table_size; const unsigned k = p.optimal_parameters.number_of_hashes;
         MC_TRUE(m >= sz.first && m <= sz.second && k >= hs.first && k <= hs.second);
         if (m > sz.first && m < sz.second && k > hs.first && k < hs.second)
         {
            MC_EQM(m % 8, 0ull, "whole bytes"); const double fpp = std::pow(1.0 - std::exp(-1.0 * k * n / m), (double)k); MC_TRUE(fpp <= f * (1 + 4.0 * k / m));
            double best = HUGE_VAL; for (double kk = 1; kk < 1000; ++kk) best = std::min(best, -kk * n / std::log(1.0 - std::pow(f, 1.0 / kk))); MC_TRUE((double)m <= best + 8.0 && (double)m >= std::floor(best));
         }
         if (m < 3000000) { F x(p); x.insert(S("k")); MC_TRUE(x.contains(S("k"))); MC_EQM((unsigned long long)x.size(), m, "size"); MC_EQM(x.hash_count(), (size_t)k, "hash_count"); if (seed == 1) { mc::Buf<char> b(100); strtk::binary::writer w(b.begin(), 100); MC_TRUE(w(p)); Prm q; strtk::binary::reader r(b.begin(), 100); MC_TRUE(r(q)); MC_TRUE(q.projected_element_count == n && q.false_positive_probability == f && q.minimum_size == sz.first && q.maximum_size == sz.second && q.minimum_number_of_hashes == hs.first && q.maximum_number_of_hashes == hs.second && q.random_seed == seed); q.compute_optimal_parameters(); F y(q); y.insert(S("k")); MC_TRUE(x == y); } }
         mc::outcome(mc::Hash()(m)(k));
      }
}
MC_SECTION(false_positives)
{
   // all of a range of keys is inserted, all of a disjoint range probed: the rate is what was asked for (within a factor)
   for (double fpp : {0.2, 0.05, 0.01, 0.001}) for (int n : {100, 1000, 5000}) for (int form = 0; form < 3; ++form)
   {
      MC_CASE(o << "rate " << fpp << " with " << n << " keys, form " << form);
      Prm p; p.projected_element_count = n; p.false_positive_probability = fpp; p.random_seed = 0xA5A5A5A5; MC_TRUE(p.compute_optimal_parameters()); F f(p);
      auto key = [&](int i) { return form == 0 ? S((const char*)&i, 4) : form == 1 ? std::to_string(i) : "some longer key number " + std::to_string(i * 7919); };
      for (int i = 0; i < n; ++i) f.insert(key(i)); for (int i = 0; i < n; ++i) MC_TRUE(f.contains(key(i)));
      int hit = 0; const int M = 20000; for (int i = 0; i < M; ++i) hit += f.contains(key(1000000 + i));
      mc::note("false positive probes", M); const double rate = (double)hit / M; if (getenv("SHOW")) fprintf(stderr, "%g %d %d -> %g\n", fpp, n, form, rate / fpp); MC_TRUE(rate <= fpp * 8 + 0.005); MC_TRUE(f.effective_fpp() <= fpp * 1.2 + 1e-9); mc::outcome(mc::Hash()(n)(form)((uint64_t)hit));
   }
}
MC_MAIN
