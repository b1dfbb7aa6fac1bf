// C02: randomised selection is decided only by the values its generator returns: every outcome, each as likely as any other.
#include "mc.hpp"
#ifndef strtk_enable_random
#define strtk_enable_random
#endif
#include "strtk.hpp"
#include <deque>
#include <list>
typedef std::string S;

// A generator whose answers are enumerated: depth-first over all sequences of L equally likely values in [0,1).
struct Tree
{
   std::vector<unsigned> path; std::vector<unsigned> width; size_t at; double weight;
   Tree() : at(0), weight(1) {}
   void begin() { at = 0; weight = 1; }
   bool next() { while (!path.empty() && path.back() + 1 == width.back()) { path.pop_back(); width.pop_back(); } if (path.empty()) return false; ++path.back(); return true; }
};
struct Rng
{
   Tree* t; unsigned L; int edge;
   double min() const { return 0.0; }
   double max() const { return 1.0; }
   double operator()()
   {
      if (t->at == t->path.size()) { t->path.push_back(0); t->width.push_back(L); }
      const unsigned v = t->path[t->at++]; t->weight /= L; mc::transition();
      if (edge == 0) return (v + 0.5) / L;                                             // middle of the v'th of L equal parts
      return v == 0 ? 0.0 : v == L - 1 ? std::nextafter(1.0, 0.0) : (double)v / L;     // its boundaries
   }
};
struct OutOfUnit { double lo, hi; int calls; double min() const { return lo; } double max() const { return hi; } double operator()() { ++calls; return 0.5; } };
static const S ITEMS = "abcdefghijkl";
static unsigned long long fact(unsigned n) { return n < 2 ? 1 : n * fact(n - 1); }

// L = lcm(1..n): every threshold i/n falls between two values, so counts are exact
static const unsigned LCM[] = {1, 1, 2, 6, 12, 60, 60};
typedef std::map<S,double> Dist;
MC_SECTION(permutations)
{
   for (unsigned n = 0; n <= mc::tier(4u, 5u); ++n) for (int edge = 0; edge < 2; ++edge) for (int form = 0; form < 2; ++form)
   {
      const unsigned L = edge ? 3 : LCM[n]; Dist d; Tree t;
      if (n == 5 && !edge && form) continue;
      do
      {
         t.begin(); Rng r = {&t, L, edge}; S in = ITEMS.substr(0, n), out;
         MC_CASE(o << "permutation of " << n << " with generator answers " << t.path);
         if (form) { mc::Buf<char> b(n); std::vector<char> v(in.begin(), in.end()); strtk::random_permutation(v.begin(), v.end(), r, b.begin()); out = b.str(); } else strtk::random_permutation(in.begin(), in.end(), r, mc::append(out));
         S s = out; std::sort(s.begin(), s.end()); MC_EQM(s, in, "a permutation of the input"); d[out] += t.weight; mc::trace();
         mc::outcome(mc::Hash()(out)(edge));
      }
      while (t.next());
      if (!edge) { MC_CASE(o << "all permutations of " << n); MC_EQM((unsigned long long)d.size(), fact(n), "every permutation occurs"); for (auto& p : d) { MC_TRUE(std::fabs(p.second * fact(n) - 1) < 1e-9); mc::state(mc::Hash()(p.first)); } }
   }
}
MC_SECTION(combinations)
{
   for (unsigned n = 0; n <= mc::tier(4u, 5u); ++n) for (unsigned k = 0; k <= n + 1; ++k) for (int edge = 0; edge < 2; ++edge)
   {
      if (k > 4) continue;
      const unsigned L = edge ? 3 : LCM[n]; Dist d; Tree t;
      do
      {
         t.begin(); Rng r = {&t, L, edge}; S in = ITEMS.substr(0, n), out;
         MC_CASE(o << k << " of " << n << " with generator answers " << t.path);
         MC_EQM(strtk::random_combination(in.begin(), in.end(), k, r, mc::append(out)), k <= n, "random_combination");
         if (k > n) { MC_EQM(out, S(), "nothing selected"); continue; }
         MC_EQM(out.size(), (size_t)k, "size"); S s = out; std::sort(s.begin(), s.end()); MC_TRUE(std::unique(s.begin(), s.end()) == s.end()); for (char c : s) MC_TRUE(in.find(c) != S::npos); d[s] += t.weight; mc::trace(); mc::outcome(mc::Hash()(out)(n)(edge));
      }
      while (t.next());
      if (!edge && k <= n) { const double c = (double)fact(n) / fact(k) / fact(n - k); MC_CASE(o << "all combinations of " << k << " of " << n); MC_EQM((double)d.size(), c, "every combination occurs"); for (auto& p : d) { MC_TRUE(std::fabs(p.second * c - 1) < 1e-9); mc::state(mc::Hash()(p.first)(n)); } }
   }
}
MC_SECTION(select_k)
{
   for (unsigned n = 0; n <= mc::tier(5u, 6u); ++n) for (unsigned k = 0; k <= n + 2; ++k) for (int edge = 0; edge < 2; ++edge) for (int form = 0; form < 2; ++form)
   {
      if (k && n > k + 3 && n > 5) continue;
      const unsigned L = edge ? 3 : n <= 4 ? 12 : n == 5 ? (k >= 3 || k == 0 ? 60 : 60) : 60;
      if (!edge && n > 3 && n - std::min(n, k) > (n == 4 || mc::thorough() ? 2u : 1u)) continue;       // 60^(2*(n-k)) answers
      std::vector<double> hit(n, 0.0); Tree t; double total = 0;
      do
      {
         t.begin(); Rng r = {&t, L, edge}; S in = ITEMS.substr(0, n), out; size_t got;
         MC_CASE(o << "select " << k << " of " << n << " with generator answers " << t.path);
         if (form) { std::list<char> l(in.begin(), in.end()); mc::Buf<char> b(std::min(n, k)); got = strtk::select_k_randomly(l.begin(), l.end(), k, b.begin(), r); out = b.str(); } else got = strtk::select_k_randomly(in.begin(), in.end(), k, mc::append(out), r);
         MC_EQM(got, (size_t)std::min(n, k), "number selected"); MC_EQM(out.size(), got, "elements delivered");
         S s = out; std::sort(s.begin(), s.end()); MC_TRUE(std::unique(s.begin(), s.end()) == s.end()); for (char c : s) { MC_TRUE(in.find(c) != S::npos); hit[in.find(c)] += t.weight; } total += t.weight; mc::trace(); mc::state(mc::Hash()(s)(n)(k)); mc::outcome(mc::Hash()(out)(n)(edge));
      }
      while (t.next());
      if (!edge) for (unsigned i = 0; i < n; ++i) { MC_CASE(o << "element " << i << " of " << n << " among " << k); MC_TRUE(std::fabs(hit[i] - std::min(1.0, (double)k / n)) < 1e-9); }
      MC_CASE(o << "weights"); MC_TRUE(std::fabs(total - 1) < 1e-9);
   }
}
MC_SECTION(select_1)
{
   for (unsigned n = 0; n <= mc::tier(5u, 6u); ++n) for (int edge = 0; edge < 2; ++edge)
   {
      if (n > 5 && !edge) continue;
      std::vector<double> hit(n, 0.0); Tree t; const unsigned L = edge ? 3 : n <= 4 ? 12 : 60;
      if (n == 5 && !edge && !mc::thorough()) continue;
      do
      {
         t.begin(); Rng r = {&t, L, edge}; S in = ITEMS.substr(0, n), out; MC_CASE(o << "select 1 of " << n << " with generator answers " << t.path);
         strtk::select_1_randomly(in.begin(), in.end(), mc::append(out), r); MC_EQM(out.size(), (size_t)(n ? 1 : 0), "one element"); if (n) { MC_TRUE(in.find(out[0]) != S::npos); hit[in.find(out[0])] += t.weight; } mc::trace(); mc::outcome(mc::Hash()(out)(n)(edge));
      }
      while (t.next());
      if (!edge) for (unsigned i = 0; i < n; ++i) { MC_CASE(o << "element " << i << " of " << n); MC_TRUE(std::fabs(hit[i] - 1.0 / n) < 1e-9); }
   }
}
// Larger inputs: prefixes of generator answers are merged when every probed continuation gives the same outcome after the
// same number of answers, so the whole tree of answers is covered level by level, one representative per class.
struct Probe
{
   const std::vector<unsigned>* path; unsigned L; int tail; size_t at;
   double min() const { return 0.0; }
   double max() const { return 1.0; }
   double operator()()
   {
      const size_t i = at++; mc::transition();
      unsigned v;
      if (i < path->size()) v = (*path)[i];
      else switch (tail) { case 0: v = 0; break; case 1: v = L - 1; break; case 2: v = L / 2; break; case 3: v = i & 1 ? 0 : L - 1; break; case 4: v = (unsigned)((i * 7 + 3) * (L / 12 ? L / 12 : 1) % L); break; default: v = (unsigned)((i * i + 5) * (L / 8 ? L / 8 : 1) % L); }
      return (v + 0.5) / L;
   }
};
template <typename F> static std::map<S,double> merged(unsigned L, F run)
{
   struct Node { std::vector<unsigned> path; double weight; };
   std::map<S,double> d; std::vector<Node> level; level.push_back(Node{std::vector<unsigned>(), 1.0});
   { std::vector<unsigned> none; Probe p = {&none, L, 0, 0}; const S o = run(p); if (!p.at) { d[o] = 1; return d; } }
   while (!level.empty())
   {
      std::map<std::vector<S>,Node> next;
      for (Node& node : level) for (unsigned v = 0; v < L; ++v)
      {
         std::vector<unsigned> path = node.path; path.push_back(v);
         std::vector<S> sig; bool done = false;
         for (int tail = 0; tail < 6 && !done; ++tail) { Probe p = {&path, L, tail, 0}; S o = run(p); mc::trace(); if (p.at <= path.size()) { d[o] += node.weight / L; done = true; } else sig.push_back(o + "/" + std::to_string(p.at)); }
         if (done) continue;
         Node& n = next[sig]; if (n.path.empty()) { n.path = path; n.weight = 0; mc::state(mc::Hash()(path.size())(sig[0])(sig[1])(sig[4])(sig[5])); } n.weight += node.weight / L;
      }
      level.clear(); for (auto& n : next) level.push_back(n.second);
   }
   return d;
}
static const unsigned LCMS[] = {1, 1, 2, 6, 12, 60, 60, 420, 840, 2520, 2520};
MC_SECTION(larger_select)
{
   for (unsigned n = 5; n <= mc::tier(9u, 10u); ++n)
   {
      const S in = ITEMS.substr(0, n);
      MC_CASE(o << "select 1 of " << n << ", every answer of the generator on a grid of " << LCMS[n]);
      auto d = merged(LCMS[n], [&](Probe& p) { S out; strtk::select_1_randomly(in.begin(), in.end(), mc::append(out), p); return out; });
      MC_EQM(d.size(), (size_t)n, "every element can be selected"); for (auto& x : d) { if (std::fabs(x.second * n - 1) > 1e-9) { mc::Out o; o << x.first << " has weight " << x.second * n << " / " << n; mc::fail(o.str()); } mc::outcome(mc::Hash()(x.first)(n)); }
      for (unsigned k = 1; k <= (n <= 7 ? 3u : 2u) && n <= mc::tier(8u, 9u); ++k)
      {
         MC_CASE(o << "select " << k << " of " << n << ", every answer of the generator on a grid of " << LCMS[n]);
         auto e = merged(LCMS[n], [&](Probe& p) { S out; strtk::select_k_randomly(in.begin(), in.end(), k, mc::append(out), p); return out; });
         std::vector<double> hit(n, 0.0); for (auto& x : e) { MC_EQ(x.first.size(), (size_t)k); for (char c : x.first) hit[in.find(c)] += x.second; mc::outcome(mc::Hash()(x.first)(n)); }
         for (unsigned i = 0; i < n; ++i) if (std::fabs(hit[i] * n / k - 1) > 1e-9) { mc::Out o; o << "element " << i << " has probability " << hit[i] << " want " << k << "/" << n; mc::fail(o.str()); }
      }
   }
}
MC_SECTION(larger_shuffles)
{
   for (unsigned n = 5; n <= mc::tier(6u, 7u); ++n)
   {
      const S in = ITEMS.substr(0, n);
      MC_CASE(o << "permutation of " << n << ", every answer of the generator on a grid of " << LCMS[n]);
      auto d = merged(LCMS[n], [&](Probe& p) { S out; strtk::random_permutation(in.begin(), in.end(), p, mc::append(out)); return out; });
      MC_EQM((unsigned long long)d.size(), fact(n), "every permutation occurs"); for (auto& x : d) { MC_TRUE(std::fabs(x.second * fact(n) - 1) < 1e-9); mc::outcome(mc::Hash()(x.first)); }
   }
   for (unsigned n = 5; n <= mc::tier(8u, 9u); ++n) for (unsigned k = 1; k <= (n < 7 ? 4u : n == 7 ? 3u : 2u); ++k)
   {
      const S in = ITEMS.substr(0, n);
      MC_CASE(o << "combination of " << k << " of " << n << ", every answer of the generator on a grid of " << LCMS[n]);
      auto d = merged(LCMS[n], [&](Probe& p) { S out; strtk::random_combination(in.begin(), in.end(), k, p, mc::append(out)); std::sort(out.begin(), out.end()); return out; });
      const double c = (double)fact(n) / fact(k) / fact(n - k);
      MC_EQM((double)d.size(), c, "every combination occurs"); for (auto& x : d) { MC_TRUE(std::fabs(x.second * c - 1) < 1e-9); mc::outcome(mc::Hash()(x.first)(n)); }
   }
}
MC_SECTION(refused_generators)
{
   for (int k = 0; k < 3; ++k) { MC_CASE(o << "generator outside [0,1] " << k); OutOfUnit r = {k == 1 ? 0.0 : -1.0, k == 0 ? 1.0 : 2.0, 0}; S in = "abc", out; strtk::random_permutation(in.begin(), in.end(), r, mc::append(out)); MC_EQ(out, S()); MC_EQ(strtk::random_combination(in.begin(), in.end(), 2, r, mc::append(out)), false); MC_EQ(out, S()); MC_EQ(r.calls, 0); mc::outcome(k); }
}
// the generator the seeded forms are documented to use, with the first numbers dropped
struct Engine
{
   boost::mt19937 rng; boost::variate_generator<boost::mt19937&, boost::uniform_real<double> > draw;
   Engine(size_t seed, size_t pregen) : rng((boost::mt19937::result_type)seed), draw(rng, boost::uniform_real<double>(0.0, 1.0)) { while (pregen--) rng(); }
};
MC_SECTION(seeded_forms)
{
   for (size_t n = 0; n <= 40; ++n) for (size_t seed = 1; seed <= mc::tier<size_t>(12, 60); ++seed) for (size_t pre : {0u, 1u, 2u, 7u})
   {
      MC_CASE(o << "seed " << seed << " pregen " << pre << " size " << n);
      std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back((int)i * 3); std::vector<int> a, b, c; strtk::random_permutation(v.begin(), v.end(), mc::append(a), seed, pre); strtk::random_permutation(v, mc::append(b), seed, pre); MC_EQM(a, b, "same seed, same permutation"); std::sort(b.begin(), b.end()); MC_EQM(b, v, "a permutation");
      for (size_t k : {(size_t)0, (size_t)1, n / 2, n, n + 1}) { std::vector<int> x, y; strtk::random_combination(v.begin(), v.end(), k, mc::append(x), seed, pre); strtk::random_combination(v, k, mc::append(y), seed, pre); MC_EQM(x, y, "same seed, same combination"); MC_EQM(x.size(), k <= n ? k : 0, "size"); std::sort(x.begin(), x.end()); MC_TRUE(std::unique(x.begin(), x.end()) == x.end() && std::includes(v.begin(), v.end(), x.begin(), x.end())); std::vector<int> p; Engine g(seed, pre); strtk::random_combination(v.begin(), v.end(), k, g.draw, mc::append(p)); MC_EQM(y, p, "as with that generator"); }
      { std::vector<int> p; Engine g(seed, pre); strtk::random_permutation(v.begin(), v.end(), g.draw, mc::append(p)); MC_EQM(a, p, "as with that generator"); }
      mc::outcome(mc::Hash()(n)(seed)(pre));
   }
}
template <typename T> static void values(const char* what, T lo, T hi, bool closed)
{
   for (size_t count = 0; count <= 33; ++count) for (size_t seed = 1; seed <= 8; ++seed) for (size_t pre : {0u, 1u, 5u})
   {
      MC_CASE(o << what << " x" << count << " seed " << seed << " pregen " << pre);
      std::vector<T> a, b; strtk::generate_random_values<T>(count, lo, hi, a, seed, pre); MC_EQM(a.size(), count, "count"); for (auto& x : a) MC_TRUE(x >= lo && (closed ? x <= hi : x < hi));
      strtk::generate_random_values<T>(count, lo, hi, mc::append(b), seed, pre); MC_TRUE(a == b); mc::Buf<T> c(count); strtk::generate_random_values<T>(count, lo, hi, c.begin(), seed, pre); MC_TRUE(std::equal(a.begin(), a.end(), c.begin())); std::list<T> l; strtk::generate_random_values<T>(count, lo, hi, l, seed, pre); MC_TRUE(std::vector<T>(l.begin(), l.end()) == a);
      mc::outcome(mc::Hash()(S(what))(count)(seed)(pre));
   }
   for (size_t count : {1u, 5u, 700u}) for (size_t pre : {100u, 255u, 256u, 623u, 624u, 625u, 1248u, 1300u, 66000u})
   {
      MC_CASE(o << what << " x" << count << " pregen " << pre);      // the engine makes its words 624 at a time
      std::vector<T> a, b, x; std::list<T> l; strtk::generate_random_values<T>(count, lo, hi, a, 5, pre); strtk::generate_random_values<T>(count, lo, hi, mc::append(b), 5, pre); MC_TRUE(a == b && a.size() == count); strtk::generate_random_values<T>(count, lo, hi, l, 5, pre); MC_TRUE(std::vector<T>(l.begin(), l.end()) == a);
      x.push_back(lo); strtk::generate_random_values<T>(count, lo, hi, x, 5, pre); MC_TRUE(x.size() == count + 1 && x[0] == lo && std::equal(a.begin(), a.end(), x.begin() + 1)); mc::outcome(mc::Hash()(S(what))(count)(pre));
   }
   std::set<T> seen; std::vector<T> v; strtk::generate_random_values<T>(2000, lo, hi, v); MC_CASE(o << what << " range covered"); for (auto& x : v) { MC_TRUE(x >= lo && (closed ? x <= hi : x < hi)); seen.insert(x); } if (closed && (double)hi - (double)lo < 20) MC_EQM(seen.size(), (size_t)(hi - lo) + 1, "every value of the range"); else MC_TRUE(seen.size() > 1);
}
MC_SECTION(values_)
{
   values<int>("int", -5, 5, true); values<unsigned>("unsigned", 0, 10, true); values<short>("short", -3, 3, true); values<unsigned short>("unsigned short", 7, 9, true); values<long>("long", -2, 1, true); values<unsigned long>("unsigned long", 0, 1, true); values<char>("char", 'a', 'c', true); values<unsigned char>("unsigned char", 250, 255, true);
   values<int>("int all", INT_MIN, INT_MAX, true); values<float>("float", -0.5f, 0.5f, false); values<double>("double", -1.0, 1.0, false); values<long double>("long double", 0.0L, 3.0L, false);
}
MC_SECTION(data)
{
   for (unsigned seed = 1; seed <= 5; ++seed) for (unsigned pre : {0u, 1u, 2u, 3u, 10u})
   {
      mc::Buf<unsigned char> ref(512 + 4 * 16); strtk::generate_random_data(ref.begin(), ref.n, 0, seed);
      for (size_t n = 0; n <= mc::tier<size_t>(300, 512); ++n)
      {
         MC_CASE(o << n << " bytes, seed " << seed << " pregen " << pre);
         mc::Buf<unsigned char> a(n), b(n); for (size_t i = 0; i < n; ++i) { a.begin()[i] = 0; b.begin()[i] = 0xFF; }
         strtk::generate_random_data(a.begin(), n, pre, seed); strtk::generate_random_data(b.begin(), n, pre, seed);
         MC_EQM(a.str(), b.str(), "all bytes set, the same for the same seed");
         const size_t whole = n >= 4 ? (n & 3 ? n - 4 : n) : 0; MC_EQM(a.str().substr(0, whole), ref.str().substr(4 * pre, whole), "bytes after skipping pregen words");
         mc::outcome(mc::Hash()(n)(seed)(pre));
      }
   }
   mc::Buf<unsigned char> d(64), e(64); strtk::generate_random_data(d.begin(), 64); strtk::generate_random_data(e.begin(), 64, 0, strtk::magic_seed); MC_CASE(o << "default seed"); MC_EQ(d.str(), e.str());
   { strtk::uniform_real_rng r(5), q(5), p(5, 3); for (int i = 0; i < 1000; ++i) { MC_CASE(o << "uniform_real_rng " << i); const double x = r(); MC_TRUE(x >= 0 && x < 1 && x == q()); const double y = p(); MC_TRUE(y >= 0 && y < 1); } }
}
MC_MAIN
