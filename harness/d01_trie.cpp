// D01: a prefix trie is a map: find gives the last value inserted for exactly that key, find_prefix whether some key starts with it.
#include "split_model.hpp"
#include <list>
typedef std::string S;
typedef strtk::prefix_trie<int>::std_string Trie;
typedef strtk::trie::prefix<unsigned int*,S> UTrie;
typedef strtk::prefix_trie<int>::const_char_ptr CTrie;
typedef std::map<S,int> Map;

static bool has_prefix(const Map& m, const S& p) { if (p.empty()) return false; Map::const_iterator i = m.lower_bound(p); return i != m.end() && i->first.compare(0, p.size(), p) == 0; }
static void look(Trie& t, CTrie& c, UTrie& u, const Map& m, const std::vector<S>& probes)
{
   for (auto& k : probes)
   {
      const bool in = m.count(k) != 0; const int want = in ? m.find(k)->second : -9; const bool pre = has_prefix(m, k);
      int v = -9; MC_EQM(strtk::trie::find(t, k, v), in, "find"); MC_EQM(v, want, "value");
      v = -9; MC_EQM(t.find(k.begin(), k.end(), v), in, "find over iterators"); MC_EQM(v, want, "value");
      MC_EQM(strtk::trie::find_prefix(t, k), pre, "find_prefix"); MC_EQM(t.find_prefix(k.begin(), k.end()), pre, "find_prefix over iterators");
      if (k.find('\0') == S::npos) { v = -9; MC_EQM(strtk::trie::find(t, k.c_str(), v), in, "find over a C string"); MC_EQM(v, want, "value"); MC_EQM(strtk::trie::find_prefix(t, k.c_str()), pre, "find_prefix over a C string"); }
      mc::Buf<char> b(k); v = -9; const char* p = b.begin(); MC_EQM(c.find(p, p + b.n, v), in, "find over char pointers"); MC_EQM(v, want, "value"); MC_EQM(c.find_prefix(p, p + b.n), pre, "find_prefix over char pointers");
      mc::Buf<unsigned> w(k.size()); for (size_t i = 0; i < k.size(); ++i) w.begin()[i] = (unsigned char)k[i]; S sv = "-9"; MC_EQM(u.find(w.begin(), w.end(), sv), in, "find over words"); MC_EQM(sv, std::to_string(want), "string value"); MC_EQM(u.find_prefix(w.begin(), w.end()), pre, "find_prefix over words");
      std::list<char> l(k.begin(), k.end()); v = -9; MC_EQM(t.find(l.begin(), l.end(), v), in, "find over another iterator type");
   }
}
static void put(Trie& t, CTrie& c, UTrie& u, Map& m, const S& k, int v, int how)
{
   mc::transition();
   if (how == 0 || k.find('\0') != S::npos) strtk::trie::insert(t, k, v); else if (how == 1) strtk::trie::insert(t, k.c_str(), v); else t.insert(k.begin(), k.end(), v);
   mc::Buf<char> b(k); c.insert((const char*)b.begin(), (const char*)b.end(), v);
   mc::Buf<unsigned> w(k.size()); for (size_t i = 0; i < k.size(); ++i) w.begin()[i] = (unsigned char)k[i]; u.insert(w.begin(), w.end(), std::to_string(v));
   if (!k.empty()) m[k] = v;
}
static void histories(const S& alphabet, size_t klen, size_t depth, int how)
{
   std::vector<S> keys, probes; mc::strings(alphabet, 0, klen, [&](const S& s) { keys.push_back(s); }); mc::strings(alphabet, 0, klen + 1, [&](const S& s) { probes.push_back(s); });
   for (size_t d = 0; d <= depth; ++d) mc::tuples(keys.size(), d, [&](const std::vector<size_t>& ix) {
      std::vector<S> h; for (size_t i : ix) h.push_back(keys[i]);
      MC_CASE(o << "insert " << h << " form " << how);
      Trie t; CTrie c; UTrie u; Map m; int v = 10; for (auto& k : h) put(t, c, u, m, k, v++, how);
      look(t, c, u, m, probes); mc::trace(); mc::Hash s; for (auto& e : m) s(e.first)((uint64_t)e.second); mc::state(s); mc::outcome(s);
   });
}
MC_SECTION(two_letters) { histories("ab", 3, mc::tier<size_t>(3, 4), 0); }
MC_SECTION(two_letters_c_strings) { histories("ab", 2, mc::tier<size_t>(4, 5), 1); }
MC_SECTION(bytes) { histories(S("\0\x80\xFF", 3), 2, mc::tier<size_t>(3, 4), 2); }
MC_SECTION(one_letter) { histories("a", 5, mc::tier<size_t>(4, 6), 2); }
MC_SECTION(wide)
{
   // all one and two byte keys, inserted in several orders, with and without every other one
   for (int step : {1, 3, 7, 255}) for (int skip = 0; skip < 2; ++skip)
   {
      Trie t; CTrie c; UTrie u; Map m; std::vector<S> probes; MC_CASE(o << "all bytes, step " << step << " skip " << skip);
      for (int i = 0; i < 256; ++i) { const int b = (i * step) & 255; if (!(skip && (b & 1))) put(t, c, u, m, S(1, (char)b), b, 0); if (b % 3 == 0) put(t, c, u, m, S(1, (char)b) + (char)(255 - b), 1000 + b, 0); probes.push_back(S(1, (char)i)); probes.push_back(S(1, (char)i) + (char)(255 - i)); probes.push_back(S(1, (char)i) + (char)i); }
      look(t, c, u, m, probes); mc::outcome(mc::Hash()(step)(skip));
   }
   for (size_t n : {15u, 16u, 17u, 64u, 200u, 1000u}) { MC_CASE(o << "key of " << n); Trie t; CTrie c; UTrie u; Map m; S k; for (size_t i = 0; i < n; ++i) k += (char)(i * 7); put(t, c, u, m, k, 5, 0); put(t, c, u, m, k.substr(0, n / 2), 6, 0); put(t, c, u, m, k.substr(0, n - 1) + "!", 7, 0); std::vector<S> probes; for (size_t i = 0; i <= n; i += n > 100 ? 13 : 1) { probes.push_back(k.substr(0, i)); probes.push_back(k.substr(0, i) + "!"); } probes.push_back(k); look(t, c, u, m, probes); mc::outcome(mc::Hash()(n)); }
   { MC_CASE(o << "default value"); Trie t; int v = 5; strtk::trie::insert(t, S("k")); MC_TRUE(strtk::trie::find(t, S("k"), v)); MC_EQ(v, 0); }
}
MC_SECTION(copies)
{
   // every history: copy after i insertions (constructed, or assigned over a trie that held something), go on with either; both answer as maps of their own
   const size_t klen = 2, depth = mc::tier<size_t>(3, 4);
   std::vector<S> keys, probes; mc::strings("ab", 0, klen, [&](const S& s) { keys.push_back(s); }); mc::strings("ab", 0, klen + 1, [&](const S& s) { probes.push_back(s); });
   for (size_t d = 0; d <= depth; ++d) mc::tuples(keys.size(), d, [&](const std::vector<size_t>& ix) { for (size_t at = 0; at <= d; ++at) for (int how = 0; how < 4; ++how) for (int side = 0; side < 3; ++side) {
      MC_CASE(o << "insert "; for (size_t i : ix) o << keys[i] << " "; o << "copied after " << at << " how " << how << " side " << side);
      Trie t; CTrie c; UTrie u; Map m; int v = 10; for (size_t i = 0; i < at; ++i) put(t, c, u, m, keys[ix[i]], v++, 0);
      Trie t0; CTrie c0; UTrie u0; Map m0; if (how == 2) { put(t0, c0, u0, m0, "ba", 1, 0); put(t0, c0, u0, m0, "aab", 2, 0); }
      if (how == 0) { { Trie x(t); CTrie y(c); UTrie z(u); t0 = x; c0 = y; u0 = z; } } else { Trie& r = t0 = t; CTrie& s = c0 = c; UTrie& w = u0 = u; MC_TRUE(&r == &t0 && &s == &c0 && &w == &u0); }
      if (how == 3) { Trie& ts = t; CTrie& cs = c; UTrie& us = u; t = ts; c = cs; u = us; t0 = ts; c0 = cs; u0 = us; }
      Trie t1(t); CTrie c1(c); UTrie u1(u); Map m1(m); m0 = m;
      for (size_t i = at; i < d; ++i) { if (side == 0) put(t, c, u, m, keys[ix[i]], v++, 0); else if (side == 1) put(t0, c0, u0, m0, keys[ix[i]], v++, 0); else put(t1, c1, u1, m1, keys[ix[i]], v++, 0); }
      look(t, c, u, m, probes); look(t0, c0, u0, m0, probes); look(t1, c1, u1, m1, probes); mc::trace(); mc::Hash h; for (auto& e : m) h(e.first)((uint64_t)e.second); mc::state(h); mc::outcome(h((uint64_t)at));
   } });
}
MC_SECTION(memory)
{
   // whatever was inserted, copied and assigned, nothing is left when the tries are gone
   std::vector<S> keys; mc::strings("ab", 0, 2, [&](const S& s) { keys.push_back(s); });
   for (size_t d = 0; d <= mc::tier<size_t>(3, 4); ++d) mc::tuples(keys.size(), d, [&](const std::vector<size_t>& ix) { for (int how = 0; how < 4; ++how) {
      MC_CASE(o << "insert "; for (size_t i : ix) o << keys[i] << " "; o << "how " << how);
      const size_t before = mc::live_bytes();
      { UTrie u, w; std::vector<unsigned> k; for (size_t i : ix) { k.assign(keys[i].begin(), keys[i].end()); u.insert(k.data(), k.data() + k.size(), keys[i] + " a value too long to be kept inside of the string object"); } if (how == 1) w = u; if (how == 2) { UTrie x(u); w = x; x = w; } if (how == 3) { w = u; u = UTrie(); } std::vector<UTrie> v(2, u); v.resize(3); S t; UTrie& z = u; if (how) u = z; u.find(k.data(), k.data() + k.size(), t); }
      MC_EQM(mc::live_bytes(), before, "memory left"); mc::trace(); mc::outcome(mc::Hash()((uint64_t)d)(how));
   } });
}
MC_SECTION(huge)
{
   for (size_t n : {65535u, 65536u, 65537u, 300000u, 1500000u}) { MC_CASE(o << "key of " << n); Trie t; CTrie c; UTrie u; Map m; S k; for (size_t i = 0; i < n; ++i) k += (char)('a' + (i ^ (i >> 8)) % 26); put(t, c, u, m, k, 5, 0); put(t, c, u, m, k.substr(0, n / 2), 6, 0); put(t, c, u, m, k.substr(0, n - 1) + "!", 7, 0);
      std::vector<S> probes; for (size_t i : {size_t(1), n / 2 - 1, n / 2, n / 2 + 1, n - 1, n}) { probes.push_back(k.substr(0, i)); probes.push_back(k.substr(0, i) + "!"); } probes.push_back(k.substr(0, n - 1) + "!"); look(t, c, u, m, probes); Trie t1(t); CTrie c1(c); UTrie u1(u); look(t1, c1, u1, m, probes); mc::outcome(mc::Hash()(n)); }
   // many keys
   for (size_t n : {70000u}) { MC_CASE(o << n << " keys"); Trie t; CTrie c; UTrie u; Map m; std::vector<S> probes; for (size_t i = 0; i < n; ++i) { const size_t x = (i * 40503u) % 131072u; const S k = std::to_string(x); if (i & 1) put(t, c, u, m, k, (int)x, 0); else if (probes.size() < 20000) probes.push_back(k); if (probes.size() < 20000) { probes.push_back(k); probes.push_back(k.substr(0, 3)); } } look(t, c, u, m, probes); mc::outcome(mc::Hash()(n)); }
   // every byte at every place of keys of a length, and every pair of bytes
   { MC_CASE(o << "all pairs of bytes"); Trie t; CTrie c; UTrie u; Map m; std::vector<S> probes; for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; b += 5) { const S k = S(1, (char)a) + (char)b; if ((a + b) % 3) put(t, c, u, m, k, a * 256 + b, 0); probes.push_back(k); } look(t, c, u, m, probes); }
}
MC_MAIN
