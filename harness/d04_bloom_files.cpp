// D04: a bloom filter written to a file is read back equal; truncated, damaged or unwritten files are reported and leave no half filter.
#include "bloom_model.hpp"
#include <sys/resource.h>
#include <signal.h>

static F filled(const Prm& p, int n) { F f(p); for (int i = 0; i < n; ++i) f.insert("key" + std::to_string(i)); return f; }
static void usable_or_empty(F& g) { if (!g) return; g.insert(S("later")); MC_TRUE(g.contains(S("later"))); F c(g); MC_TRUE(c == g); g |= c; g.clear(); }
MC_SECTION(round_trips)
{
   mc::Scratch d; const S f = d.file("bloom");
   for (unsigned long long bits : {1ull, 7ull, 8ull, 9ull, 64ull, 100ull, 1001ull, 40000ull, 600000ull}) for (unsigned hashes : {1u, 2u, 3u, 7u, 20u, 128u, 130u, 300u}) for (int n : {0, 1, 5, 100}) for (unsigned long long seed : {3ull, 0xA5A5A5A55A5A5A5AULL})
   {
      if (bits > 5000 && (hashes > 20 || n == 5)) continue;
      MC_CASE(o << bits << " bits, " << hashes << " hashes, " << n << " keys, seed " << seed);
      const Prm p = params(bits, hashes, seed, 1 + n); F a = filled(p, n); MC_TRUE(a.write_to_file(f));
      F b; MC_TRUE(b.read_from_file(f)); MC_TRUE(b == a); MC_TRUE(!!b); MC_EQ((unsigned long long)b.size(), bits); MC_EQ(b.element_count(), (size_t)n); MC_EQ(b.hash_count(), (size_t)hashes); MC_EQM(table(b, bits), table(a, bits), "table");
      for (int i = 0; i < n; ++i) MC_TRUE(b.contains("key" + std::to_string(i))); b.insert(S("new")); MC_TRUE(b.contains(S("new"))); a.insert(S("new")); MC_TRUE(b == a); MC_EQ(b.effective_fpp(), a.effective_fpp());
      F c = filled(params(333, 5), 9); MC_TRUE(c.read_from_file(f)); c.insert(S("new")); MC_TRUE(c == a);                   // over another filter
      const S bytes1 = mc::slurp(f); MC_TRUE(F(b).write_to_file(f)); F e; MC_TRUE(e.read_from_file(f)); MC_TRUE(e == b); MC_TRUE(mc::slurp(f).size() == bytes1.size());
      mc::outcome(mc::Hash()(bits)((uint64_t)hashes)(n)(seed));
   }
}
// loads far from the one projected, extreme projections and probabilities
MC_SECTION(loads)
{
   mc::Scratch d; const S f = d.file("bloom");
   for (unsigned long long bits : {1ull, 64ull, 1000ull, 9000ull}) for (unsigned long long projected : {1ull, 5ull, 100ull, 70000ull, 5000000000ull}) for (int n : {0, 1, 9, 70, 300, 1100, 1200, 5000, 70000}) for (double fpp : {0.0001, 0.5, 0.999, 1e-12})
   {
      if (n > 5000 && (bits > 1000 || projected > 5 || fpp != 0.5)) continue;
      MC_CASE(o << bits << " bits, " << projected << " keys projected, " << n << " inserted, probability " << fpp);
      Prm p = params(bits, 2, 77, projected); p.false_positive_probability = fpp; F a(p); for (int i = 0; i < n; ++i) a.insert(i); MC_TRUE(a.write_to_file(f));
      F b; MC_TRUE(b.read_from_file(f)); MC_TRUE(b == a); MC_TRUE(!!b); MC_EQ(b.element_count(), (size_t)n); MC_EQM(table(b, bits), table(a, bits), "table"); MC_EQ(b.effective_fpp(), a.effective_fpp());
      CF c(params(640, 3)); MC_TRUE(c.read_from_file(f)); MC_TRUE((F&)c == a); c.insert(n); a.insert(n); MC_TRUE((F&)c == a); mc::outcome(mc::Hash()(bits)(projected)(n));
   }
}
static CF compressed(const Prm& p, int n, const std::vector<double>& chain) { CF f(p); for (int i = 0; i < n; ++i) f.insert("key" + std::to_string(i)); for (double d : chain) f.compress(d); for (int i = 0; i < n; ++i) f.insert("more" + std::to_string(i)); return f; }
static const std::vector<std::vector<double> >& CHAINS() { static const std::vector<std::vector<double> > c = {{}, {50}, {33.4}, {20, 50.2}, {50, 50, 50}, {10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10}, {67.1}}; return c; }
// stored after every chain of compressions, read into every kind of filter
MC_SECTION(compressed_filters)
{
   mc::Scratch d; const S f = d.file("bloom"), t = d.file("cut");
   for (unsigned long long bits : {64ull, 100ull, 1001ull, 4096ull}) for (unsigned hashes : {1u, 3u, 20u}) for (auto& chain : CHAINS()) for (int n : {0, 3})
   {
      const Prm p = params(bits, hashes); CF a = compressed(p, n, chain); MC_CASE(o << bits << " bits, " << hashes << " hashes, " << n << " keys, compressed by " << chain);
      MC_TRUE(a.write_to_file(f)); const S all = mc::slurp(f); MC_TRUE(((const F&)a).write_to_file(t)); MC_TRUE(mc::slurp(t).size() == all.size());
      for (size_t other = 0; other < CHAINS().size() + 2; ++other)
      {
         mc::transition(); MC_CASE(o << bits << " bits, " << hashes << " hashes, " << n << " keys, compressed by " << chain << ", read into filter " << other);
         F pf; CF cf = other < CHAINS().size() ? compressed(params(other % 2 ? 77 : 40960, 4), 2, CHAINS()[other]) : CF(p); F& b = other == CHAINS().size() ? pf : (F&)cf;
         MC_TRUE(b.read_from_file(f)); MC_TRUE(b == a); MC_EQ((unsigned long long)b.size(), (unsigned long long)a.size()); MC_EQ(b.element_count(), a.element_count()); MC_EQM(table(b, b.size()), table(a, a.size()), "table");
         for (int i = 0; i < n; ++i) { MC_TRUE(b.contains("key" + std::to_string(i))); MC_TRUE(b.contains("more" + std::to_string(i))); }
         CF a2(a); for (int i = 0; i < 40; ++i) { a2.insert(i); b.insert(i); } MC_TRUE(b == a2); for (int i = 0; i < 40; ++i) MC_TRUE(b.contains(i));
         if (&b != &pf) { MC_EQ(cf.compress(25), a2.compress(25)); MC_TRUE(cf == a2); for (int i = 0; i < 40; ++i) MC_TRUE(cf.contains(i)); cf |= a2; MC_TRUE(cf == a2); }
         MC_EQ(b.read_from_file(d.dir + "/none"), false); if (&b != &pf) MC_TRUE(b == a2);
         b.clear(); MC_EQM(table(b, b.size()), S((b.size() + 7) / 8, 0), "cleared");
         mc::trace(); mc::outcome(mc::Hash()(all)(other)); mc::state(mc::Hash()(all)(other));
      }
      if (n) for (size_t k = 0; k < all.size(); ++k)
      {
         if (k > 90 && k + 60 < all.size() && k % 37) continue;
         MC_CASE(o << bits << " bits, " << hashes << " hashes, compressed by " << chain << ", first " << k << " of " << all.size() << " bytes"); mc::spill(t, all.substr(0, k)); CF g = compressed(p, 2, {50}); const bool ok = g.read_from_file(t);
         MC_EQM(ok, false, "read_from_file"); MC_EQM(!g, true, "no filter after a failed read"); MC_EQM(g.size(), 0ull, "size after a failed read"); MC_EQ(g.compress(50), false); CF c(g); MC_TRUE(!c); g.clear(); F h; h = g; MC_TRUE(!h); MC_TRUE(g.read_from_file(f)); MC_TRUE(g == a); g.insert(S("z")); MC_TRUE(g.contains(S("z")));
      }
   }
}
MC_SECTION(compressed_damage)
{
   mc::Scratch d; const S f = d.file("bloom"), t = d.file("bad");
   for (unsigned long long bits : {64ull, 1001ull}) for (auto& chain : CHAINS())
   {
      CF a = compressed(params(bits, 3), 3, chain); MC_TRUE(a.write_to_file(f)); const S all = mc::slurp(f);
      for (size_t i = 0; i < all.size(); ++i) for (unsigned x : {0u, 1u, 7u, 8u, 9u, 127u, 128u, 255u})
      {
         MC_CASE(o << "byte " << i << " of " << all.size() << " set to " << x << ", " << bits << " bits compressed by " << chain);
         S bad = all; bad[i] = (char)x; mc::spill(t, bad); CF g = compressed(params(300, 2), 2, {50}); const bool ok = g.read_from_file(t); if (!ok) { MC_TRUE(!g); MC_EQ(g.compress(10), false); } else { g.contains(S("q")); for (int k = 0; k < 8; ++k) { g.insert(k); MC_TRUE(g.contains(k)); } g.compress(50); g.insert(S("r")); MC_TRUE(g.contains(S("r"))); CF c(g); MC_TRUE(c == g); g |= c; g.clear(); } mc::trace(); mc::outcome(mc::Hash()(ok)(i)((uint64_t)x)(bits));
      }
   }
}
MC_SECTION(truncations)
{
   mc::Scratch d; const S f = d.file("bloom"), t = d.file("cut");
   for (unsigned long long bits : {1ull, 64ull, 1001ull}) for (unsigned hashes : {1u, 6u})
   {
      F a = filled(params(bits, hashes), 4); MC_TRUE(a.write_to_file(f)); const S all = mc::slurp(f);
      for (size_t n = 0; n <= all.size(); ++n) for (int over = 0; over < 2; ++over)
      {
         MC_CASE(o << "first " << n << " of " << all.size() << " bytes, " << bits << " bits " << hashes << " hashes");
         mc::spill(t, all.substr(0, n)); F g; if (over) g = filled(params(77, 3), 5); const bool ok = g.read_from_file(t);
         MC_EQM(ok, n == all.size(), "read_from_file"); if (ok) MC_TRUE(g == a); else { MC_EQM(!g, true, "no filter after a failed read"); MC_EQM(g.size(), 0ull, "size after a failed read"); } usable_or_empty(g); mc::trace(); mc::state(mc::Hash()(n)(bits)((uint64_t)hashes)); mc::outcome(mc::Hash()(ok)(n)(bits));
         MC_TRUE(g.read_from_file(f)); MC_TRUE(g == a);         // and the object can be used to read a good file afterwards
      }
   }
   F g = filled(params(77, 3), 5); const F before(g); MC_CASE(o << "missing file"); MC_EQ(g.read_from_file(d.dir + "/none"), false); MC_TRUE(g == before); { F h(before); MC_EQ(h.read_from_file(d.dir), false); MC_TRUE(!h); MC_EQ(h.size(), 0ull); h = before; MC_TRUE(h == before); } MC_EQ(F().write_to_file(d.dir + "/none"), false); MC_EQ(g.write_to_file(d.dir + "/none/sub"), false); MC_EQM(mc::slurp(d.dir + "/none"), S("<missing>"), "nothing created");
}
MC_SECTION(damage)
{
   // every byte of the file changed to several values: the read fails, or gives a filter that stays within its table
   mc::Scratch d; const S f = d.file("bloom"), t = d.file("bad");
   for (unsigned long long bits : {9ull, 64ull}) for (unsigned hashes : {1u, 4u})
   {
      F a = filled(params(bits, hashes), 4); MC_TRUE(a.write_to_file(f)); const S all = mc::slurp(f);
      for (size_t i = 0; i < all.size(); ++i) for (unsigned x : {0u, 1u, 2u, 7u, 8u, 9u, 16u, 63u, 65u, 127u, 128u, 254u, 255u})
      {
         MC_CASE(o << "byte " << i << " of " << all.size() << " set to " << x << ", " << bits << " bits " << hashes << " hashes");
         S bad = all; bad[i] = (char)x; mc::spill(t, bad); F g; const bool ok = g.read_from_file(t); if (!ok) MC_TRUE(!g); else { g.contains(S("q")); usable_or_empty(g); } mc::trace(); mc::outcome(mc::Hash()(ok)(i)((uint64_t)x)(bits)((uint64_t)hashes));
      }
   }
   for (size_t len = 0; len <= 120; ++len) for (int k = 0; k < 4; ++k) { MC_CASE(o << len << " arbitrary bytes " << k); S s; for (size_t i = 0; i < len; ++i) s += k == 0 ? 0 : k == 1 ? (char)1 : k == 2 ? (char)0xFF : (char)(i % 8 == 0); mc::spill(t, s); F g; if (!g.read_from_file(t)) MC_TRUE(!g); usable_or_empty(g); mc::outcome(mc::Hash()(len)(k)); }
}
MC_SECTION(full_disk)
{
   // the file system refuses everything past the first k bytes
   mc::Scratch d; const S f = d.file("bloom"), t = d.file("short"); signal(SIGXFSZ, SIG_IGN);
   for (unsigned long long bits : {64ull, 1001ull, 100000ull})
   {
      F a = filled(params(bits, 3), 4); MC_TRUE(a.write_to_file(f)); const size_t all = mc::slurp(f).size();
      for (size_t k = 0; k <= all + 2; ++k)
      {
         if (k > 40 && k + 40 < all && k % 509) continue;
         MC_CASE(o << "room for " << k << " of " << all << " bytes");
         unlink(t.c_str()); struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &lim); const bool ok = a.write_to_file(t); setrlimit(RLIMIT_FSIZE, &old);
         MC_EQM(ok, k >= all, "write_to_file"); F g; MC_EQM(g.read_from_file(t), ok, "reading what was written"); if (ok) MC_TRUE(g == a); mc::trace(); mc::state(mc::Hash()(k)(bits)); mc::outcome(mc::Hash()(ok)(k)(bits));
      }
   }
   MC_CASE(o << "/dev/full"); F a = filled(params(64, 3), 4); if (FILE* x = fopen("/dev/full", "wb")) { fclose(x); MC_EQ(a.write_to_file("/dev/full"), false); }
}
MC_MAIN
