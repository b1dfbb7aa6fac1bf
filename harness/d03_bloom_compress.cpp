// D03: compressing a bloom filter, repeatedly and mixed with insertions, keeps every key and stays within its table.
#include "bloom_model.hpp"

struct Op { int type; double pct; int key; };
static mc::Out& operator<<(mc::Out& o, const Op& p) { switch (p.type) { case 0: return o << "insert(" << p.key << ")"; case 1: return o << "compress(" << p.pct << ")"; case 2: return o << "clear"; case 3: return o << "copy"; case 4: return o << "assign"; case 5: return o << "or with twin"; case 6: return o << "or with plain"; default: return o << "and with twin"; } }
static S keyname(int k) { return "key" + std::to_string(k * k * 31); }
static void history(const Prm& p, unsigned long long bits, const std::vector<Op>& h)
{
   CF f(p), twin(p); F plain(p); plain.insert(S("p")); std::vector<unsigned long long> sizes(1, bits); std::set<S> in; size_t n = 0; std::set<S> tin;
   for (auto& q : h)
   {
      mc::transition();
      switch (q.type)
      {
         case 0: { const S k = keyname(q.key); const S t = table(f, sizes.back()); f.insert(k); in.insert(k); ++n; MC_TRUE(covers(table(f, sizes.back()), t)); if (q.key % 2) { twin.insert(k + "t"); tin.insert(k + "t"); } break; }
         case 1:
         {
            const unsigned long long s = sizes.back(); unsigned long long w = 0; bool ok = q.pct > 0 && q.pct < 100; if (ok) { w = (unsigned long long)(s * (1.0 - q.pct / 100.0)); w -= w % 8; ok = w >= 8 && w < s; }
            const S before = table(f, s); MC_EQM(f.compress(q.pct), ok, "compress"); MC_EQM(twin.compress(q.pct), ok, "compress of the twin");
            if (ok) { S fold(w / 8, 0); for (size_t i = 0; i < before.size(); ++i) fold[i % (w / 8)] |= before[i]; sizes.push_back(w); MC_EQM(table(f, w), fold, "folded table"); } else MC_EQM(table(f, s), before, "refused compress changes nothing");
            break;
         }
         case 2: f.clear(); in.clear(); n = 0; MC_EQM(table(f, sizes.back()), S((sizes.back() + 7) / 8, 0), "cleared table"); break;
         case 3: { CF c(f); MC_TRUE(c == f); MC_EQM((unsigned long long)c.size(), sizes.back(), "size of the copy"); for (auto& k : in) MC_TRUE(c.contains(k)); c.insert(S("more")); MC_TRUE(c.contains(S("more"))); f = c; in.insert("more"); ++n; break; }
         case 4: twin = f; tin = in; break;
         case 5: f |= twin; in.insert(tin.begin(), tin.end()); break;
         case 6: { const S t = table(f, sizes.back()); f |= plain; if (sizes.size() == 1) in.insert("p"); else { MC_EQM(table(f, sizes.back()), t, "other shape"); const F q2(plain); plain |= f; MC_TRUE(plain == q2); } break; }
         case 7: { f &= twin; std::set<S> r; for (auto& k : in) if (tin.count(k)) r.insert(k); in = r; break; }
      }
      MC_EQM((unsigned long long)f.size(), sizes.back(), "size"); MC_EQM(f.element_count(), n, "element_count");
      {  // copies and unions as plain filters know everything the compressed one knows, and stay inside its table
         F c(f), u(f | twin), v(twin & f); MC_EQM(table(c, sizes.back()), table(f, sizes.back()), "plain copy"); MC_EQM((unsigned long long)c.size(), sizes.back(), "size of the plain copy"); MC_TRUE(c == f);
         for (auto& k : in) { MC_TRUE(c.contains(k)); MC_TRUE(u.contains(k)); if (tin.count(k)) MC_TRUE(v.contains(k)); } for (auto& k : tin) MC_TRUE(u.contains(k));
         for (int k = 0; k < 12; ++k) MC_EQM(c.contains(keyname(k)), f.contains(keyname(k)), "plain copy contains"); c.insert(S("later")); MC_TRUE(c.contains(S("later"))); MC_TRUE(c != f);
      }
      for (auto& k : in) { MC_TRUE(f.contains(k)); MC_TRUE(((const F&)f).contains(k)); } for (auto& k : tin) MC_TRUE(twin.contains(k));
   }
   mc::trace(); mc::Hash s; s(table(f, sizes.back())); for (auto x : sizes) s((uint64_t)x); mc::state(s); mc::outcome(s);
}
static void run(unsigned long long bits, unsigned hashes, size_t depth, const std::vector<double>& pcts)
{
   const Prm p = params(bits, hashes); std::vector<Op> ops; for (int k = 0; k < 4; ++k) ops.push_back(Op{0, 0, k}); for (double d : pcts) ops.push_back(Op{1, d, 0}); for (int t = 2; t < 8; ++t) ops.push_back(Op{t, 0, 0});
   for (size_t d = 0; d <= depth; ++d) mc::tuples(ops.size(), d, [&](const std::vector<size_t>& ix) { std::vector<Op> h; for (size_t i : ix) h.push_back(ops[i]); MC_CASE(o << bits << " bits, " << hashes << " hashes: " << h); history(p, bits, h); });
}
MC_SECTION(small) { run(64, 3, mc::tier<size_t>(4, 5), {10, 50, 75}); }
MC_SECTION(tiny) { for (unsigned long long b : {1ull, 7ull, 8ull, 9ull, 15ull, 16ull, 17ull, 24ull}) run(b, 2, mc::tier<size_t>(3, 4), {1, 34, 50, 88}); }
MC_SECTION(uneven) { for (unsigned long long b : {100ull, 1001ull, 4099ull}) run(b, 5, mc::tier<size_t>(3, 4), {0.5, 33.3, 60, 95}); }
MC_SECTION(percentages)
{
   for (unsigned long long b : {8ull, 16ull, 63ull, 64ull, 800ull, 1001ull, 10007ull}) for (double p = -5; p <= 105; p += 0.5) for (int again = 0; again < 3; ++again)
   {
      std::vector<Op> h; for (int k = 0; k < 6; ++k) h.push_back(Op{0, 0, k}); h.push_back(Op{1, p, 0}); if (again) { h.push_back(Op{0, 0, 9}); h.push_back(Op{1, again == 1 ? p : 100 - p, 0}); h.push_back(Op{0, 0, 11}); }
      MC_CASE(o << b << " bits: " << h); history(params(b, 4), b, h);
   }
}
// two filters compressed along different paths: combining them changes nothing unless both paths are the same
MC_SECTION(different_chains)
{
   static const double P[] = {20, 33.4, 50, 50.2, 67.1, 75};
   std::vector<std::vector<double> > chains; for (size_t d = 0; d <= 2; ++d) mc::tuples(6, d, [&](const std::vector<size_t>& ix) { std::vector<double> c; for (size_t i : ix) c.push_back(P[i]); chains.push_back(c); });
   for (unsigned long long bits : {64ull, 96ull, 1001ull, 1024ull}) for (auto& ca : chains) for (auto& cb : chains)
   {
      MC_CASE(o << bits << " bits compressed by " << ca << " and " << cb);
      const Prm p = params(bits, 3); CF a(p), b(p); std::vector<unsigned long long> sa, sb; for (double d : ca) if (a.compress(d)) sa.push_back(a.size()); for (double d : cb) if (b.compress(d)) sb.push_back(b.size());
      for (int k = 0; k < 4; ++k) { a.insert(keyname(k)); b.insert(keyname(k + 10)); }
      const F fa(a), fb(b); const S ta = table(a, a.size()), tb = table(b, b.size()); const bool same = sa == sb;
      for (int op = 0; op < 6; ++op)
      {
         mc::transition(); CF x(a); F y(a), z; switch (op) { case 0: x |= b; break; case 1: x &= b; break; case 2: x ^= b; break; case 3: x |= fb; break; case 4: y |= b; break; case 5: y |= fb; break; }
         if (op < 4) z = x; else z = y;
         MC_EQM((unsigned long long)z.size(), (unsigned long long)a.size(), "size");
         const S w = !same ? ta : op == 1 ? band(ta, tb) : op == 2 ? bxor(ta, tb) : bor(ta, tb); MC_EQM(table(z, a.size()), w, "table");
         for (int k = 0; k < 4; ++k) { if (op != 1 && op != 2) { MC_TRUE(z.contains(keyname(k))); if (same) MC_TRUE(z.contains(keyname(k + 10))); } }
      }
      MC_EQM(fa == fb, same && ta == tb, "equality"); CF c(p); c = a; c = b; MC_TRUE(c == b); MC_EQ((unsigned long long)c.size(), (unsigned long long)b.size()); for (int k = 0; k < 4; ++k) MC_TRUE(c.contains(keyname(k + 10))); F g(fa); g = fb; MC_TRUE(g == b); for (int k = 0; k < 4; ++k) MC_TRUE(g.contains(keyname(k + 10)));
      mc::trace(); mc::Hash h; h(ta)(tb); mc::state(h); mc::outcome(h);
   }
}
MC_SECTION(deep_chains)
{
   // compress by small steps until refused, inserting on the way
   for (unsigned long long b : {64ull, 500ull, 2048ull}) for (double p : {3.0, 10.0, 25.0, 50.0, 80.0}) for (int every = 1; every <= 3; ++every)
   {
      std::vector<Op> h; for (int i = 0; i < 60; ++i) { if (i % every == 0) h.push_back(Op{0, 0, i}); h.push_back(Op{1, p, 0}); if (i % 9 == 8) h.push_back(Op{3, 0, 0}); }
      MC_CASE(o << b << " bits: " << h); history(params(b, 3), b, h);
   }
}
// every table size up to 140 bytes and some large ones, filled far beyond the projected number of keys, folded again and again, then combined
MC_SECTION(sizes_and_loads)
{
   std::vector<size_t> bits; for (size_t by = 2; by <= 140; ++by) bits.push_back(8 * by - by % 8); for (size_t by : {255u, 256u, 257u, 1000u, 1023u, 1025u, 4095u, 4097u, 8192u, 65536u, 65537u}) bits.push_back(8 * by);
   for (size_t b : bits) for (double pct : {1.0, 12.5, 50.0, 71.0}) for (unsigned many : {5u, 1200u, 9000u})
   {
      if ((many > 5 && pct == 1.0) || (many > 1200 && b < 5000 && b % 5)) continue;
      MC_CASE(o << b << " bits, compressed by " << pct << ", " << many << " keys");
      CF f(params(b, 2, 7, 3)), twin(f), g(f); std::vector<unsigned long long> sizes(1, b); unsigned n = 0; for (; n < many; ++n) { f.insert(n); if (n % 3) twin.insert(n); }
      for (int step = 0; step < 4; ++step)
      {
         mc::transition(); const unsigned long long s = sizes.back(); unsigned long long w = (unsigned long long)(s * (1.0 - pct / 100.0)); w -= w % 8; const bool ok = w >= 8 && w < s; const S before = table(f, s), tb = table(twin, s);
         MC_EQM(f.compress(pct), ok, "compress"); MC_EQM(twin.compress(pct), ok, "compress of the twin"); if (!ok) { MC_TRUE(table(f, s) == before); break; }
         S fold(w / 8, 0), tf(w / 8, 0); for (size_t i = 0; i < before.size(); ++i) { fold[i % (w / 8)] |= before[i]; tf[i % (w / 8)] |= tb[i]; } sizes.push_back(w);
         MC_TRUE(table(f, w) == fold); MC_TRUE(table(twin, w) == tf); MC_EQ((unsigned long long)f.size(), w); MC_EQ(f.element_count(), (size_t)n); MC_TRUE(f != twin);
         for (unsigned k = 0; k < n; k += 1 + n / 60) { MC_TRUE(f.contains(k)); if (k % 3 && k < many) MC_TRUE(twin.contains(k)); }
         { CF c(f); MC_TRUE(c == f); c |= twin; MC_TRUE(table(c, w) == bor(fold, tf)); c = f; MC_TRUE(c == f && table(c, w) == fold); c &= twin; MC_TRUE(table(c, w) == band(fold, tf)); c = f; c ^= twin; MC_TRUE(table(c, w) == bxor(fold, tf)); c ^= c; MC_TRUE(table(c, w) == S(w / 8, 0)); for (unsigned k = 0; k < 30; ++k) { c.insert(k * 7919u); MC_TRUE(c.contains(k * 7919u)); } MC_TRUE(table(f, w) == fold); }
         { CF c(f); c |= g; MC_TRUE(table(c, w) == fold); F q(f); MC_TRUE(table(q, w) == fold); q |= f; MC_TRUE(table(q, w) == fold); }
         for (unsigned k = 0; k < 3; ++k, ++n) { f.insert(n); MC_TRUE(f.contains(n)); }
      }
      mc::trace(); mc::outcome(mc::Hash()(table(f, sizes.back()))); f.clear(); MC_TRUE(table(f, sizes.back()) == S((sizes.back() + 7) / 8, 0)); MC_EQ(f.element_count(), (size_t)0);
   }
}
MC_MAIN
