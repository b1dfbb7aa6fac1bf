// U06: timers under a controlled clock: the harness supplies the clock, and enumerates every history of starts, stops,
// questions and clock movements (forwards, backwards, within and across a second).
#include "mc.hpp"
#include <time.h>
static long now_s = 1000, now_us = 0; static size_t asked = 0;
extern "C" int gettimeofday(struct timeval* tv, void*) __THROW { ++asked; if (tv) { tv->tv_sec = now_s; tv->tv_usec = now_us; } return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) __THROW { ++asked; if (ts) { ts->tv_sec = now_s; ts->tv_nsec = now_us * 1000; } return 0; }
#include "strtk.hpp"
typedef unsigned long long U;
static const U none = ~0ull;
static long long clk() { return now_s * 1000000ll + now_us; }
static void move(long long us) { long long c = clk() + us; now_s = (long)(c / 1000000); now_us = (long)(c % 1000000); }
static void at(long long us) { now_s = (long)(us / 1000000); now_us = (long)(us % 1000000); }

struct Model { bool used; long long a, b; Model() : used(false), a(0), b(0) {} U usec() const { return used || b < a ? none : (U)(b - a); } };
static void look(const strtk::util::timer& t, const Model& m)
{
   MC_EQ(t.in_use(), m.used); MC_EQ((U)t.usec_time(), m.usec());
   const double d = t.time(), w = m.usec() * 0.000001; MC_TRUE(d >= w * (1 - 1e-12) && d <= w * (1 + 1e-12));
}
static const long long steps[] = { 0, 1, 999999, 1000000, 1000001, 86400000000ll, -1, -999999, -1000000, -3600000000ll };
static const size_t NS = sizeof steps / sizeof *steps;
// All histories over {start, stop, every clock movement}.
MC_SECTION(histories)
{
   for (long long begin : { 5000000000000ll, 5000000500000ll, 5000000999999ll }) for (size_t d = 1; d <= mc::tier((size_t)4, (size_t)6); ++d)
      mc::tuples(NS + 2, d, [&](const std::vector<size_t>& h) {
         MC_CASE(o << "clock at " << begin << " then " << h << " (0 start, 1 stop, 2.. movements)");
         at(begin); strtk::util::timer t; Model m; look(t, m);
         for (size_t k : h)
         {
            if (k == 0) { t.start(); m.used = true; m.a = clk(); } else if (k == 1) { t.stop(); m.used = false; m.b = clk(); } else move(steps[k - 2]);
            mc::transition(); look(t, m); const strtk::util::timer c = t; look(c, m); mc::state(mc::Hash()(m.used)((uint64_t)m.usec()));
         }
         mc::outcome(m.usec()); mc::trace();
      });
}
// Every pair of positions in the second, over a few distances in seconds, back and forth.
MC_SECTION(distances)
{
   const long us[] = { 0, 1, 2, 9, 10, 99, 100, 999, 1000, 123456, 499999, 500000, 500001, 999000, 999998, 999999 };
   const long secs[] = { -100000, -2, -1, 0, 1, 2, 3, 59, 60, 61, 2146, 2147, 2148, 4294, 4295, 4296, 86400, 100000000 };
   for (long s : secs) for (long a : us) for (long b : us)
   {
      MC_CASE(o << "from " << a << " us to " << s << " s and " << b << " us");
      strtk::util::timer t; Model m; at(1700000000ll * 1000000 + a); t.start(); m.a = clk(); at((1700000000ll + s) * 1000000 + b); t.stop(); m.b = clk(); look(t, m); look(t, m);
      mc::outcome(m.usec()); mc::transition(); mc::transition(); mc::trace(); mc::state(m.usec());
   }
}
// scoped_timer writes the time of its scope when the scope ends, however it ends, and not before.
static double first_value = -7;
static void nest(const std::vector<size_t>& h, size_t k)
{
   if (k == h.size()) return;
   const long long step = steps[h[k] % NS]; const bool thr = h[k] >= NS; double v = first_value; const long long a = clk(); long long b = a;
   try { strtk::util::scoped_timer s(v); MC_TRUE(v == first_value); move(step); nest(h, k + 1); MC_TRUE(v == first_value); move(3); b = clk(); if (thr) throw 1; }
   catch (int) {}
   const double w = b < a ? none * 0.000001 : (b - a) * 0.000001; MC_TRUE(v >= w * (1 - 1e-12) && v <= w * (1 + 1e-12)); mc::transition(); mc::state(mc::Hash()((uint64_t)(b - a))(k));
   move(1000000); const double keep = v; MC_TRUE(v == keep);
}
MC_SECTION(scoped)
{
   for (double fv : { -7.0, 0.0, 0.5, 86401.0, 1e300 }) for (size_t d = 1; d <= mc::tier(fv < 0 ? (size_t)3 : (size_t)2, (size_t)4); ++d) mc::tuples(2 * NS, d, [&](const std::vector<size_t>& h) { first_value = fv; MC_CASE(o << "nested scoped timers " << h << " over " << fv); at(9000000999990ll); nest(h, 0); mc::outcome((uint64_t)clk()); mc::trace(); });
   MC_CASE(o << "the clock is asked"); MC_TRUE(asked > 0);
}
MC_MAIN
