// F01: fileio moves exactly the bytes it is asked to move, or reports failure.
#include <sys/stat.h>
#include "split_model.hpp"
#include <deque>
#include <list>
#include <sys/resource.h>
#include <signal.h>
typedef std::string S;
namespace fio = strtk::fileio;

static S pattern(size_t n, int k) { S s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)(k == 0 ? i * 31 + i / 251 : k == 1 ? 0 : k == 2 ? 0xFF : k == 3 ? "\r\n\x1A\n"[i % 4] : (i * 7919) >> 3); return s; }
static std::vector<size_t> sizes()
{ std::vector<size_t> v; for (size_t i = 0; i <= 20; ++i) v.push_back(i); for (size_t b = 1; b <= 3; ++b) for (int d = -2; d <= 2; ++d) v.push_back(b * 16384 + d); for (size_t x : {100u, 255u, 256u, 1023u, 1024u, 4095u, 4096u, 4097u, 8191u, 8192u, 65534u, 65535u, 65536u, 65537u, 65538u, 100000u, 131071u, 131072u, 131073u, 163840u, 262144u, 1048575u, 1048576u, 1048577u, 2500000u}) v.push_back(x); return v; }
struct Limit { struct rlimit old; Limit(size_t k) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); struct rlimit l = old; l.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &l); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };

MC_SECTION(write_load_copy)
{
   mc::Scratch d; const S a = d.file("a"), b = d.file("b"), none = d.dir + "/none";
   for (size_t n : sizes()) for (int k = 0; k < 5; ++k) for (int over = 0; over < 3; ++over)
   {
      MC_CASE(o << "file of " << n << " bytes, pattern " << k << ", over an existing one " << over);
      const S data = pattern(n, k); unlink(a.c_str()); unlink(b.c_str()); if (over) { const S old = over == 1 ? "x" : S(2600000, 'o'); mc::spill(a, old); mc::spill(b, old); } else { MC_EQ(fio::file_exists(a), false); MC_EQ(fio::file_size(a), (size_t)0); }
      mc::Buf<char> buf(data); MC_EQ(k % 2 ? fio::write_file(a, data) : fio::write_file(a, buf.begin(), n), true); MC_TRUE(mc::slurp(a) == data); MC_EQM(buf.str() == data, true, "source unchanged");
      MC_EQ(fio::file_exists(a), true); MC_EQ(fio::file_size(a), n);
      S back = over == 1 ? S(5, 'q') : S(); MC_EQ(fio::load_file(a, back), true); MC_TRUE(back == data); if (n < 600) for (S o : mc::stale(data)) { MC_EQ(fio::load_file(a, o), true); MC_TRUE(o == data); }
      { mc::Buf<char> g(n); MC_EQ(fio::load_file(a, g.begin(), n), true); MC_TRUE(g.str() == data); } if (n) { mc::Buf<char> g(n - 1); MC_EQ(fio::load_file(a, g.begin(), n - 1), true); MC_TRUE(g.str() == data.substr(0, n - 1)); }
      for (size_t m : {n + 1, n + 16384}) { mc::Buf<char> g(S(m, 'q')); MC_EQM(fio::load_file(a, g.begin(), m), false, "more than the file holds"); }
      MC_EQ(fio::copy_file(a, b), true); MC_TRUE(mc::slurp(b) == data); MC_TRUE(mc::slurp(a) == data); MC_EQ(fio::files_identical(a, b), true); MC_EQ(fio::files_identical(a, a), true);
      mc::outcome(mc::Hash()(n)(k)(over)); mc::state(mc::Hash()(data));
   }
}
MC_SECTION(identical)
{
   mc::Scratch d; const S a = d.file("a"), b = d.file("b");
   for (size_t n : sizes())
   {
      const S data = pattern(n, 0); mc::spill(a, data);
      std::set<size_t> pos; for (size_t p : {0ul, 1ul, n / 2, n - 1, n - 2, 16382ul, 16383ul, 16384ul, 16385ul, 32767ul, 32768ul, 32769ul, 49151ul, 49152ul, 49153ul, 65535ul, 65536ul, 65537ul, 81920ul, 131071ul, 131072ul, 1000000ul}) if (p < n) pos.insert(p);
      for (size_t p : pos) for (int bit : {1, 128}) { MC_CASE(o << n << " bytes, byte " << p << " differs"); S x = data; x[p] = (char)(x[p] ^ bit); mc::spill(b, x); MC_EQ(fio::files_identical(a, b), false); MC_EQ(fio::files_identical(b, a), false); mc::outcome(mc::Hash()(n)(p)(bit)); }
      for (int e : {-1, 1, 16384}) { if (e < 0 && !n) continue; MC_CASE(o << n << " against " << (long)n + e << " bytes"); mc::spill(b, e < 0 ? data.substr(0, n - 1) : data + S(e, 'z')); MC_EQ(fio::files_identical(a, b), false); MC_EQ(fio::files_identical(b, a), false); mc::outcome(mc::Hash()(n)(e)); }
   }
   MC_CASE(o << "missing"); MC_EQ(fio::files_identical(a, d.dir + "/none"), false); MC_EQ(fio::files_identical(d.dir + "/none", a), false);
}
MC_SECTION(concatenate)
{
   mc::Scratch d; const S a = d.file("a"), b = d.file("b"), c = d.file("c");
   std::vector<size_t> v = {0, 1, 2, 5, 1024, 16382, 16383, 16384, 16385, 32767, 32768, 32769, 50000, 65536, 65537, 131072, 200001};
   for (size_t n : v) for (size_t m : v) for (int over = 0; over < 2; ++over)
   {
      MC_CASE(o << n << " and " << m << " bytes, over an existing file " << over); const S x = pattern(n, 0), y = pattern(m, 4); mc::spill(a, x); mc::spill(b, y); unlink(c.c_str()); if (over) mc::spill(c, S(500000, 'o'));
      MC_EQ(fio::concatenate(a, b, c), true); MC_TRUE(mc::slurp(c) == x + y); MC_TRUE(mc::slurp(a) == x && mc::slurp(b) == y); MC_EQ(fio::concatenate(a, a, c), true); MC_TRUE(mc::slurp(c) == x + x); mc::outcome(mc::Hash()(n)(m)(over)); mc::trace(); mc::state(mc::Hash()(n)(m));
   }
}
MC_SECTION(missing)
{
   mc::Scratch d; const S a = d.file("a"), c = d.file("c"), none = d.dir + "/none", sub = d.dir + "/none/file";
   for (int have = 0; have < 2; ++have)
   {
      MC_CASE(o << "missing inputs, output exists " << have); mc::spill(a, "data"); if (have) mc::spill(c, "keep"); const S was = have ? "keep" : "<missing>";
      MC_EQ(fio::copy_file(none, c), false); MC_EQM(mc::slurp(c), was, "copy of a missing file"); MC_EQ(fio::concatenate(none, a, c), false); MC_EQM(mc::slurp(c), was, "concatenate"); MC_EQ(fio::concatenate(a, none, c), false); MC_EQM(mc::slurp(c), was, "concatenate"); MC_EQ(fio::concatenate(none, none, c), false); MC_EQM(mc::slurp(c), was, "concatenate");
      MC_EQ(fio::copy_file(a, sub), false); MC_EQ(fio::concatenate(a, a, sub), false); MC_EQ(fio::write_file(sub, S("x")), false); MC_EQ(fio::file_exists(none), false); MC_EQ(fio::file_size(none), (size_t)0);
      char buf[4] = {'a', 'b', 'c', 'd'}; MC_EQ(fio::load_file(none, buf, 4), false); MC_EQ(S(buf, 4), S("abcd")); S s = "old"; MC_EQ(fio::load_file(none, s), false); MC_EQ(fio::read_at_offset(none, 0, buf, 4), false); MC_EQ(fio::read_at_offset(none, 0, s, 4), false); MC_EQM(mc::slurp(none), S("<missing>"), "nothing created"); MC_EQM(mc::slurp(a), S("data"), "source");
      mc::outcome(have);
   }
}
MC_SECTION(directories_and_aliases)
{
   // a directory opens but does not read; nothing is copied, compared or loaded from it (and no output grows without end)
   mc::Scratch d; const S a = d.file("a"), c = d.file("c"), sub = d.dir + "/sub"; MC_TRUE(mkdir(sub.c_str(), 0700) == 0); Limit l(1 << 20);
   for (int have = 0; have < 2; ++have)
   {
      MC_CASE(o << "directories, output exists " << have); mc::spill(a, "data"); if (have) mc::spill(c, "keep"); const S was = have ? "keep" : "<missing>";
      MC_EQ(fio::file_size(sub), (size_t)0); MC_EQ(fio::copy_file(sub, c), false); MC_EQM(mc::slurp(c), was, "copy of a directory"); MC_EQ(fio::concatenate(sub, a, c), false); MC_EQM(mc::slurp(c), was, "concatenate"); MC_EQ(fio::concatenate(a, sub, c), false); MC_EQM(mc::slurp(c), was, "concatenate"); MC_EQ(fio::files_identical(sub, sub), false); MC_EQ(fio::files_identical(sub, a), false); MC_EQ(fio::files_identical(a, sub), false); MC_EQ(fio::files_identical(sub, d.dir), false);
      MC_EQ(fio::copy_file(a, sub), false); MC_EQ(fio::concatenate(a, a, sub), false); MC_EQ(fio::write_file(sub, S("x")), false);
      char buf[4] = {'a', 'b', 'c', 'd'}; MC_EQ(fio::load_file(sub, buf, 4), false); MC_EQ(S(buf, 4), S("abcd")); MC_EQ(fio::load_file(sub, buf, 0), false); S s = "old"; MC_EQ(fio::load_file(sub, s), false); MC_EQ(fio::read_at_offset(sub, 0, buf, 4), false); MC_EQ(fio::read_at_offset(sub, 0, s, 4), false); MC_EQM(mc::slurp(a), S("data"), "source"); mc::outcome(have);
   }
   // an output that is one of the inputs: by the same name nothing is touched; by another name success means the output is right
   for (size_t n : {0u, 1u, 5u, 16384u, 20000u, 40000u}) for (int how = 0; how < 4; ++how)
   {
      const S x = pattern(n, 0), y = pattern(n / 2 + 7, 4), b = d.file("b"), link = d.dir + "/link", hard = d.dir + "/hard", dot = d.dir + "/./a"; unlink(link.c_str()); unlink(hard.c_str()); mc::spill(a, x); mc::spill(b, y); MC_TRUE(symlink(a.c_str(), link.c_str()) == 0 && ::link(a.c_str(), hard.c_str()) == 0);
      const S& out = how == 0 ? a : how == 1 ? dot : how == 2 ? link : hard; MC_CASE(o << n << " bytes into itself, name " << how);
      bool ok = fio::copy_file(a, out); if (how == 0) { MC_EQ(ok, false); MC_TRUE(mc::slurp(a) == x); } else if (ok) MC_TRUE(mc::slurp(a) == x);
      mc::spill(a, x); ok = fio::concatenate(a, b, out); if (how == 0) { MC_EQ(ok, false); MC_TRUE(mc::slurp(a) == x); } else if (ok) MC_TRUE(mc::slurp(a) == x + y);
      if (how == 0) { mc::spill(a, x); MC_EQ(fio::concatenate(b, a, out), false); MC_TRUE(mc::slurp(a) == x); }
      MC_TRUE(mc::slurp(b) == y); mc::outcome(mc::Hash()(n)(how)); mc::trace();
   }
}
MC_SECTION(full_disk)
{
   // room for exactly k bytes in any file
   mc::Scratch d; const S a = d.file("a"), b = d.file("b"), c = d.file("c");
   for (size_t n : std::vector<size_t>{0, 1, 10, 8191, 16384, 16390, 40000}) for (int op = 0; op < 3; ++op)
   {
      const S x = pattern(n, 0), y = pattern(n / 2 + 3, 4); mc::spill(a, x); mc::spill(b, y); const S all = op < 2 ? x : x + y;
      for (size_t k = 0; k <= all.size() + 1; ++k)
      {
         if (k > 20 && k + 20 < all.size() && k % 1021 && k % 8192 > 1 && k % 8192 < 8191) continue;
         MC_CASE(o << (op == 0 ? "write_file" : op == 1 ? "copy_file" : "concatenate") << " of " << all.size() << " bytes with room for " << k); unlink(c.c_str()); bool ok;
         { Limit l(k); ok = op == 0 ? fio::write_file(c, x) : op == 1 ? fio::copy_file(a, c) : fio::concatenate(a, b, c); }
         MC_EQM(ok, k >= all.size(), "result"); if (ok) MC_TRUE(mc::slurp(c) == all); else MC_EQM(all.compare(0, mc::slurp(c).size(), mc::slurp(c)), 0, "a prefix was written"); MC_TRUE(mc::slurp(a) == x && mc::slurp(b) == y); mc::trace(); mc::state(mc::Hash()(k)(n)(op)); mc::outcome(mc::Hash()(ok)(k)(n)(op));
      }
      MC_CASE(o << "/dev/full"); if (!all.empty()) { MC_EQ(op == 0 ? fio::write_file("/dev/full", x) : op == 1 ? fio::copy_file(a, "/dev/full") : fio::concatenate(a, b, "/dev/full"), false); }
   }
}
MC_SECTION(at_offset)
{
   mc::Scratch d; const S a = d.file("a");
   auto one = [&](const S& data, size_t off, size_t n) {
      MC_CASE(o << n << " bytes at " << off << " of " << data.size()); const bool ok = off + n <= data.size(); const bool edge = n == 0 && off > data.size();
      mc::Buf<char> g(n); const bool r = fio::read_at_offset(a, off, g.begin(), n); if (!edge) MC_EQM(r, ok, "file name"); if (ok) MC_EQM(g.str(), data.substr(off, n), "bytes");
      for (S s : mc::stale(ok ? data.substr(off, n) : S("old content"))) { const bool q = fio::read_at_offset(a, off, s, n); if (!edge) MC_EQM(q, ok, "string"); if (ok) MC_EQM(s, data.substr(off, n), "bytes"); }
      mc::Buf<char> h(n); std::ifstream in(a.c_str(), std::ios::binary); if (data.size() > 2) { char t; in.get(t); } const bool w = fio::read_at_offset(in, off, h.begin(), n); if (!edge) MC_EQM(w, ok, "stream"); if (ok) MC_EQM(h.str(), data.substr(off, n), "bytes"); mc::outcome(mc::Hash()(ok)(off)(n)(data.size()));
   };
   for (size_t len = 0; len <= 12; ++len) { const S x = pattern(len, 0); mc::spill(a, x); for (size_t off = 0; off <= len + 3; ++off) for (size_t n = 0; n <= len + 3; ++n) one(x, off, n); }
   { const S x = pattern(300000, 4); mc::spill(a, x); for (size_t off : {0u, 1u, 255u, 256u, 65535u, 65536u, 65537u, 131072u, 299999u, 300000u, 300001u}) for (size_t n : {0u, 1u, 255u, 256u, 65535u, 65536u, 65537u, 168928u, 168929u, 234464u, 299999u, 300000u, 300001u}) one(x, off, n); }
   const S x = pattern(20000, 4); mc::spill(a, x); for (size_t off : {0u, 1u, 8191u, 8192u, 19999u, 20000u}) for (size_t n : {0u, 1u, 2u, 8192u, 11808u, 11809u, 19999u, 20000u, 20001u}) one(x, off, n);
}
template <typename T> static void put(S& s, const T& t) { s.append((const char*)&t, sizeof t); }
struct Pod { int a; char b[4]; short c[2]; bool operator==(const Pod& p) const { return std::memcmp(this, &p, sizeof p) == 0; } };
MC_SECTION(pods)
{
   mc::Scratch d; const S a = d.file("a");
   for (int v = 0; v < 6; ++v)
   {
      const int e = v == 0 ? 0 : v == 1 ? -1 : v == 2 ? INT_MIN : v * 77777; const char c = (char)(e + 1); const double x = e / 3.0; const unsigned long long u = ~0ull - (unsigned)e; const short sh = (short)(e * 3); const float f = (float)e; const Pod p = {e, {1, 2, 3, (char)e}, {4, sh}}; const unsigned char uc = (unsigned char)(e * 5); const long l = -e - 1; const bool b = e & 1;
      S full[11]; { S s; put(s, e); full[1] = s; put(s, c); full[2] = s; put(s, x); full[3] = s; put(s, u); full[4] = s; put(s, sh); full[5] = s; put(s, f); full[6] = s; put(s, p); full[7] = s; put(s, uc); full[8] = s; put(s, l); full[9] = s; put(s, b); full[10] = s; }
      for (int n = 1; n <= 10; ++n)
      {
         MC_CASE(o << n << " values, variant " << v); bool ok = false;
         { std::ofstream s(a.c_str(), std::ios::binary);
           switch (n) { case 1: ok = fio::write_pod(s, e); break; case 2: ok = fio::write_pod(s, e, c); break; case 3: ok = fio::write_pod(s, e, c, x); break; case 4: ok = fio::write_pod(s, e, c, x, u); break; case 5: ok = fio::write_pod(s, e, c, x, u, sh); break; case 6: ok = fio::write_pod(s, e, c, x, u, sh, f); break; case 7: ok = fio::write_pod(s, e, c, x, u, sh, f, p); break; case 8: ok = fio::write_pod(s, e, c, x, u, sh, f, p, uc); break; case 9: ok = fio::write_pod(s, e, c, x, u, sh, f, p, uc, l); break; case 10: ok = fio::write_pod(s, e, c, x, u, sh, f, p, uc, l, b); break; } }
         MC_EQ(ok, true); MC_EQM(mc::slurp(a), full[n], "bytes written");
         for (size_t cut = 0; cut <= full[n].size(); ++cut)
         {
            MC_CASE(o << n << " values, variant " << v << ", first " << cut << " bytes"); mc::spill(a, full[n].substr(0, cut)); std::ifstream s(a.c_str(), std::ios::binary);
            int e2 = 9; char c2 = 9; double x2 = 9; unsigned long long u2 = 9; short sh2 = 9; float f2 = 9; Pod p2; unsigned char uc2 = 9; long l2 = 9; bool b2 = false; bool r = false;
            switch (n) { case 1: r = fio::read_pod(s, e2); break; case 2: r = fio::read_pod(s, e2, c2); break; case 3: r = fio::read_pod(s, e2, c2, x2); break; case 4: r = fio::read_pod(s, e2, c2, x2, u2); break; case 5: r = fio::read_pod(s, e2, c2, x2, u2, sh2); break; case 6: r = fio::read_pod(s, e2, c2, x2, u2, sh2, f2); break; case 7: r = fio::read_pod(s, e2, c2, x2, u2, sh2, f2, p2); break; case 8: r = fio::read_pod(s, e2, c2, x2, u2, sh2, f2, p2, uc2); break; case 9: r = fio::read_pod(s, e2, c2, x2, u2, sh2, f2, p2, uc2, l2); break; case 10: r = fio::read_pod(s, e2, c2, x2, u2, sh2, f2, p2, uc2, l2, b2); break; }
            MC_EQM(r, cut == full[n].size(), "read_pod");
            auto had = [&](int i) { return n >= i && cut >= full[i].size(); };
            if (had(1)) MC_EQ(e2, e); if (had(2)) MC_EQ((int)c2, (int)c); if (had(3)) MC_EQ(x2, x); if (had(4)) MC_EQ(u2, u); if (had(5)) MC_EQ(sh2, sh); if (had(6)) MC_EQ(f2, f); if (had(7)) MC_TRUE(p2 == p); if (had(8)) MC_EQ((int)uc2, (int)uc); if (had(9)) MC_EQ(l2, l); if (had(10)) MC_EQ(b2, b);
            mc::trace(); mc::state(mc::Hash()(n)(v)(cut)); mc::outcome(mc::Hash()(r)(n)(v)(cut));
         }
      }
   }
}
template <size_t N> static void arrays(const S& a)
{
   int x[N]; const int* cx = x; for (size_t i = 0; i < N; ++i) x[i] = (int)(i * 1000003) - 7; (void)cx;
   MC_CASE(o << "array of " << N); { std::ofstream s(a.c_str(), std::ios::binary); MC_EQ(fio::write_pod(s, x), true); MC_EQ(fio::write_pod(s, (const int(&)[N])x), true); } S w((const char*)x, sizeof x); w += w; MC_TRUE(mc::slurp(a) == w);
   for (size_t cut = 0; cut <= sizeof x; ++cut) { MC_CASE(o << "array of " << N << ", first " << cut << " bytes"); mc::spill(a, w.substr(0, cut)); std::ifstream s(a.c_str(), std::ios::binary); int y[N]; MC_EQ(fio::read_pod(s, y), cut == sizeof x); if (cut == sizeof x) MC_TRUE(std::equal(x, x + N, y)); mc::trace(); mc::outcome(mc::Hash()((uint64_t)N)(cut)); }
   std::ofstream s; MC_CASE(o << "closed stream"); MC_EQ(fio::write_pod(s, x), false); MC_EQ(fio::write_pod(s, x[0]), false); std::ifstream t; MC_EQ(fio::read_pod(t, x), false); MC_EQ(fio::read_pod(t, x[0]), false);
}
template <typename C, typename T> static void container(const S& a, const std::vector<T>& v, const char* name)
{
   MC_CASE(o << name << " of " << v.size()); const C c(v.begin(), v.end()); const std::vector<T> order(c.begin(), c.end()); S w; for (auto& t : order) put(w, t);
   { std::ofstream s(a.c_str(), std::ios::binary); MC_EQ(fio::write_pod(s, c), true); } MC_TRUE(mc::slurp(a) == w);
   std::set<size_t> counts; for (size_t n = 0; n <= order.size() + 2; ++n) if (n < 4 || n + 2 >= order.size()) counts.insert(n);
   for (size_t n : counts) for (int form = 0; form < 2; ++form) { MC_CASE(o << name << ": " << n << " of " << order.size() << " form " << form); C r; std::ifstream s(a.c_str(), std::ios::binary); const bool ok = form ? fio::read_pod(s, (const size_t&)n, r) : fio::read_pod(s, n, r); MC_EQM(ok, n <= order.size(), "read_pod"); const C wc(order.begin(), order.begin() + std::min(n, order.size())); MC_TRUE(r == wc); mc::trace(); mc::outcome(mc::Hash()(n)(order.size())(S(name))); }
   if (!w.empty()) { MC_CASE(o << name << " cut inside the last of " << order.size()); mc::spill(a, w.substr(0, w.size() - 1)); size_t n = order.size(); C r; std::ifstream s(a.c_str(), std::ios::binary); if (sizeof(T) > 1) { MC_EQ(fio::read_pod(s, n, r), false); MC_TRUE(r == C(order.begin(), order.end() - 1)); } }
   { std::ofstream s; MC_EQM(fio::write_pod(s, c), c.empty(), "closed stream"); }
}
MC_SECTION(pod_containers)
{
   mc::Scratch d; const S a = d.file("a"); arrays<1>(a); arrays<2>(a); arrays<7>(a); arrays<64>(a);
   for (size_t n : {0u, 1u, 2u, 3u, 4u, 17u, 255u, 256u, 257u, 300u, 5000u, 65535u, 65536u, 65537u})
   {
      std::vector<int> v; std::vector<double> w; std::vector<char> z; for (size_t i = 0; i < n; ++i) { v.push_back((int)((i * 7919) % 1009) - 500); w.push_back(v.back() / 7.0); z.push_back((char)v.back()); }
      container<std::vector<int>, int>(a, v, "vector<int>"); container<std::deque<int>, int>(a, v, "deque<int>"); container<std::list<int>, int>(a, v, "list<int>"); container<std::set<int>, int>(a, v, "set<int>"); container<std::multiset<int>, int>(a, v, "multiset<int>");
      container<std::vector<double>, double>(a, w, "vector<double>"); container<std::set<double>, double>(a, w, "set<double>"); container<std::list<char>, char>(a, z, "list<char>"); container<std::multiset<char>, char>(a, z, "multiset<char>");
   }
}
MC_MAIN
