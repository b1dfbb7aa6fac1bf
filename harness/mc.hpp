// Bounded-exhaustive exploration framework for strtk (a sequential, header-only library).
//
// A harness registers sections; every section enumerates a finite space of cases (inputs, configurations or
// operation histories) completely, runs the real code on each and compares it with a boring reference model.
// One process runs one section (harness <section> <tier>), so sections run in parallel.
//
// Output protocol (stdout):   FAIL\t<section>\t<case>\t<message>     property broken in this case
//                             CRASH\t<section>\t<case>\t<what>       sanitizer abort, signal, exception or hang
//                             RESULT\t{json}                         the section completed; what it covered
#ifndef MC_HPP
#define MC_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <iterator>
#include <sstream>
#include <sys/time.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
extern "C" void __gcov_dump(void) __attribute__((weak));      // present in coverage builds only

namespace mc {

// Fixed-size text builder: usable from signal handlers and sanitizer death callbacks.
struct Out
{
   char b[6000]; size_t n;
   Out() : n(0) { b[0] = 0; }
   void c(char ch) { if (n + 2 < sizeof(b)) { b[n++] = ch; b[n] = 0; } }
   Out& operator<<(const char* s) { while (*s) c(*s++); return *this; }
   Out& operator<<(const std::string& s) { return raw(s.data(), s.size()); }
   Out& raw(const char* s, size_t len)           // quoted, escaped
   {
      static const char* hx = "0123456789abcdef";
      c('"');
      for (size_t i = 0; i < len; ++i)
      {
         if (i == 300) { *this << "...(" << len << " bytes)"; break; }
         unsigned char ch = (unsigned char)s[i];
         if (ch == '"' || ch == '\\') { c('\\'); c(ch); }
         else if (ch < 32 || ch > 126) { c('\\'); c('x'); c(hx[ch >> 4]); c(hx[ch & 15]); }
         else c(ch);
      }
      c('"');
      return *this;
   }
   Out& operator<<(char v) { return raw(&v, 1); }
   Out& operator<<(unsigned char v) { return *this << (unsigned int)v; }
   Out& operator<<(signed char v) { return *this << (int)v; }
   Out& operator<<(bool v) { return *this << (v ? "true" : "false"); }
   Out& num(const char* f, long long v) { char t[64]; snprintf(t, sizeof t, f, v); return *this << (const char*)t; }
   Out& operator<<(short v) { return num("%lld", v); }
   Out& operator<<(unsigned short v) { return num("%lld", v); }
   Out& operator<<(int v) { return num("%lld", v); }
   Out& operator<<(long v) { return num("%lld", v); }
   Out& operator<<(long long v) { return num("%lld", v); }
   Out& operator<<(unsigned int v) { return num("%lld", v); }
   Out& operator<<(unsigned long v) { return num("%llu", (long long)v); }
   Out& operator<<(unsigned long long v) { return num("%llu", (long long)v); }
   Out& operator<<(double v) { char t[64]; snprintf(t, sizeof t, "%.17g", v); return *this << (const char*)t; }
   Out& operator<<(float v) { return *this << (double)v; }
   Out& operator<<(const void* v) { char t[64]; snprintf(t, sizeof t, "%p", v); return *this << (const char*)t; }
   template <typename A, typename B> Out& operator<<(const std::pair<A,B>& p) { *this << "("; *this << p.first; *this << ","; *this << p.second; return *this << ")"; }
   template <typename T> Out& seq(const T& t)
   {
      *this << "[";
      size_t k = 0;
      for (typename T::const_iterator i = t.begin(); i != t.end(); ++i, ++k)
      {
         if (k) *this << ",";
         if (k == 60) { *this << "...(" << t.size() << " items)"; break; }
         *this << *i;
      }
      return *this << "]";
   }
   template <typename T, typename A> Out& operator<<(const std::vector<T,A>& v) { return seq(v); }
   template <typename T, typename C, typename A> Out& operator<<(const std::set<T,C,A>& v) { return seq(v); }
   template <typename K, typename T, typename C, typename A> Out& operator<<(const std::map<K,T,C,A>& v) { return seq(v); }
   std::string str() const { return std::string(b, n); }
};

// tools/depth.py counts how often a statement of the library runs between two observations
#ifdef MC_OBSERVE
extern "C" void mc_observe();
#else
inline void mc_observe() {}
#endif
struct Global
{
   const char* section; bool thorough;
   void (*fn)(const void*, Out&); const void* data;   // lazily describes the current case
   unsigned long long evals, states, transitions, traces, failures, tick_case; int ticks;
   std::unordered_set<uint64_t> outcomes, state_set;
   std::vector<std::string> samples;
   std::map<std::string,unsigned long long> notes;
   char last[6000];
   bool finished;
   Global() : section(""), thorough(false), fn(0), data(0), evals(0), states(0), transitions(0), traces(0),
              failures(0), tick_case(0), ticks(0), finished(false) { last[0] = 0; }
};
inline Global& g() { static Global* x = new Global; return *x; }

inline bool thorough() { return g().thorough; }
template <typename T> inline T tier(const T& quick, const T& deep) { return g().thorough ? deep : quick; }

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{ const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
inline uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, sizeof v, h ^ 0x9e3779b97f4a7c15ULL); }

struct Hash
{
   uint64_t h;
   Hash() : h(1469598103934665603ULL) {}
   Hash& operator()(uint64_t v) { h = mix(h, v); return *this; }
   Hash& operator()(const std::string& s) { h = mix(fnv(s.data(), s.size(), h), s.size()); return *this; }
   template <typename T, typename A> Hash& operator()(const std::vector<T,A>& v)
   { (*this)((uint64_t)v.size()); for (size_t i = 0; i < v.size(); ++i) (*this)(v[i]); return *this; }
   template <typename A, typename B> Hash& operator()(const std::pair<A,B>& p) { (*this)(p.first); return (*this)(p.second); }
};

inline std::string json(const std::string& s)
{
   std::string r = "\"";
   for (size_t i = 0; i < s.size(); ++i)
   {
      unsigned char c = s[i];
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
      else r += c;
   }
   return r + "\"";
}

inline void describe(Out& o)
{
   Global& x = g();
   if (x.fn) { void (*f)(const void*, Out&) = x.fn; x.fn = 0; f(x.data, o); x.fn = f; }
   else o << "(outside a case; after: " << (const char*)x.last << ")";
}

inline void crash_line(const char* what)
{
   static bool once = false;
   if (once) return;
   once = true;
   static Out o;
   describe(o);
   const char* parts[] = { "\nCRASH\t", g().section, "\t", o.b, "\t", what, "\n" };
   for (size_t i = 0; i < 7; ++i) { ssize_t r = write(1, parts[i], strlen(parts[i])); (void)r; }
}

// RAII marker of "the case being executed".
template <typename D>
struct Scope
{
   const D& d; void (*pf)(const void*, Out&); const void* pd;
   static void call(const void* p, Out& o) { (*(const D*)p)(o); }
   explicit Scope(const D& dd) : d(dd)
   {
      mc_observe();
      Global& x = g();
      pf = x.fn; pd = x.data;
      x.fn = &call; x.data = &d; ++x.evals;
      if ((x.evals & (x.evals - 1)) == 0 && (x.evals == 1 || x.evals == 64 || x.evals == 4096 || x.evals == 65536 || x.evals == 1048576))
      { Out o; call(&d, o); x.samples.push_back(o.str()); }
   }
   ~Scope() { g().fn = pf; g().data = pd; }
};

inline void finish()
{
   Global& x = g();
   x.finished = true;
   std::string s = "{\"section\":" + json(x.section);
   char t[256];
   snprintf(t, sizeof t, ",\"evals\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"failures\":%llu",
            x.evals, (unsigned long long)x.outcomes.size(), x.states, x.transitions, x.traces, x.failures);
   s += t;
   s += ",\"notes\":{";
   bool first = true;
   for (std::map<std::string,unsigned long long>::iterator i = x.notes.begin(); i != x.notes.end(); ++i)
   { snprintf(t, sizeof t, "%llu", i->second); s += (first ? "" : ",") + json(i->first) + ":" + t; first = false; }
   s += "},\"samples\":[";
   for (size_t i = 0; i < x.samples.size(); ++i) s += (i ? "," : "") + json(x.samples[i].substr(0, 400));
   s += "]}";
   printf("\nRESULT\t%s\n", s.c_str());
   fflush(stdout);
}

inline void fail(const std::string& msg)
{
   Out o; describe(o);
   fflush(stdout);
   std::string line = std::string("\nFAIL\t") + g().section + "\t" + o.b + "\t" + msg + "\n";
   fputs(line.c_str(), stdout); fflush(stdout);
   if (++g().failures >= 5) { finish(); _exit(1); }
}

inline void outcome(uint64_t h) { g().outcomes.insert(h); }
inline void outcome(const Hash& h) { g().outcomes.insert(h.h); }
inline void outcome(const std::string& s) { g().outcomes.insert(Hash()(s).h); }
// Registers a canonical state; true if it was not seen before in this section.
inline bool state(uint64_t h) { bool n = g().state_set.insert(h).second; if (n) ++g().states; return n; }
inline bool state(const Hash& h) { return state(h.h); }
inline void transition() { ++g().transitions; }
inline void trace() { ++g().traces; }
inline void note(const char* k, unsigned long long v = 1) { g().notes[k] += v; }

template <typename A, typename B>
inline void eq(const A& got, const B& want, const char* what)
{
   mc_observe();
   if (!(got == want)) { Out o; o << what << ": got "; o << got; o << " want "; o << want; fail(o.str()); }
}
inline void check(bool ok, const char* what) { mc_observe(); if (!ok) fail(what); }

#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
// MC_CASE(o << "op " << arg): the rest of the enclosing block is one case; the text is only built when needed.
#define MC_CASE(expr) \
   auto MC_CAT(mc_d_,__LINE__) = [&](mc::Out& o) { expr; }; \
   mc::Scope<decltype(MC_CAT(mc_d_,__LINE__))> MC_CAT(mc_s_,__LINE__)(MC_CAT(mc_d_,__LINE__))
#define MC_EQ(got,want) mc::eq((got),(want),#got)
#define MC_EQM(got,want,msg) mc::eq((got),(want),msg)
#define MC_TRUE(x) mc::check(!!(x),#x)

inline void on_death() { crash_line("sanitizer"); }
inline void on_terminate()
{
   const char* what = "uncaught exception";
   static char buf[300];
   try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); }
   catch (const std::exception& e) { snprintf(buf, sizeof buf, "uncaught exception: %s", e.what()); what = buf; }
   catch (...) {}
   crash_line(what);
   _exit(99);
}
inline void on_tick(int)
{
   Global& x = g();
   if (x.finished) return;
   unsigned long long now = x.evals + x.transitions;
   if (now != x.tick_case) { x.tick_case = now; x.ticks = 0; return; }
   if (++x.ticks >= 40) { crash_line("hang: no progress in 40 s of CPU time"); _exit(98); }   // CPU time, not wall time
}

typedef void (*section_fn)();
inline std::vector<std::pair<std::string,section_fn> >& sections() { static std::vector<std::pair<std::string,section_fn> > s; return s; }
struct Reg { Reg(const char* n, section_fn f) { sections().push_back(std::make_pair(std::string(n), f)); } };
#define MC_SECTION(name) static void name(); static mc::Reg MC_CAT(reg_,name)(#name, name); static void name()

inline int main_(int argc, char** argv)
{
   if (argc >= 2 && std::string(argv[1]) == "--list")
   { for (size_t i = 0; i < sections().size(); ++i) printf("%s\n", sections()[i].first.c_str()); return 0; }
   if (argc < 3) { fprintf(stderr, "usage: %s --list | SECTION quick|thorough\n", argv[0]); return 2; }
   Global& x = g();
   x.thorough = std::string(argv[2]) == "thorough";
   for (size_t i = 0; i < sections().size(); ++i)
   {
      if (sections()[i].first != argv[1]) continue;
      x.section = sections()[i].first.c_str();
      if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
      std::set_terminate(on_terminate);
      signal(SIGPROF, on_tick);
      struct itimerval tv = { {1,0}, {1,0} };
      setitimer(ITIMER_PROF, &tv, 0);
      try { sections()[i].second(); }
      catch (const std::exception& e) { std::string m = std::string("exception: ") + e.what(); crash_line(m.c_str()); _exit(97); }
      finish();
      fflush(stdout);
      if (__gcov_dump) __gcov_dump();
      _exit(x.failures ? 1 : 0);
   }
   fprintf(stderr, "no section %s\n", argv[1]);
   return 2;
}

// ---------------------------------------------------------------- enumerators

// All strings over alphabet with length lo..hi, shortest first.
template <typename F>
inline void strings(const std::string& alphabet, size_t lo, size_t hi, F f)
{
   for (size_t len = lo; len <= hi; ++len)
   {
      std::vector<size_t> ix(len, 0);
      std::string s(len, alphabet.empty() ? 'x' : alphabet[0]);
      for (;;)
      {
         f((const std::string&)s);
         size_t p = len;
         while (p > 0) { --p; if (++ix[p] < alphabet.size()) { s[p] = alphabet[ix[p]]; break; } ix[p] = 0; s[p] = alphabet[0]; if (p == 0) { p = (size_t)-1; break; } }
         if (len == 0 || p == (size_t)-1) break;
      }
   }
}

// All vectors over 0..base-1 of exactly len digits.
template <typename F>
inline void tuples(size_t base, size_t len, F f)
{
   std::vector<size_t> ix(len, 0);
   for (;;)
   {
      f((const std::vector<size_t>&)ix);
      size_t p = len;
      bool done = true;
      while (p > 0) { --p; if (++ix[p] < base) { done = false; break; } ix[p] = 0; }
      if (done) return;
   }
}

// Long inputs a small alphabet cannot reach: every length 0..max_len, several fill patterns, the "special"
// character placed at every boundary-relevant position.
template <typename F>
inline void long_strings(size_t max_len, char ordinary, char special, F f)
{
   for (size_t len = 0; len <= max_len; ++len)
   {
      std::string s(len, ordinary);
      f((const std::string&)s);
      for (size_t period = 1; period <= 5; ++period)
      {
         std::string t(len, ordinary);
         for (size_t i = period - 1; i < len; i += period) t[i] = special;
         f((const std::string&)t);
      }
      for (size_t i = 0; i < len; ++i)
      {
         if (len > 40 && i > 2 && i + 3 < len && (i % 8) != 0 && (i % 8) != 7) continue;
         std::string t(len, ordinary); t[i] = special;
         f((const std::string&)t);
      }
   }
}

// All strings over an alphabet, standing in the middle of a longer text: between runs of a filler whose lengths pass
// the small-string buffer, words, blocks and one-byte counters.
template <typename F>
inline void in_context(const std::string& alphabet, size_t lo, size_t hi, char before, char after, F f)
{
   const size_t pre[] = { 0, 1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 255, 256 }, post[] = { 0, 1, 8, 16, 33 };
   for (size_t a = 0; a < sizeof pre / sizeof *pre; ++a)
      for (size_t b = 0; b < sizeof post / sizeof *post; ++b)
      {
         if (!a && !b) continue;
         const std::string x(pre[a], before), y(post[b], after);
         strings(alphabet, lo, hi, [&](const std::string& m) { const std::string s = x + m + y; f((const std::string&)s); });
      }
}

// A sequence of arguments in which every list of 1..n characters follows many different ones of the same and of other lengths:
// all tuples over `alphabet`, backwards, forwards, and alternately from both ends.  Results kept from an earlier call show here.
template <typename F>
inline void lists_in_turn(const std::string& alphabet, size_t n, F f)
{
   std::vector<std::string> all;
   strings(alphabet, 1, n, [&](const std::string& d) { all.push_back(d); });
   std::string first; for (size_t i = 0; i < n; ++i) first += alphabet[i % (alphabet.size() - 1)];   // no two neighbours alike
   f((const std::string&)first);
   for (size_t i = all.size(); i-- > 0; ) f((const std::string&)all[i]);
   for (size_t i = 0; i < all.size(); ++i) f((const std::string&)all[i]);
   for (size_t i = 0; i < all.size() / 2; ++i) { f((const std::string&)all[i]); f((const std::string&)all[all.size() - 1 - i]); }
}
// The same list, always at the same address: only the characters tell one list from the next.
inline const char* same_place(const std::string& list)
{
   static char place[1024];
   memcpy(place, list.c_str(), list.size() + 1);
   return place;
}

// Sizes around the places where narrow counters, 16-bit offsets and block boundaries show.
inline std::vector<size_t> scales(size_t lo = 0, size_t hi = 140000)
{
   static const size_t k[] = { 31,32,33,63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025,4095,4096,4097,32767,32768,32769,65535,65536,65537,131072,131073 };
   std::vector<size_t> r;
   for (size_t i = 0; i < sizeof(k) / sizeof(k[0]); ++i) if (k[i] >= lo && k[i] <= hi) r.push_back(k[i]);
   return r;
}
// A sequence that can be walked through only once: the words of a text, read from a stream.
template <typename T> struct Once
{
   typedef std::istream_iterator<T> It; std::istringstream is; It b, e;
   explicit Once(const std::vector<T>& v) { std::ostringstream o; for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i]; is.str(o.str()); b = It(is); }
};
// What a target may hold before a function that is to give it the text w: nothing, something else of the same length, nearly the
// same, a longer and a shorter text. The result may not depend on it.
inline std::vector<std::string> stale(const std::string& w)
{
   std::vector<std::string> r(1, "old");
   r.push_back(std::string(w.size(), '~'));
   r.push_back(w + "~"); r.push_back("");
   if (!w.empty()) { std::string s = w; s[s.size() - 1] ^= 1; r.push_back(s); s = w; s[0] ^= 1; r.push_back(s); r.push_back(w.substr(0, w.size() - 1)); }
   return r;
}
// Strings of those sizes in which the special character stands nowhere, everywhere, at the ends, in the middle,
// in runs, regularly, or at power-of-two places. f(string, pattern)
template <typename F>
inline void huge_strings(char ordinary, char special, F f, size_t lo = 0, size_t hi = 140000)
{
   std::vector<size_t> n = scales(lo, hi);
   for (size_t k = 0; k < n.size(); ++k)
      for (int pat = 0; pat < 11; ++pat)
      {
         const size_t len = n[k];
         std::string s(len, ordinary);
         switch (pat)
         {
            case 0 : break;
            case 1 : s.assign(len, special); break;
            case 2 : s[0] = special; break;
            case 3 : s[len - 1] = special; break;
            case 4 : s[len / 2] = special; break;
            case 5 : for (size_t i = 0; i < len; i += 2) s[i] = special; break;
            case 6 : for (size_t i = 1; i < len; i += 2) s[i] = special; break;
            case 7 : for (size_t i = 0; i < len; i += 3) s[i] = special; break;
            case 8 : for (size_t i = 0; i < len / 2; ++i) s[i] = special; break;
            case 9 : for (size_t i = len / 2; i < len; ++i) s[i] = special; break;
            case 10: for (size_t i = 1; i < len; i *= 2) s[i] = special; break;
         }
         f((const std::string&)s, pat);
      }
}

// A fixed text of n letters without a short period.
inline std::string letters(size_t n, char base = 'a')
{ std::string s; uint32_t x = 12345; for (size_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; s += (char)(base + (x >> 16) % 26); } return s; }

// Exact-size heap copies, so that the address sanitizer sees any access outside the input.
template <typename T>
struct Buf
{
   T* p; size_t n;
   explicit Buf(size_t k) : p(new T[k]()), n(k) {}
   Buf(const T* s, size_t k) : p(new T[k]), n(k) { for (size_t i = 0; i < k; ++i) p[i] = s[i]; }
   explicit Buf(const std::string& s) : p(new T[s.size()]), n(s.size()) { for (size_t i = 0; i < n; ++i) p[i] = (T)s[i]; }
   template <typename U> explicit Buf(const std::vector<U>& v) : p(new T[v.size()]), n(v.size()) { for (size_t i = 0; i < n; ++i) p[i] = (T)v[i]; }
   ~Buf() { delete[] p; }
   T* begin() const { return p; }
   T* end() const { return p + n; }
   std::string str() const { return std::string((const char*)p, (const char*)p + n * sizeof(T)); }
private:
   Buf(const Buf&); Buf& operator=(const Buf&);
};

// An appending output iterator that keeps to the output iterator protocol: a copy remembers its own position,
// so writing a position twice, or advancing past one not yet written, is reported (a plain array would lose data).
template <typename C>
struct Append
{
   typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; typedef C container_type;
   struct Slot { Append* a; template <typename V> void operator=(const V& v) { check(a->pos == a->c->size(), "an output position was written twice or out of order"); a->c->push_back(v); } };
   C* c; size_t pos;
   explicit Append(C& k) : c(&k), pos(k.size()) {}
   Slot operator*() { Slot s = { this }; return s; }
   Append& operator++() { check(pos < c->size(), "an output position was skipped"); ++pos; return *this; }
   struct Post { C* c; size_t at; template <typename V> void operator=(const V& v) { check(at == c->size(), "an output position was written twice or out of order"); c->push_back(v); } Post& operator*() { return *this; } };
   Post operator++(int) { Post q = { c, pos }; ++pos; return q; }
};
template <typename C> inline Append<C> append(C& c) { return Append<C>(c); }

inline size_t live_bytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

// A scratch directory that removes itself.
struct Scratch
{
   std::string dir;
   Scratch()
   {
      const char* base = getenv("MC_SCRATCH");
      std::string t = std::string(base ? base : "/tmp") + "/strtk-mc-XXXXXX";
      std::vector<char> v(t.begin(), t.end()); v.push_back(0);
      if (!mkdtemp(&v[0])) { perror("mkdtemp"); _exit(2); }
      dir = &v[0];
   }
   std::string file(const std::string& n) { names.insert(n); return dir + "/" + n; }
   std::set<std::string> names;
   ~Scratch() { for (std::set<std::string>::iterator i = names.begin(); i != names.end(); ++i) unlink((dir + "/" + *i).c_str()); rmdir(dir.c_str()); }
};
inline std::string slurp(const std::string& path)
{ std::string r; FILE* f = fopen(path.c_str(), "rb"); if (!f) return "<missing>"; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k); fclose(f); return r; }
inline void spill(const std::string& path, const std::string& data)
{ FILE* f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); _exit(2); } if (!data.empty()) { size_t k = fwrite(data.data(), 1, data.size(), f); (void)k; } fclose(f); }

} // namespace mc

#define MC_MAIN int main(int argc, char** argv) { return mc::main_(argc, argv); }
#endif
