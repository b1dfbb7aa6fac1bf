// F02: text files hold one element a line: loading gives every line, converted, in order; writing gives every element followed by the delimiter.
#include "split_model.hpp"
#include <deque>
#include <list>
#include <queue>
#include <stack>
#include <sstream>
typedef std::string S;
typedef std::vector<S> VS;

static VS lines(const S& t) { VS r; S c; bool open = false; for (char x : t) if (x == '\n') { r.push_back(c); c.clear(); open = false; } else { c += x; open = true; } if (open) r.push_back(c); return r; }
template <typename C> struct Top { static S front(C& q) { return q.top(); } };
template <typename T, typename Q> struct Top<std::queue<T, Q> > { static S front(std::queue<T, Q>& q) { return q.front(); } };
template <typename C> static VS drain(C q) { VS r; while (!q.empty()) { r.push_back(Top<C>::front(q)); q.pop(); } return r; }
static void load(const S& text, const S& f, size_t buf, const VS& before)
{
   MC_CASE(o << "load " << text << " buffer " << buf << " after " << before);
   const VS w = lines(text); mc::spill(f, text); VS seq = before; seq.insert(seq.end(), w.begin(), w.end());
   for (int file = 0; file < 2; ++file)
   {
      std::istringstream in; auto go = [&](auto& c) { if (file) return strtk::load_from_text_file(f, c, buf); in.clear(); in.str(text); return strtk::load_from_text_file((std::istream&)in, c, buf); };
      VS v(before.begin(), before.end()); MC_EQM(go(v), w.size(), "lines"); MC_EQM(v, seq, "vector");
      std::deque<S> d(before.begin(), before.end()); MC_EQM(go(d), w.size(), "lines"); MC_EQM(VS(d.begin(), d.end()), seq, "deque");
      std::list<S> l(before.begin(), before.end()); MC_EQM(go(l), w.size(), "lines"); MC_EQM(VS(l.begin(), l.end()), seq, "list");
      VS so = seq; std::sort(so.begin(), so.end()); VS un = so; un.erase(std::unique(un.begin(), un.end()), un.end());
      std::set<S> s(before.begin(), before.end()); MC_EQM(go(s), w.size(), "lines"); MC_EQM(VS(s.begin(), s.end()), un, "set");
      std::multiset<S> m(before.begin(), before.end()); MC_EQM(go(m), w.size(), "lines"); MC_EQM(VS(m.begin(), m.end()), so, "multiset");
      if (text.size() > 5000) { } else {
      std::set<S, std::greater<S> > gs(before.begin(), before.end()); MC_EQM(go(gs), w.size(), "lines"); MC_EQM(VS(gs.begin(), gs.end()), VS(un.rbegin(), un.rend()), "descending set");
      std::multiset<S, std::greater<S> > gm(before.begin(), before.end()); MC_EQM(go(gm), w.size(), "lines"); MC_EQM(VS(gm.begin(), gm.end()), VS(so.rbegin(), so.rend()), "descending multiset");
      std::priority_queue<S, std::deque<S>, std::greater<S> > gp; for (auto& b : before) gp.push(b); MC_EQM(go(gp), w.size(), "lines"); MC_EQM(drain(gp), so, "ascending priority_queue");
      std::queue<S, std::list<S> > ql; for (auto& b : before) ql.push(b); MC_EQM(go(ql), w.size(), "lines"); MC_EQM(drain(ql), seq, "queue in a list"); }
      std::queue<S> q; for (auto& b : before) q.push(b); MC_EQM(go(q), w.size(), "lines"); MC_EQM(drain(q), seq, "queue");
      std::stack<S> k; for (auto& b : before) k.push(b); MC_EQM(go(k), w.size(), "lines"); MC_EQM(drain(k), VS(seq.rbegin(), seq.rend()), "stack");
      std::priority_queue<S> p; for (auto& b : before) p.push(b); MC_EQM(go(p), w.size(), "lines"); MC_EQM(drain(p), VS(so.rbegin(), so.rend()), "priority_queue");
   }
   mc::outcome(mc::Hash()(text)(before.size())); mc::trace(); mc::state(mc::Hash()(w));
}
MC_SECTION(load_strings)
{
   mc::Scratch d; const S f = d.file("t");
   mc::strings("a\n", 0, mc::tier<size_t>(8, 11), [&](const S& s) { load(s, f, 16, VS()); });
   mc::strings(S("a\n\r\0", 4), 0, mc::tier<size_t>(4, 5), [&](const S& s) { load(s, f, 1024, VS()); load(s, f, 0, {"b", "a", "b"}); });
   mc::strings(S("\xFF\n \t", 4), 0, 4, [&](const S& s) { load(s, f, 1, VS(1, "")); });
   for (size_t n : {15u, 16u, 17u, 1023u, 1024u, 1025u, 5000u}) { load(S(n, 'x'), f, 16, VS()); load(S(n, 'x') + "\n", f, 1024, VS()); load("a\n" + S(n, 'x') + "\n\nb", f, 1024, VS()); load(S(n, '\n'), f, 8, VS()); }
}
MC_SECTION(huge)
{
   mc::Scratch d; const S f = d.file("t");
   mc::huge_strings('x', '\n', [&](const S& s, int) { load(s, f, 1024, VS(1, "first")); });
   for (size_t n : {255u, 256u, 257u, 65535u, 65536u, 65537u, 131073u}) { load(S(n, '\n'), f, 1024, VS()); load(S(n, 'x'), f, 1024, VS()); S t; for (size_t i = 0; i < n; ++i) t += std::to_string(i * 7919 % 100003) + "\n"; load(t, f, n, VS());
      VS v; for (size_t i = 0; i < n; ++i) v.push_back(std::to_string(i * 7919 % 100003)); MC_CASE(o << n << " lines written and read back"); MC_EQ(strtk::write_to_text_file(f, v, "\n"), n); VS r; MC_EQ(strtk::load_from_text_file(f, r), n); MC_TRUE(r == v); }
}
MC_SECTION(every_byte)
{
   mc::Scratch d; const S f = d.file("t");
   for (int c = 0; c < 256; ++c) for (int e : {(int)'\n', (int)'a', c}) for (const S& t : {S(1, (char)c), S("a") + (char)c + "b\n" + (char)c, S(3, (char)c) + (char)e + (char)c + (char)e}) { load(t, f, 64, VS()); VS v(2, S(1, (char)c) + "q"); if (c != '\n') { MC_CASE(o << "byte " << c); strtk::write_to_text_file(f, v, "\n"); VS r; strtk::load_from_text_file(f, r); MC_EQ(r, v); } }
}
MC_SECTION(load_numbers)
{
   mc::Scratch d; const S f = d.file("t"); static const char* N[] = {"0", "1", "-1", "2147483647", "-2147483648", "+7", "007", "12345"}; static const int V[] = {0, 1, -1, INT_MAX, INT_MIN, 7, 7, 12345};
   for (size_t n = 0; n <= mc::tier<size_t>(4, 5); ++n) mc::tuples(8, n, [&](const std::vector<size_t>& ix) {
      S t; std::vector<int> w; for (size_t i : ix) { t += S(N[i]) + "\n"; w.push_back(V[i]); } if (n && ix[0] % 2) t.erase(t.size() - 1);
      MC_CASE(o << "numbers " << t); std::istringstream in(t); std::vector<int> v; MC_EQ(strtk::load_from_text_file((std::istream&)in, v), n); MC_EQ(v, w); in.clear(); in.str(t); std::multiset<long long> m; MC_EQ(strtk::load_from_text_file((std::istream&)in, m), n); MC_TRUE(m == std::multiset<long long>(w.begin(), w.end()));
      in.clear(); in.str(t); std::deque<double> q; MC_EQ(strtk::load_from_text_file((std::istream&)in, q), n); MC_TRUE(std::equal(q.begin(), q.end(), w.begin()) && q.size() == n); in.clear(); in.str(t); std::queue<short> k; if (!n) MC_EQ(strtk::load_from_text_file((std::istream&)in, k), n); mc::outcome(mc::Hash()(t)); });
   MC_CASE(o << "missing file"); std::vector<int> v(1, 5); MC_EQ(strtk::load_from_text_file(d.dir + "/none", v), (size_t)0); MC_EQ(v.size(), (size_t)1); std::set<S> s; MC_EQ(strtk::load_from_text_file(d.dir + "/none", s), (size_t)0); std::ifstream bad; MC_EQ(strtk::load_from_text_file((std::istream&)bad, v), (size_t)0); std::stack<S> k; std::istringstream fail("a\n"); fail.setstate(std::ios::failbit); MC_EQ(strtk::load_from_text_file((std::istream&)fail, k), (size_t)0); MC_EQ(k.empty(), true);
}
template <typename C> static void write(const C& c, const S& w, const S& delim, const S& f, bool dflt)
{
   std::ostringstream os; os << "head:"; MC_EQM(dflt ? strtk::write_to_text_file((std::ostream&)os, c) : strtk::write_to_text_file((std::ostream&)os, c, delim), c.size(), "count"); MC_EQM(os.str(), "head:" + w, "stream");
   mc::spill(f, S(300, 'o')); MC_EQM(dflt ? strtk::write_to_text_file(f, c) : strtk::write_to_text_file(f, c, delim), c.size(), "count"); MC_EQM(mc::slurp(f), w, "file");
   std::ostringstream bad; bad.setstate(std::ios::failbit); MC_EQM(strtk::write_to_text_file((std::ostream&)bad, c, delim), (size_t)0, "unusable stream");
}
template <typename T> static S text(const std::vector<T>& v, const S& d) { std::ostringstream o; for (auto& x : v) o << x << d; return o.str(); }
template <typename T> static void writes(const std::vector<T>& v, const S& delim, const S& f)
{
   MC_CASE(o << "write " << text(v, "|") << " delimiter " << delim);
   for (int dflt = 0; dflt <= (delim.empty() ? 1 : 0); ++dflt)
   {
      write(v, text(v, delim), delim, f, dflt); write(std::deque<T>(v.begin(), v.end()), text(v, delim), delim, f, dflt); write(std::list<T>(v.begin(), v.end()), text(v, delim), delim, f, dflt);
      const std::set<T> s(v.begin(), v.end()); write(s, text(std::vector<T>(s.begin(), s.end()), delim), delim, f, dflt); const std::multiset<T> m(v.begin(), v.end()); write(m, text(std::vector<T>(m.begin(), m.end()), delim), delim, f, dflt);
      const std::set<T, std::greater<T> > gs(v.begin(), v.end()); write(gs, text(std::vector<T>(gs.begin(), gs.end()), delim), delim, f, dflt); const std::multiset<T, std::greater<T> > gm(v.begin(), v.end()); write(gm, text(std::vector<T>(gm.begin(), gm.end()), delim), delim, f, dflt);
   }
   mc::outcome(mc::Hash()(text(v, "|"))(delim));
}
MC_SECTION(write_)
{
   mc::Scratch d; const S f = d.file("t"); static const char* E[] = {"", "a", "bc", "x y", "\n"};
   for (size_t n = 0; n <= mc::tier<size_t>(4, 5); ++n) mc::tuples(5, n, [&](const std::vector<size_t>& ix) { VS v; for (size_t i : ix) v.push_back(E[i]); for (const S& dl : VS{"", "\n", "\r\n", S("\0", 1)}) writes(v, dl, f); });
   for (size_t n = 0; n <= 3; ++n) mc::tuples(4, n, [&](const std::vector<size_t>& ix) { std::vector<int> v; std::vector<double> w; std::vector<char> c; static const int V[] = {0, -1, INT_MAX, 5}; for (size_t i : ix) { v.push_back(V[i]); w.push_back(V[i] / 4.0); c.push_back("a\nz\0"[i]); } for (const S& dl : VS{"", "\n", ","}) { writes(v, dl, f); writes(w, dl, f); writes(c, dl, f); } });
   for (size_t n : {100u, 5000u}) { VS v; for (size_t i = 0; i < n; ++i) v.push_back("line " + std::to_string((i * 7919) % n)); writes(v, "\n", f); }
   MC_CASE(o << "unwritable"); MC_EQ(strtk::write_to_text_file(d.dir + "/none/x", VS(2, "a"), "\n"), (size_t)0); MC_EQ(strtk::write_to_text_file(d.dir + "/none/x", std::set<int>(), "\n"), (size_t)0); MC_EQ(strtk::write_to_text_file(d.dir + "/none/x", std::multiset<S>(), "\n"), (size_t)0);
}
MC_SECTION(huge_writes)
{
   mc::Scratch d; const S f = d.file("t");
   for (size_t n : mc::scales(6, mc::tier(70000, 140000))) for (const S& dl : VS{"\n", "", ", "})
   {
      if (n > 5000 && dl == ", ") continue;
      VS v; std::vector<int> w; for (size_t i = 0; i < n; ++i) { v.push_back(i % 5 == 3 ? S() : std::to_string((i * 7919) % (n / 2 + 1))); w.push_back((int)(i * 7919 % 1009) - 500); }
      writes(v, dl, f); writes(w, dl, f);
   }
}
MC_SECTION(round_trip)
{
   mc::Scratch d; const S f = d.file("t"); static const char* E[] = {"", "a", "b c", "\r", "0"};
   for (size_t n = 0; n <= mc::tier<size_t>(5, 6); ++n) mc::tuples(5, n, [&](const std::vector<size_t>& ix) { VS v; for (size_t i : ix) v.push_back(E[i]); MC_CASE(o << "round trip " << v); strtk::write_to_text_file(f, v, "\n"); VS r; MC_EQ(strtk::load_from_text_file(f, r), n); MC_EQ(r, v); std::multiset<S> m(v.begin(), v.end()), k; strtk::write_to_text_file(f, m, "\n"); strtk::load_from_text_file(f, k); MC_TRUE(k == m); mc::trace(); mc::outcome(mc::Hash()(v)); });
   for (size_t n = 0; n <= 3; ++n) mc::tuples(6, n, [&](const std::vector<size_t>& ix) { static const long long V[] = {0, -1, LLONG_MAX, LLONG_MIN, 1000000007, -42}; std::vector<long long> v, r; for (size_t i : ix) v.push_back(V[i]); MC_CASE(o << "round trip of " << n << " 64-bit integers"); strtk::write_to_text_file(f, v, "\n"); MC_EQ(strtk::load_from_text_file(f, r), n); MC_EQ(r, v); mc::outcome(mc::Hash()(n)((uint64_t)(n ? v[0] : 7))); });
}
MC_MAIN
