// Line-oriented reading and parsing.
#include "parse_model.hpp"
#include "parse_arity.hpp"
#include <fstream>
#include <sstream>
typedef strtk::split_options::type O;

// lines as std::getline defines them: '\n' terminates, a final unterminated non-empty piece is a line
static SV lines_of(const std::string& t)
{
   SV r; size_t b = 0;
   while (b < t.size()) { size_t e = t.find('\n', b); if (e == std::string::npos) e = t.size(); r.push_back(t.substr(b, e - b)); b = e + 1; }
   return r;
}
template <typename F> static void texts_of(F f)
{
   const char* menu[] = { "", "1", "2,-3", "x", "4,x,5", ",", ",6,,7,", "a b" };
   for (size_t n = 0; n <= (size_t)mc::tier(3, 5); ++n)
      mc::tuples(8, n, [&](const std::vector<size_t>& t) {
         std::string s; for (size_t i = 0; i < n; ++i) { if (i) s += '\n'; s += menu[t[i]]; }
         f((const std::string&)s);
         f((const std::string&)(s + "\n"));
      });
   for (size_t n = 1000; n <= 1050; n += 5)            // around the default buffer size
   {
      std::string s(n, '1'); for (size_t i = 3; i < n; i += 4) s[i] = ',';
      f((const std::string&)(s + "\n2\n")); f((const std::string&)("3\n\n" + s)); f((const std::string&)s);
   }
}
struct Collect { SV* v; void operator()(const std::string& s) { v->push_back(s); } };
struct CollectUntil { SV* v; size_t stop; bool operator()(const std::string& s) { v->push_back(s); return v->size() != stop; } };

MC_SECTION(for_each_line)
{
   mc::Scratch sc; std::string f = sc.file("t");
   texts_of([&](const std::string& t) {
      MC_CASE(o << "for_each_line over " << t);
      mc::spill(f, t);
      SV want = lines_of(t);
      for (int file = 0; file < 2; ++file)
         for (size_t buf = 0; buf <= 16; buf += 16)
         {
            { SV v; Collect c = { &v }; std::istringstream is(t);
              MC_EQ(file ? strtk::for_each_line(f, c, buf) : strtk::for_each_line(is, c, buf), want.size()); MC_EQ(v, want); }
            for (size_t n = 1; n <= want.size() + 1; ++n)
            { SV v; Collect c = { &v }; std::istringstream is(t);
              SV w(want.begin(), want.begin() + std::min(n, want.size()));
              MC_EQ(file ? strtk::for_each_line_n(f, n, c, buf) : strtk::for_each_line_n(is, n, c, buf), w.size()); MC_EQ(v, w); }
            for (size_t stop = 1; stop <= want.size() + 1; ++stop)     // the predicate rejects line number stop
            {
               SV w(want.begin(), want.begin() + std::min(stop, want.size()));
               { SV v; CollectUntil c = { &v, stop }; std::istringstream is(t);
                 MC_EQ(file ? strtk::for_each_line_conditional(f, c, buf) : strtk::for_each_line_conditional(is, c, buf), std::min(stop - 1, want.size())); MC_EQ(v, w); }
               for (size_t n = 1; n <= want.size() + 1; ++n)
               { SV v; CollectUntil c = { &v, stop }; std::istringstream is(t);
                 SV w2(want.begin(), want.begin() + std::min(n, std::min(stop, want.size())));
                 MC_EQ(file ? strtk::for_each_line_n_conditional(f, n, c, buf) : strtk::for_each_line_n_conditional(is, n, c, buf), std::min(n, std::min(stop - 1, want.size()))); MC_EQ(v, w2); }
            }
         }
      mc::outcome(mc::Hash()(want));
   });
   MC_CASE(o << "for_each_line of a file that does not exist");
   SV v; Collect c = { &v }; CollectUntil u = { &v, 1 }; std::string no = sc.dir + "/absent";
   MC_EQ(strtk::for_each_line(no, c), (size_t)0); MC_EQ(strtk::for_each_line_n(no, 3, c), (size_t)0);
   MC_EQ(strtk::for_each_line_conditional(no, u), (size_t)0); MC_EQ(strtk::for_each_line_n_conditional(no, 3, u), (size_t)0); MC_EQ(v, SV());
   MC_EQ(mc::slurp(no), "<missing>");
}
MC_SECTION(read_line_as_value)
{
   texts_of([&](const std::string& t) {
      MC_CASE(o << "read_line_as_value over " << t);
      SV want = lines_of(t);
      std::istringstream is(t), is2(t);
      for (size_t i = 0; i <= want.size(); ++i)
      {
         int v = -777, w = -777; bool ok = i < want.size() && conv(want[i], w);
         MC_EQ(strtk::read_line_as_value(is, v), ok); if (ok) MC_EQ(v, w);
         std::string s = "?", ws = i < want.size() ? want[i] : "?";
         MC_EQ(strtk::read_line_as_value(is2, s), i < want.size()); MC_EQ(s, ws);
      }
      mc::outcome(mc::Hash()(want));
   });
}
MC_SECTION(read_line_as_value_sizes)
{
   // The buffer size is a hint: a line of any length, read with any of them, gives the value of the whole line.
   static const size_t caps[] = { 0, 1, 2, 16, 255, 256, 1024, 4096, 70000 };
   for (size_t n : mc::scales(0, mc::tier<size_t>(70000, 140000))) for (size_t c = 0; c <= sizeof caps / sizeof *caps; ++c)
   {
      MC_CASE(o << "read_line_as_value, lines of " << n << " bytes, buffer size number " << c);
      std::string l = mc::letters(n, 'q'), z = std::string(n - 2, '0') + "42"; for (char& x : l) if (x == '\n') x = 'n';
      std::istringstream is(l + "\n" + z + "\n-7\n" + z); std::string s; int v = 0;
      const bool d = c == sizeof caps / sizeof *caps;
      MC_TRUE(d ? strtk::read_line_as_value(is, s) : strtk::read_line_as_value(is, s, caps[c])); MC_TRUE(s == l);
      for (int k = 0; k < 3; ++k) { v = 0; int w = 0; const std::string t = k == 1 ? "-7" : z; const bool ok = strtk::string_to_type_converter(t, w); MC_EQ(d ? strtk::read_line_as_value(is, v) : strtk::read_line_as_value(is, v, caps[c]), ok); if (ok) MC_EQ(v, w); }
      MC_TRUE(!strtk::read_line_as_value(is, s)); mc::outcome(mc::Hash()(n)(c));
   }
}
template <typename T> static bool call(size_t k, std::ifstream& f, const std::string& d, T* v)
{
   switch (k)
   {
      #define M(N) case N: return strtk::parse_line(f, d, AR##N);
      EACH12(M)
      #undef M
   }
   return false;
}
// A line that is empty is consumed and reported as a failure; any other line is what parse() makes of it.
template <typename T> static void values(const std::string& file, const SV& ls, const std::string& d, size_t k)
{
   std::ifstream f(file.c_str());
   for (size_t i = 0; i <= ls.size(); ++i)
   {
      std::vector<T> want(12, Sentinel<T>::get());
      bool w = i < ls.size() && !ls[i].empty() && model(texts(ls[i], model_split(ls[i], d, 1)), k, want.data());
      mc::Buf<T> v(12); for (int q = 0; q < 12; ++q) v.p[q] = Sentinel<T>::get();
      MC_EQM(call(k, f, d, v.p), w, "parse_line result"); MC_EQM(std::vector<T>(v.begin(), v.end()), want, "parse_line values");
      mc::outcome(mc::Hash()(k)(w)(i < ls.size() ? ls[i] : ""));
   }
}
MC_SECTION(parse_line_values)
{
   mc::Scratch sc; std::string f = sc.file("t");
   texts_of([&](const std::string& t) {
      mc::spill(f, t);
      SV ls = lines_of(t);
      for (size_t k = 1; k <= 3; ++k)
      {
         MC_CASE(o << "parse_line of " << k << " values, line after line, from " << t);
         values<int>(f, ls, ",", k); values<std::string>(f, ls, ", ", k);
      }
   });
}
MC_SECTION(delimiter_lists_in_turn)
{
   mc::Scratch sc; std::string f = sc.file("t");
   const std::string t = "1,2;3|4\n5|6,7\n1;,|2;3\n"; mc::spill(f, t); const SV ls = lines_of(t);
   mc::lists_in_turn(",;|", mc::tier(3, 4), [&](const std::string& d) { for (size_t k = 1; k <= 3; ++k) { MC_CASE(o << "parse_line of " << k << " values, delims=" << d << " from " << t); values<int>(f, ls, d, k); values<std::string>(f, ls, d, k); } });
}
MC_SECTION(parse_line_every_arity)
{
   mc::Scratch sc; std::string f = sc.file("t");
   for (size_t n = 0; n <= 14; ++n)
      for (size_t bad = 0; bad <= n; ++bad)
         for (size_t k = 1; k <= 12; ++k)
         {
            std::string s;
            for (size_t i = 0; i < n; ++i) { if (i) s += (i % 3) ? "," : ",,"; if (i + 1 == bad) s += "x"; else s += std::to_string((int)i * 7 - 3); }
            MC_CASE(o << "parse_line of " << k << " values from line " << s);
            std::string t = s + "\n1,2,3,4,5,6,7,8,9,10,11,12\n\n" + s;
            mc::spill(f, t);
            values<int>(f, lines_of(t), ",", k); if (!bad) values<std::string>(f, lines_of(t), ",", k);
         }
}
template <typename T, typename C> struct Cont
{
   static void line(const char* kind, const std::string& file, const SV& ls, const std::string& d, const O opt)
   {
      std::ifstream f(file.c_str());
      C c, w; put(c, Sentinel<T>::get()); put(w, Sentinel<T>::get());
      for (size_t i = 0; i <= ls.size(); ++i)
      {
         size_t n = 0;
         if (i < ls.size())
         { SV tok = texts(ls[i], model_split(ls[i], d, opt)); n = tok.size(); for (size_t q = 0; q < tok.size(); ++q) { T t; if (conv(tok[q], t)) put(w, t); } }
         if (opt == 1 && (i & 1)) MC_EQM(strtk::parse_line(f, d, c), n, kind); else MC_EQM(strtk::parse_line(f, d, c, opt), n, kind);
         C a(c), b(w); MC_EQM(drain(a), drain(b), kind);
      }
   }
   static void line_n(const char* kind, const std::string& file, const SV& ls, const std::string& d, const O opt, size_t n)
   {
      std::ifstream f(file.c_str());
      C c, w; put(c, Sentinel<T>::get()); put(w, Sentinel<T>::get());
      for (size_t i = 0; i <= ls.size(); ++i)
      {
         size_t before = w.size();
         if (i < ls.size())
         { SV tok = texts(ls[i], model_split(ls[i], d, opt)); for (size_t q = 0; q < tok.size() && q < n; ++q) { T t; if (conv(tok[q], t)) put(w, t); } }
         size_t added = w.size() - before;
         if (opt == 1 && (i & 1)) MC_EQM(strtk::parse_line_n(f, d, n, c), added, kind); else MC_EQM(strtk::parse_line_n(f, d, n, c, opt), added, kind);
         C a(c), b(w); MC_EQM(drain(a), drain(b), kind);
      }
   }
};
MC_SECTION(parse_line_containers)
{
   mc::Scratch sc; std::string f = sc.file("t");
   size_t turn = 0;
   texts_of([&](const std::string& t) {
      mc::spill(f, t);
      SV ls = lines_of(t);
      const O opt = (O)(turn++ % 8), o2 = 1;
      {
         MC_CASE(o << "parse_line into containers, options " << opt << ", from " << t);
         #define M(K,...) Cont<int,__VA_ARGS__ >::line(K, f, ls, ",", opt); Cont<int,__VA_ARGS__ >::line(K, f, ls, ",", o2);
         EACH_CONTAINER(M,int)
         #undef M
         mc::outcome(mc::Hash()(opt)(ls));
      }
      for (size_t n = 0; n <= 4; ++n)
      {
         if (t.size() > 100 && n < 4) continue;
         MC_CASE(o << "parse_line_n(" << n << ") into containers, options " << opt << ", from " << t);
         #define M(K,...) Cont<int,__VA_ARGS__ >::line_n(K, f, ls, ",", opt, n);
         EACH_CONTAINER(M,int)
         #undef M
         Cont<std::string,std::vector<std::string> >::line_n("strings", f, ls, ", ", opt, n);
      }
   });
}
// many lines and long lines; nothing but '\n' ends a line, and buffer_size is only a hint
static void big(const std::string& f, const std::string& t, bool parse_too)
{
   mc::spill(f, t); const SV want = lines_of(t);
   for (size_t buf : {0u, 1u, 255u, 256u, 5000u, 70000u})
   {
      MC_CASE(o << want.size() << " lines, " << t.size() << " bytes, buffer of " << buf);
      for (int file = 0; file < 2; ++file)
      {
         { SV v; Collect c = { &v }; std::istringstream is(t); MC_EQ(file ? strtk::for_each_line(f, c, buf) : strtk::for_each_line(is, c, buf), want.size()); MC_TRUE(v == want); }
         for (size_t n : {(size_t)255, (size_t)256, (size_t)257, (size_t)65536, want.size(), want.size() + 1})
         {
            if (n == 0 || n > want.size() + 1) continue;
            const SV w(want.begin(), want.begin() + std::min(n, want.size()));
            { SV v; Collect c = { &v }; std::istringstream is(t); MC_EQ(file ? strtk::for_each_line_n(f, n, c, buf) : strtk::for_each_line_n(is, n, c, buf), w.size()); MC_TRUE(v == w); }
            { SV v; CollectUntil c = { &v, n }; std::istringstream is(t); MC_EQ(file ? strtk::for_each_line_conditional(f, c, buf) : strtk::for_each_line_conditional(is, c, buf), n <= want.size() ? n - 1 : want.size()); MC_TRUE(v == w); }
            { SV v; CollectUntil c = { &v, n + 1 }; std::istringstream is(t); MC_EQ(file ? strtk::for_each_line_n_conditional(f, n, c, buf) : strtk::for_each_line_n_conditional(is, n, c, buf), w.size()); MC_TRUE(v == w); }
         }
      }
   }
   if (!parse_too) return;
   MC_CASE(o << "parsing " << want.size() << " lines, " << t.size() << " bytes");
   for (size_t k : {1u, 2u, 12u}) { values<int>(f, want, ",", k); values<std::string>(f, want, ",;", k); }
   Cont<int, std::vector<int> >::line("vector", f, want, ",", 1); Cont<int, std::set<int> >::line_n("set", f, want, ",", 1, 300); Cont<int, std::deque<int> >::line_n("deque", f, want, ",", 1, 65536); Cont<std::string, std::list<std::string> >::line("list", f, want, ",", 0);
   mc::outcome(mc::Hash()(t.size())(want.size()));
}
MC_SECTION(many_lines)
{
   mc::Scratch sc; const std::string f = sc.file("t");
   for (size_t n : mc::scales(200, mc::tier<size_t>(66000, 140000)))
      for (int pat = 0; pat < 3; ++pat)
      {
         if (n > 5000 && pat) continue;
         std::string t; for (size_t i = 0; i < n; ++i) t += (pat == 1 ? std::string() : pat == 2 && i % 256 == 255 ? std::string("x") : std::to_string(i) + "," + std::to_string(i % 7)) + "\n"; if (pat) t.erase(t.size() - 1);
         big(f, t, n < 600);
      }
}
MC_SECTION(long_lines)
{
   mc::Scratch sc; const std::string f = sc.file("t");
   for (size_t n : mc::scales(200, mc::tier<size_t>(70000, 140000)))
      for (int pat = 0; pat < 3; ++pat)
      {
         std::string l; if (pat == 0) l = std::string(n, '7'); else if (pat == 1) { while (l.size() < n) l += std::to_string(l.size() * 31 % 1000) + ","; l.resize(n); } else for (size_t i = 0; i < n; ++i) l += (char)(i % 256 == '\n' ? ',' : i % 256);
         for (int at = 0; at < 3; ++at) big(f, at == 0 ? l + "\n1,2\n" : at == 1 ? "3\n" + l : "4,4\n" + l + "\n\n5\n" + l + "\n", true);
      }
}
MC_SECTION(all_bytes)
{
   mc::Scratch sc; const std::string f = sc.file("t");
   for (int a = 0; a < 256; ++a) for (int b : {0, 9, 10, 13, 26, 32, 49, 127, 128, 255})
   {
      std::string t = std::string("1,") + (char)a + (char)b + "2\n" + (char)b + (char)a + "\n" + (char)a;
      mc::spill(f, t); const SV want = lines_of(t);
      MC_CASE(o << "lines of " << t);
      for (int file = 0; file < 2; ++file) { SV v; Collect c = { &v }; std::istringstream is(t); MC_EQ(file ? strtk::for_each_line(f, c) : strtk::for_each_line(is, c), want.size()); MC_EQ(v, want); }
      values<std::string>(f, want, ",", 2); values<int>(f, want, ",", 1); Cont<std::string, std::vector<std::string> >::line("strings", f, want, ",", 1);
      { std::istringstream is(t); for (size_t i = 0; i < want.size(); ++i) { std::string s; MC_TRUE(strtk::read_line_as_value(is, s)); MC_EQ(s, want[i]); } std::string s; MC_TRUE(!strtk::read_line_as_value(is, s)); }
   }
}
MC_MAIN
