// P09: types and structures a user registers are parsed everywhere as their own definition says.
#include "parse_model.hpp"
#include "parse_arity.hpp"
#include <fstream>
typedef std::string S;
struct Pt { int x; S tag; bool operator<(const Pt& o) const { return x != o.x ? x < o.x : tag < o.tag; } bool operator==(const Pt& o) const { return x == o.x && tag == o.tag; } };
static mc::Out& operator<<(mc::Out& o, const Pt& p) { return o << p.x << ":" << p.tag; }
static std::ostream& operator<<(std::ostream& o, const Pt& p) { return o << p.x << ':' << p.tag; }
strtk_string_to_type_begin(Pt)
   static const std::string delimiter(":"); return strtk::parse(begin, end, delimiter, t.x, t.tag);
strtk_string_to_type_end()
// a type whose conversion looks at the raw characters and refuses some tokens
struct Sum { unsigned n, sum; bool operator<(const Sum& o) const { return sum < o.sum; } bool operator==(const Sum& o) const { return n == o.n && sum == o.sum; } };
static std::ostream& operator<<(std::ostream& o, const Sum& p) { return o << p.n << "/" << p.sum; }
static mc::Out& operator<<(mc::Out& o, const Sum& p) { return o << p.n << "/" << p.sum; }
strtk_string_to_type_begin(Sum)
   unsigned n = 0, s = 0; for (Iterator i = begin; i != end; ++i) { ++n; s += (unsigned char)*i; }
   if (n > 3) return false;
   t.n = n; t.sum = s; return true;
strtk_string_to_type_end()
strtk_register_userdef_type_sink(Pt)
strtk_register_userdef_type_sink(Sum)
struct Rec { S name; int id; Pt at; char c; double d; };
strtk_parse_begin(Rec) strtk_parse_type(name) strtk_parse_type(id) strtk_parse_ignore_token() strtk_parse_type(at) strtk_parse_type(c) strtk_parse_type(d) strtk_parse_end()
struct Two { int a, b; };
strtk_parse_begin(Two) strtk_parse_type(a) strtk_parse_type(b) strtk_parse_end()
struct One { Pt p; };
strtk_parse_begin(One) strtk_parse_type(p) strtk_parse_end()
struct Tail { int a; std::vector<Pt> v; };
strtk_parse_begin(Tail) strtk_parse_type(a) strtk_parse_type(v) strtk_parse_end()

static bool conv(const S& s, Pt& p) { SV t = texts(s, model_split(s, ":", 1)); return t.size() >= 2 && conv(t[0], p.x) && conv(t[1], p.tag); }
static bool conv(const S& s, Sum& p) { if (s.size() > 3) return false; p.n = (unsigned)s.size(); p.sum = 0; for (unsigned char c : s) p.sum += c; return true; }
static Pt mk(int x, const S& t) { Pt p; p.x = x; p.tag = t; return p; }
template <> struct Sentinel<Pt> { static Pt get() { return mk(-9, "S"); } };
template <> struct Sentinel<Sum> { static Sum get() { Sum s = {99, 99}; return s; } };
template <typename T> static bool modelu(const SV& tok, size_t k, T* v) { if (tok.size() < k) return false; for (size_t i = 0; i < k; ++i) if (!conv(tok[i], v[i])) return false; return true; }

// every way of converting one token
template <typename T, typename It> static void way(It b, It e, bool w, const T& want, const char* what)
{
   T t = Sentinel<T>::get(); MC_EQM(strtk::string_to_type_converter(b, e, t), w, what); MC_EQM(t, want, what);
   t = Sentinel<T>::get(); MC_EQM(strtk::string_to_type_converter(std::make_pair(b, e), t), w, what); MC_EQM(t, want, what);
   bool r = true; try { T u = strtk::string_to_type_converter<T>(b, e); if (w) MC_EQM(u, want, what); } catch (std::invalid_argument&) { r = false; } MC_EQM(r, w, what);
   r = true; try { T u = strtk::string_to_type_converter<T>(std::make_pair(b, e)); if (w) MC_EQM(u, want, what); } catch (std::invalid_argument&) { r = false; } MC_EQM(r, w, what);
}
template <typename T> static void token(const S& s)
{
   T want = Sentinel<T>::get(); const bool w = conv(s, want);
   MC_CASE(o << "token " << s << " to a registered type of size " << sizeof(T));
   mc::Buf<char> a(s); mc::Buf<unsigned char> u(s); S m = s; std::vector<char> v(s.begin(), s.end()); std::deque<unsigned char> q(s.begin(), s.end());
   way<T>((const char*)a.begin(), (const char*)a.end(), w, want, "const char*"); way<T>(a.begin(), a.end(), w, want, "char*"); way<T>((const unsigned char*)u.begin(), (const unsigned char*)u.end(), w, want, "const unsigned char*"); way<T>(u.begin(), u.end(), w, want, "unsigned char*");
   way<T>(s.begin(), s.end(), w, want, "const_iterator"); way<T>(m.begin(), m.end(), w, want, "iterator");
   { T t = Sentinel<T>::get(); MC_EQM(strtk::string_to_type_converter(s, t), w, "string"); MC_EQM(t, want, "string"); bool r = true; try { T x = strtk::string_to_type_converter<T>(s); if (w) MC_EQM(x, want, "string"); } catch (std::invalid_argument&) { r = false; } MC_EQM(r, w, "string"); }
   { T t = Sentinel<T>::get(); strtk::util::value x(t), y(x); MC_EQM(y((const char*)a.begin(), (const char*)a.end()), w, "value"); MC_EQM(t, want, "value"); }
   mc::outcome(mc::Hash()(w)(s));
}
MC_SECTION(tokens) { mc::strings("1:-x ", 0, mc::tier(5, 6), [](const S& s) { token<Pt>(s); token<Sum>(s); }); mc::strings(S("\0\xFF:", 3), 0, 4, [](const S& s) { token<Sum>(s); token<Pt>(s); }); }

template <typename T> static bool call(size_t k, const S& s, const S& d, T* v) { switch (k) {
   #define M(N) case N: return strtk::parse(s, d, AR##N);
   EACH16(M)
   #undef M
   } return false; }
template <typename T, typename C> static bool call_c(size_t k, const S& s, const S& d, T* v, C& c) { switch (k) {
   #define M(N) case N: return strtk::parse(s, d, AR##N, c);
   EACH11(M)
   #undef M
   } return false; }
template <typename T> static void values(const S& s, const S& d, size_t k)
{
   MC_CASE(o << "parse(" << s << "," << d << ") into " << k << " registered values of size " << sizeof(T));
   SV tok = texts(s, model_split(s, d, 1)); std::vector<T> want(16, Sentinel<T>::get()), v = want; const bool w = modelu(tok, k, want.data());
   MC_EQ(call(k, s, d, v.data()), w); MC_EQ(v, want); mc::outcome(mc::Hash()(w)(k)(s));
}
template <typename T, typename C> static void tailed(const S& s, const S& d, size_t k)
{
   SV tok = texts(s, model_split(s, d, 1)); std::vector<T> want(16, Sentinel<T>::get()), v = want; C wc, c; put(wc, Sentinel<T>::get()); put(c, Sentinel<T>::get());
   bool w = tok.size() >= k + 1 && modelu(tok, k, want.data()); if (w) for (size_t i = k; i < tok.size(); ++i) { T t = T(); if (!conv(tok[i], t)) { w = false; break; } put(wc, t); }
   MC_EQ(call_c(k, s, d, v.data(), c), w); MC_EQ(v, want); MC_EQ(drain(c), drain(wc));
}
template <typename T, typename C> static void container(const char* kind, const S& s, const S& d)
{
   MC_CASE(o << "parse(" << s << "," << d << ") into a " << kind << " of registered values of size " << sizeof(T));
   SV tok = texts(s, model_split(s, d, 1));
   { C c, wc; put(c, Sentinel<T>::get()); put(wc, Sentinel<T>::get()); for (auto& x : tok) { T t = T(); if (conv(x, t)) put(wc, t); } MC_EQ(strtk::parse(s, d, c), tok.size()); MC_EQ(drain(c), drain(wc)); }
   for (size_t n = 0; n <= tok.size() + 1; ++n) { C c, wc; const size_t before = c.size(); for (size_t i = 0; i < n && i < tok.size(); ++i) { T t = T(); if (conv(tok[i], t)) put(wc, t); } MC_EQ(strtk::parse_n(s, d, n, c), wc.size() - before); MC_EQ(drain(c), drain(wc)); }
   mc::outcome(mc::Hash()(s)(S(kind)));
}
template <typename T> static void containers(const S& s, const S& d)
{
   #define M(N,C) container<T, C>(N, s, d);
   EACH_CONTAINER(M,T)
   #undef M
   for (size_t k : {1u, 2u}) { MC_CASE(o << "parse(" << s << "," << d << ") into " << k << " registered values and a container"); tailed<T, std::vector<T> >(s, d, k); tailed<T, std::list<T> >(s, d, k); tailed<T, std::set<T> >(s, d, k); tailed<T, std::queue<T> >(s, d, k); tailed<T, std::priority_queue<T> >(s, d, k); }
}
static const S parts[] = {"1:a", "-2:b", "x:y", "7", "", "3:c:d"};
static S glue(const std::vector<size_t>& t, const char* sep) { S s; for (size_t i = 0; i < t.size(); ++i) { if (i) s += sep; s += parts[t[i]]; } return s; }
MC_SECTION(values_and_containers)
{
   for (size_t n = 0; n <= 4; ++n) mc::tuples(6, n, [&](const std::vector<size_t>& t) { const S s = glue(t, n % 2 ? "|" : ","); for (size_t k = 1; k <= 5; ++k) { values<Pt>(s, "|,", k); values<Sum>(s, "|,", k); } containers<Pt>(s, "|,"); containers<Sum>(s, n % 2 ? "|" : ","); });
   for (size_t n = 5; n <= 18; ++n) for (size_t bad = 0; bad <= n; ++bad) { S s; for (size_t i = 0; i < n; ++i) { if (i) s += "|"; s += i + 1 == bad ? S("x:y") : std::to_string(i) + ":t" + std::to_string(i * i); } for (size_t k = 1; k <= 16; ++k) { values<Pt>(s, "|", k); if (k < 12) tailed<Pt, std::vector<Pt> >(s, "|", k); } containers<Pt>(s, "|"); }
}
template <typename T, typename C, typename Sink> static void sink(const char* kind, const S& s, Sink sk)
{
   MC_CASE(o << "parse(" << s << ") into int, " << kind << " sink of registered values, string");
   SV tok = texts(s, model_split(s, "|", 1)); int a = -5, wa = -5; S z = "z", wz = "z"; C c, wc; put(c, Sentinel<T>::get()); put(wc, Sentinel<T>::get());
   bool w = tok.size() >= 3 && conv(tok[0], wa); if (w) { SV in = texts(tok[1], model_split(tok[1], ",", 1)); w = !in.empty(); for (auto& x : in) { T t = T(); if (conv(x, t)) put(wc, t); } if (w) wz = tok[2]; }
   MC_EQ(strtk::parse(s, "|", a, sk(c), z), w); MC_EQ(a, wa); MC_EQ(z, wz); MC_EQ(drain(c), drain(wc)); mc::outcome(mc::Hash()(s)(w));
}
MC_SECTION(sinks)
{
   for (size_t n = 0; n <= 4; ++n) mc::tuples(6, n, [&](const std::vector<size_t>& t) { const S in = glue(t, ","); for (const S& s : {"5|" + in + "|q", in + "|q|r", "q|" + in + "|q", "5|" + in})
   {
      if (texts(s, model_split(s, "|", 1)).size() >= 2 && in.find_first_not_of(",") == S::npos && in.size()) { }     // a field of delimiters only
      { strtk::vector_sink<Pt>::type k(","); sink<Pt, std::vector<Pt> >("vector", s, k); } { strtk::deque_sink<Pt>::type k(","); sink<Pt, std::deque<Pt> >("deque", s, k); } { strtk::list_sink<Sum>::type k(","); sink<Sum, std::list<Sum> >("list", s, k); } { strtk::set_sink<Pt>::type k(","); sink<Pt, std::set<Pt> >("set", s, k); } { strtk::queue_sink<Pt>::type k(","); sink<Pt, std::queue<Pt> >("queue", s, k); } { strtk::stack_sink<Sum>::type k(","); sink<Sum, std::stack<Sum> >("stack", s, k); }
   } });
}
MC_SECTION(structures)
{
   const S p[] = {"nm", "4", "skip", "1:a", "c", "1.5", "xx:1", ""};
   for (size_t n = 0; n <= mc::tier<size_t>(6, 7); ++n) mc::tuples(8, n, [&](const std::vector<size_t>& t) {
      if (n >= 6) { size_t odd = 0; for (size_t i = 0; i < 6; ++i) odd += t[i] != i; if (odd > 2) return; }
      S s; for (size_t i = 0; i < n; ++i) { if (i) s += "|"; s += p[t[i]]; }
      SV tok = texts(s, model_split(s, "|", 1));
      { MC_CASE(o << "parse(" << s << ") into a structure"); Rec r, w; r.name = w.name = "N"; r.id = w.id = -1; r.at = w.at = mk(-1, "T"); r.c = w.c = '~'; r.d = w.d = -2; const bool ok = tok.size() >= 6 && conv(tok[0], w.name) && conv(tok[1], w.id) && conv(tok[3], w.at) && conv(tok[4], w.c) && conv(tok[5], w.d);
        MC_EQ(strtk::parse(s, S("|"), r), ok); MC_EQ(r.name, w.name); MC_EQ(r.id, w.id); MC_EQ(r.at, w.at); MC_EQ(r.c, w.c); MC_EQ(r.d, w.d); mc::outcome(mc::Hash()(s)(ok)); }
      if (n <= 4) { MC_CASE(o << "parse(" << s << ") into a small structure"); Two r = {-1, -2}, w = r; bool ok = tok.size() >= 2 && conv(tok[0], w.a) && conv(tok[1], w.b); MC_EQ(strtk::parse(s, S("|"), r), ok); MC_EQ(r.a, w.a); MC_EQ(r.b, w.b);
        One x, y; x.p = y.p = mk(0, "z"); ok = tok.size() >= 1 && conv(tok[0], y.p); MC_EQ(strtk::parse(s, S("|"), x), ok); MC_EQ(x.p, y.p);
        Tail a, b; a.a = b.a = -1; a.v.push_back(mk(0, "old")); b.v = a.v; ok = tok.size() >= 2 && conv(tok[0], b.a); if (ok) for (size_t i = 1; i < tok.size(); ++i) { Pt q; if (!conv(tok[i], q)) { ok = false; break; } b.v.push_back(q); } MC_EQ(strtk::parse(s, S("|"), a), ok); MC_EQ(a.a, b.a); MC_EQ(a.v, b.v); }
   });
}
MC_SECTION(elsewhere)
{
   // grids, columns, lines and files use the same conversion
   for (size_t n = 1; n <= 4; ++n) mc::tuples(6, n, [&](const std::vector<size_t>& t) {
      const S s = glue(t, ","); SV tok = texts(s, model_split(s, ",", 1)); MC_CASE(o << "row " << s);
      if (!s.empty())
      {
         strtk::token_grid g(s, s.size(), S(","));
         if (g.row_count() == 1)
         {
            const size_t cols = g.row(0).size();
            for (size_t c = 0; c < cols && c < tok.size(); ++c) { Pt w = mk(0, ""); const bool ok = conv(tok[c], w); bool r = true; try { Pt q = g.get<Pt>(0, c); if (ok) MC_EQ(q, w); } catch (std::invalid_argument&) { r = false; } MC_EQ(r, ok); r = true; try { Pt q = g.row(0).get<Pt>(c); if (ok) MC_EQ(q, w); } catch (std::invalid_argument&) { r = false; } MC_EQ(r, ok); }
            if (cols == tok.size()) { std::vector<Pt> v, w; size_t bad = 0; for (auto& x : tok) { Pt q; if (conv(x, q)) w.push_back(q); else ++bad; } g.row(0).parse(v); if (!bad) MC_EQ(v, w); }
            if (cols == tok.size() && cols >= 2) { Pt a = mk(0, ""), b = a, wa = a, wb = a; const bool ok = conv(tok[0], wa) && conv(tok[1], wb); MC_EQ(g.row(0).parse(a, b), ok); MC_EQ(a, wa); MC_EQ(b, wb); }
         }
      }
      { Pt a = mk(-1, "u"), wa = a; int q = -1; const bool ok = tok.size() >= 3 && conv(tok[1], wa); (void)q; S z = "z", wz = z; if (ok) wz = tok[2]; MC_EQ(strtk::parse_columns(s, ",", strtk::column_list(1, 2), a, z), ok); MC_EQ(a, wa); MC_EQ(z, wz); }
      { std::istringstream in(glue(t, "\n")); bool all = true; std::vector<Pt> w, v; SV lines; { S l; std::istringstream i2(glue(t, "\n")); while (std::getline(i2, l)) lines.push_back(l); } for (auto& l : lines) { Pt q; if (conv(l, q)) w.push_back(q); else { all = false; break; } } bool r = true; try { strtk::load_from_text_file(in, v); } catch (std::invalid_argument&) { r = false; } MC_EQ(r, all); MC_EQ(v, w); }
      { std::vector<Pt> v; for (auto& x : tok) { Pt q; if (conv(x, q)) v.push_back(q); } S w; for (size_t i = 0; i < v.size(); ++i) w += (i ? ";" : "") + std::to_string(v[i].x) + ":" + v[i].tag; MC_EQM(strtk::join(";", v), w, "join"); }
      mc::outcome(mc::Hash()(s));
   });
}
MC_MAIN
