#include "split_model.hpp"
#include "parse_model.hpp"
#include "parse_arity.hpp"
typedef std::vector<size_t> Cols;
// ---- the reference: column c takes token c of the compressing split
template <typename T> static bool ref_parse(const SV& tok, const Cols& c, std::vector<T>& v)
{
   if (c.back() + 1 > tok.size()) return false;
   for (size_t i = 0; i < c.size(); ++i) if (!conv(tok[c[i]], v[i])) return false;
   return true;
}
template <typename T> static void ref_select(const SV& tok, const Cols& c, std::vector<T>& v)
{
   for (size_t i = 0; i < c.size(); ++i) if (c[i] < tok.size()) { T t; if (conv(tok[c[i]], t)) v[i] = t; }
}
#define CL1 c[0]
#define CL2 CL1,c[1]
#define CL3 CL2,c[2]
#define CL4 CL3,c[3]
#define CL5 CL4,c[4]
#define CL6 CL5,c[5]
#define CL7 CL6,c[6]
#define CL8 CL7,c[7]
#define CL9 CL8,c[8]
#define CL10 CL9,c[9]
#define CL11 CL10,c[10]
#define CL12 CL11,c[11]
template <typename It, typename T> static bool pc_range(It b, It e, const std::string& d, const Cols& c, T* v)
{
   switch (c.size())
   {
      #define M(N) case N: return strtk::parse_columns(b, e, d, strtk::column_list(CL##N), AR##N);
      EACH12(M)
      #undef M
   }
   return false;
}
template <typename T> static bool pc_string(const std::string& s, const std::string& d, const Cols& c, T* v)
{
   switch (c.size())
   {
      #define M(N) case N: return strtk::parse_columns(s, d, strtk::column_list(CL##N), AR##N);
      EACH12(M)
      #undef M
   }
   return false;
}
template <typename T> static bool pc_array(const std::string& s, const std::string& d, const Cols& c, T* v)
{
   switch (c.size())
   {
      #define M(N) case N: { std::size_t a[N]; std::copy(c.begin(), c.end(), a); const std::size_t (&ca)[N] = a; return strtk::parse_columns(s, d, strtk::column_list(ca), AR##N); }
      EACH12(M)
      #undef M
   }
   return false;
}
template <typename S> static bool pc_seq(const std::string& s, const std::string& d, const Cols& c, S& q)
{
   switch (c.size())
   {
      #define M(N) case N: return strtk::parse_columns(s, d, strtk::column_list(CL##N), q);
      EACH12(M)
      #undef M
   }
   return false;
}
template <typename It, typename S> static bool pc_rseq(It b, It e, const std::string& d, const Cols& c, S& q)
{
   switch (c.size())
   {
      #define M(N) case N: return strtk::parse_columns(b, e, d, strtk::column_list(CL##N), q);
      EACH12(M)
      #undef M
   }
   return false;
}
// the selector as an output iterator of split (temporary and named), and driven by hand with *out++ = token
template <typename Sel> static void drive(Sel& sel, const std::string& s, const Toks& tok, int how)
{
   for (size_t i = 0; i < tok.size(); ++i)
   {
      const std::pair<const char*,const char*> r(s.data() + tok[i].first, s.data() + tok[i].second);
      if (how == 0) { *sel = r; ++sel; } else *sel++ = r;
   }
}
template <typename T> static void selector(const std::string& s, const std::string& d, const Cols& c, T* v, int how)
{
   const Toks tok = model_split(s, d, 1);
   switch (c.size())
   {
      #define M(N) case N: { if (how == 2) { strtk::split(d, s, strtk::column_selector(strtk::column_list(CL##N), AR##N), strtk::split_options::compress_delimiters); } \
                             else { auto sel = strtk::column_selector(strtk::column_list(CL##N), AR##N); drive(sel, s, tok, how); } return; }
      EACH12(M)
      #undef M
   }
}
template <typename S> static void selector_seq(const std::string& s, const std::string& d, const Cols& c, S& q)
{
   switch (c.size())
   {
      #define M(N) case N: strtk::split(d, s, strtk::column_selector(strtk::column_list(CL##N), q), strtk::split_options::compress_delimiters); return;
      M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10)
      #undef M
   }
}
template <typename T> static std::vector<T> fresh(size_t n) { return std::vector<T>(n, Sentinel<T>::get()); }
template <typename T> static void forms(const std::string& s, const std::string& d, const Cols& c, bool ok, const std::vector<T>& want, const std::vector<T>& sel);
template <typename T, bool All> struct Forms { static void run(const std::string& s, const std::string& d, const Cols& c, bool ok, const std::vector<T>& w, const std::vector<T>& sel) { forms<T>(s, d, c, ok, w, sel); } };
template <typename T> struct Forms<T,false> { static void run(const std::string&, const std::string&, const Cols&, bool, const std::vector<T>&, const std::vector<T>&) {} };
template <typename T, bool All> static void check(const std::string& s, const std::string& d, const Cols& c)
{
   const SV tok = texts(s, model_split(s, d, 1));
   std::vector<T> want = fresh<T>(c.size()), sel = want;
   const bool ok = ref_parse(tok, c, want);
   ref_select(tok, c, sel);
   std::vector<T> v = fresh<T>(c.size());
   MC_EQM(pc_string(s, d, c, v.data()), ok, "parse_columns(string) result");
   MC_EQM(v, want, "parse_columns(string) values");
   v = fresh<T>(c.size()); selector(s, d, c, v.data(), 2);
   MC_EQM(v, sel, "split into column_selector");
   mc::outcome(mc::Hash()(ok)(want)(sel));
   Forms<T,All>::run(s, d, c, ok, want, sel);
}
template <typename T> static void forms(const std::string& s, const std::string& d, const Cols& c, bool ok, const std::vector<T>& want, const std::vector<T>& sel)
{
   mc::Buf<char> b(s); std::vector<T> v;
   v = fresh<T>(c.size()); MC_EQM(pc_range((const char*)b.begin(), (const char*)b.end(), d, c, v.data()), ok, "parse_columns(const char*) result"); MC_EQM(v, want, "parse_columns(const char*) values");
   v = fresh<T>(c.size()); MC_EQM(pc_range(s.begin(), s.end(), d, c, v.data()), ok, "parse_columns(string iterators) result"); MC_EQM(v, want, "parse_columns(string iterators) values");
   v = fresh<T>(c.size()); MC_EQM(pc_array(s, d, c, v.data()), ok, "parse_columns(array column list) result"); MC_EQM(v, want, "parse_columns(array column list) values");
   v = fresh<T>(c.size()); selector(s, d, c, v.data(), 0); MC_EQM(v, sel, "named column_selector");
   v = fresh<T>(c.size()); selector(s, d, c, v.data(), 1); MC_EQM(v, sel, "column_selector, *out++ = token");
   for (size_t extra = 0; extra < 3; extra += 2)
   {
      std::vector<T> w = want, ws = sel; w.resize(c.size() + extra, Sentinel<T>::get()); ws.resize(c.size() + extra, Sentinel<T>::get());
      std::vector<T> q = fresh<T>(w.size()); MC_EQM(pc_seq(s, d, c, q), ok, "parse_columns(vector) result"); MC_EQM(q, w, "parse_columns(vector) values");
      q = fresh<T>(w.size()); MC_EQM(pc_rseq((const char*)b.begin(), (const char*)b.end(), d, c, q), ok, "parse_columns(range,vector) result"); MC_EQM(q, w, "parse_columns(range,vector) values");
      std::deque<T> dq(w.size(), Sentinel<T>::get()); MC_EQM(pc_seq(s, d, c, dq), ok, "parse_columns(deque) result"); MC_EQM(std::vector<T>(dq.begin(), dq.end()), w, "parse_columns(deque) values");
      if (c.size() < 2 || c.size() > 10) continue;
      q = fresh<T>(w.size()); selector_seq(s, d, c, q); MC_EQM(q, ws, "column_selector(vector)");
      std::list<T> l(w.size(), Sentinel<T>::get()); selector_seq(s, d, c, l); MC_EQM(std::vector<T>(l.begin(), l.end()), ws, "column_selector(list)");
      dq.assign(w.size(), Sentinel<T>::get()); selector_seq(s, d, c, dq); MC_EQM(std::vector<T>(dq.begin(), dq.end()), ws, "column_selector(deque)");
   }
   if (c.size() >= 2 && c.size() <= 10)
   {
      std::vector<T> q = fresh<T>(c.size() - 1); std::list<T> l(q.begin(), q.end()); int threw = 0;
      try { selector_seq(s, d, c, q); } catch (const std::invalid_argument&) { ++threw; }
      try { selector_seq(s, d, c, l); } catch (const std::invalid_argument&) { ++threw; }
      MC_EQM(threw, 2, "column_selector over a too short sequence is rejected");
   }
}
// all strictly increasing column lists of 1..12 columns out of 0..m-1
template <typename F> static void all_columns(size_t m, size_t lo, size_t hi, F f)
{
   for (unsigned long mask = 1; mask < (1ul << m); ++mask)
   {
      const size_t k = __builtin_popcountl(mask);
      if (k < lo || k > hi) continue;
      Cols c; for (size_t i = 0; i < m; ++i) if (mask >> i & 1) c.push_back(i);
      f(c);
   }
}
static void small(const char* alpha, const std::string& d, size_t len, size_t m)
{
   mc::strings(alpha, 0, len, [&](const std::string& s) {
      all_columns(m, 1, 3, [&](const Cols& c) {
         MC_CASE(o << "columns " << c << " of " << s << ", delims=" << d);
         check<std::string,false>(s, d, c);
         check<int,false>(s, d, c);
      });
   });
}
MC_SECTION(small_strings) { small("1,x", ",", mc::tier(7, 9), 4); }
MC_SECTION(delimiter_sets)
{
   std::string all; for (int c = 0; c < 256; ++c) if (!strchr("0123456789-x", c) || c == 0) all += (char)c;
   for (const std::string& d : { std::string(), std::string(";|:"), std::string(";|:,"), std::string(" \t\r\n,;|"), all })
      for (size_t i = 0; i < d.size() + 1; i += d.size() > 20 ? mc::tier(7, 1) : 1)
      {
         const std::string x = i < d.size() ? std::string(1, d[i]) : "", y = d.empty() ? "" : std::string(1, d[(i + 1) % d.size()]), t[] = { "1" + x + "2" + y + "3", x + "1" + y, "1" + x + y + "2", "1" + x + "x" + y + "2" + x };
         for (const std::string& s : t) all_columns(4, 1, 3, [&](const Cols& c) { MC_CASE(o << "columns " << c << " of " << s << ", delims=" << d); check<std::string,false>(s, d, c); check<int,false>(s, d, c); });
      }
}
MC_SECTION(delimiter_lists_in_turn)
{
   const std::string s = "1,2;;3|4:5,;6|:7";
   mc::lists_in_turn(",;|:", 4, [&](const std::string& d) { all_columns(4, 1, 2, [&](const Cols& c) { MC_CASE(o << "columns " << c << " of " << s << ", delims=" << d); check<std::string,false>(s, d, c); check<int,false>(s, d, c); }); });
}
MC_SECTION(in_context)
{
   mc::in_context("1,x", 1, mc::tier(3, 5), '0', '0', [&](const std::string& s) { all_columns(4, 1, 2, [&](const Cols& c) { MC_CASE(o << "columns " << c << " of " << s); check<std::string,false>(s, ",", c); check<int,false>(s, ",", c); }); });
}
MC_SECTION(small_two_delims) { small("1,;", ",;", mc::tier(6, 8), 4); }
MC_SECTION(small_all_forms)
{
   mc::strings("1,x", 0, mc::tier(5, 6), [&](const std::string& s) {
      all_columns(4, 1, 4, [&](const Cols& c) {
         MC_CASE(o << "every form, columns " << c << " of " << s);
         check<std::string,true>(s, ",", c);
         check<int,true>(s, ",", c);
         check<char,false>(s, ",", c);
         check<double,false>(s, ",", c);
      });
   });
}
static std::string row(size_t n, size_t bad, const char* sep, int ends)
{
   std::string s; if (ends & 1) s += sep;
   for (size_t i = 0; i < n; ++i) { if (i) s += sep; if (i == bad) s += "?!"; else s += std::to_string(100 + 7 * i); }
   if (ends & 2) s += sep;
   return s;
}
static void every(size_t lo, size_t hi)
{
   // 13 tokens (thorough 14): every column list, the unconvertible token at each position or nowhere
   const size_t n = mc::tier(13, 14);
   all_columns(n, lo, hi, [&](const Cols& c) {
      for (size_t bad = 0; bad <= n; ++bad)
      {
         MC_CASE(o << "columns " << c << " of " << n << " tokens, bad token " << bad);
         check<int,false>(row(n, bad, ",", 0), ",", c);
      }
   });
}
MC_SECTION(every_list_1_6) { every(1, 6); }
MC_SECTION(every_list_7_12) { every(7, 12); }
MC_SECTION(every_arity_and_form)
{
   // consecutive, spread and last-column-off-by-one lists for each arity, 0..16 tokens, separators and ends
   const char* seps[] = { ",", ",,", ";,;" };
   for (size_t k = 1; k <= 12; ++k)
      for (size_t stride = 1; stride <= 2; ++stride)
         for (size_t off = 0; off < 3; ++off)
         {
            Cols c; for (size_t i = 0; i < k; ++i) c.push_back(off + i * stride);
            for (size_t n = 0; n <= off + k * stride + 2; ++n)
               for (int sep = 0; sep < 3; ++sep)
                  for (int ends = 0; ends < 4; ++ends)
                     for (size_t bad = 0; bad <= n; bad += mc::tier<size_t>(n / 2 + 1, 1))
                     {
                        const std::string s = row(n, bad, seps[sep], ends);
                        MC_CASE(o << "every form, columns " << c << " of " << s);
                        check<int,true>(s, ",;", c);
                        check<std::string,true>(s, ",;", c);
                     }
         }
}
MC_SECTION(mixed_types)
{
   // four columns of four types, every assignment of token kinds and every column list within 7
   const char* kinds[] = { "12", "x", "-7.5", "abc" };
   mc::tuples(4, 6, [&](const std::vector<size_t>& t) {
      std::string s; for (size_t i = 0; i < t.size(); ++i) { if (i) s += ","; s += kinds[t[i]]; }
      const SV tok = texts(s, model_split(s, ",", 1));
      all_columns(7, 4, 4, [&](const Cols& c) {
         MC_CASE(o << "int,string,double,char from columns " << c << " of " << s);
         int i = -777, wi = i; std::string q = "SENT", wq = q; double d = -7.5, wd = d; char h = '~', wh = h;
         const bool ok = c.back() < tok.size() && conv(tok[c[0]], wi) && conv(tok[c[1]], wq) && conv(tok[c[2]], wd) && conv(tok[c[3]], wh);
         MC_EQM(strtk::parse_columns(s, ",", strtk::column_list(c[0], c[1], c[2], c[3]), i, q, d, h), ok, "result");
         MC_EQM(i, wi, "int"); MC_EQM(q, wq, "string"); MC_EQM(d, wd, "double"); MC_EQM(h, wh, "char");
         int si = -777, vi = si; std::string sq = "SENT", vq = sq; double sd = -7.5, vd = sd; char sh = '~', vh = sh;
         int ti; std::string tq; double td; char th;
         if (c[0] < tok.size() && conv(tok[c[0]], ti)) vi = ti;
         if (c[1] < tok.size() && conv(tok[c[1]], tq)) vq = tq;
         if (c[2] < tok.size() && conv(tok[c[2]], td)) vd = td;
         if (c[3] < tok.size() && conv(tok[c[3]], th)) vh = th;
         strtk::split(",", s, strtk::column_selector(strtk::column_list(c[0], c[1], c[2], c[3]), si, sq, sd, sh));
         MC_EQM(si, vi, "selected int"); MC_EQM(sq, vq, "selected string"); MC_EQM(sd, vd, "selected double"); MC_EQM(sh, vh, "selected char");
      });
   });
}
MC_SECTION(reset)
{
   // one selector over two rows, reset in between
   all_columns(6, 2, 3, [&](const Cols& c) {
      for (size_t n1 = 0; n1 <= 6; ++n1)
         for (size_t n2 = 0; n2 <= 6; ++n2)
         {
            MC_CASE(o << "column_selector reset between rows of " << n1 << " and " << n2 << " tokens, columns " << c);
            const std::string s1 = row(n1, 99, ",", 0), s2 = row(n2, 2, ",", 0) ;
            std::vector<int> v = fresh<int>(3), w = v;
            const Toks t1 = model_split(s1, ",", 1), t2 = model_split(s2, ",", 1);
            if (c.size() == 3) { auto sel = strtk::column_selector(strtk::column_list(c[0], c[1], c[2]), v[0], v[1], v[2]); drive(sel, s1, t1, 0); sel.reset(); drive(sel, s2, t2, 0); }
            else { auto sel = strtk::column_selector(strtk::column_list(c[0], c[1]), v[0], v[1]); drive(sel, s1, t1, 0); sel.reset(); drive(sel, s2, t2, 0); }
            ref_select(texts(s1, t1), c, w); ref_select(texts(s2, t2), c, w);
            MC_EQM(v, w, "values after both rows");
         }
   });
}
MC_SECTION(huge)
{
   // columns around the powers of two, in rows that end just before, at and after the last one
   for (size_t n : mc::scales(100, mc::tier<size_t>(66000, 140000)))
      for (size_t k : {1u, 2u, 3u, 8u, 12u})
         for (int shape = 0; shape < 3; ++shape)
         {
            Cols c; for (size_t i = 0; i < k; ++i) c.push_back(shape == 0 ? n - k + i : shape == 1 ? (i + 1 < k ? i : n - 1) : n / (k + 1) * (i + 1));
            for (size_t len : {c.back(), c.back() + 1, c.back() + 2})
            {
               if (n > 5000 && ((shape != 0 && k > 3) || len > c.back() + 1)) continue;
               for (size_t bad : {(size_t)-1, c[0], c.back() - (c.back() > 0), c.back()})
               {
                  if (n > 5000 && bad != (size_t)-1 && k > 3) continue;
                  MC_CASE(o << "columns " << c << " of a row of " << len << " tokens, bad one at " << bad);
                  const std::string s = row(len, bad, ",", 0);
                  if (n < 600) check<int,true>(s, ",", c); else check<int,false>(s, ",", c);
                  if (bad == (size_t)-1 && shape == 0) check<std::string,false>(s, ",", c);
               }
            }
         }
   // long tokens
   for (size_t n : mc::scales(200, 70000)) for (size_t at = 0; at < 4; ++at) { std::string s; for (size_t i = 0; i < 4; ++i) { if (i) s += ","; s += i == at ? std::string(n, (char)('a' + i)) : std::string(1, (char)('A' + i)); } all_columns(5, 1, 3, [&](const Cols& c) { MC_CASE(o << "columns " << c << ", token " << at << " has " << n << " characters"); check<std::string,true>(s, ",", c); }); }
   // every byte in a token, every byte as the delimiter
   for (int b = 0; b < 256; ++b) { const std::string d(1, (char)b), x(1, (char)(b + 1)); const std::string s = x + "1" + d + x + x + d + "2" + x; all_columns(4, 1, 3, [&](const Cols& c) { MC_CASE(o << "columns " << c << " of " << s << ", delims=" << d); check<std::string,true>(s, d, c); check<int,false>(s, d, c); }); }
}
MC_MAIN
