#include "split_model.hpp"
#include <deque>
#include <list>
#include <set>
typedef std::vector<std::string> SV;
static std::string model_join(const SV& v, const std::string& d)
{ std::string r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += d; r += v[i]; } return r; }
struct Keep { unsigned m; mutable unsigned k; explicit Keep(unsigned mm) : m(mm), k(0) {} bool operator()(const std::string& s) const { return (s.size() + m) % 2 == 0; } };
struct Odd { bool operator()(int v) const { return v % 2 != 0; } };
struct EqIs { std::string v; bool operator()(const std::string& s) const { return s != v; } };

static void all_forms_onto(const SV& v, const std::string& d, const std::string& pre)
{
   const std::string want = model_join(v, d);
   std::string o;
   o = pre; strtk::join(o, d, v.begin(), v.end());                          MC_EQM(o, pre + want, "join(out,d,begin,end)");
   o = pre; strtk::join(o, d, std::make_pair(v.begin(), v.end()));          MC_EQM(o, pre + want, "join(out,d,range)");
   o = pre; strtk::join(o, d, v);                                           MC_EQM(o, pre + want, "join(out,d,vector)");
   MC_EQM(strtk::join(d, v.begin(), v.end()), want, "join(d,begin,end)");
   MC_EQM(strtk::join(d, std::make_pair(v.begin(), v.end())), want, "join(d,range)");
   MC_EQM(strtk::join(d, v), want, "join(d,vector)");
   std::deque<std::string> dq(v.begin(), v.end());
   std::list<std::string> ls(v.begin(), v.end());
   o = pre; strtk::join(o, d, dq); MC_EQM(o, pre + want, "join(out,d,deque)"); MC_EQM(strtk::join(d, dq), want, "join(d,deque)");
   o = pre; strtk::join(o, d, ls); MC_EQM(o, pre + want, "join(out,d,list)");  MC_EQM(strtk::join(d, ls), want, "join(d,list)");
   std::set<std::string> st(v.begin(), v.end());
   std::multiset<std::string> ms(v.begin(), v.end());
   SV sv(st.begin(), st.end()), mv(ms.begin(), ms.end());
   o = pre; strtk::join(o, d, st); MC_EQM(o, pre + model_join(sv, d), "join(out,d,set)");      MC_EQM(strtk::join(d, st), model_join(sv, d), "join(d,set)");
   o = pre; strtk::join(o, d, ms); MC_EQM(o, pre + model_join(mv, d), "join(out,d,multiset)"); MC_EQM(strtk::join(d, ms), model_join(mv, d), "join(d,multiset)");
   std::set<std::string, std::greater<std::string> > gt(v.begin(), v.end()); std::multiset<std::string, std::greater<std::string> > gm(v.begin(), v.end());
   o = pre; strtk::join(o, d, gt); MC_EQM(o, pre + model_join(SV(sv.rbegin(), sv.rend()), d), "join(out,d,descending set)"); MC_EQM(strtk::join(d, gt), model_join(SV(sv.rbegin(), sv.rend()), d), "join(d,descending set)");
   o = pre; strtk::join(o, d, gm); MC_EQM(o, pre + model_join(SV(mv.rbegin(), mv.rend()), d), "join(out,d,descending multiset)"); MC_EQM(strtk::join(d, gm), model_join(SV(mv.rbegin(), mv.rend()), d), "join(d,descending multiset)");
   std::vector<char*> argv;
   for (size_t i = 0; i < v.size(); ++i) argv.push_back(const_cast<char*>(v[i].c_str()));
   argv.push_back(0);
   o = pre; strtk::join(o, d, (int)v.size(), &argv[0]); MC_EQM(o, pre + want, "join(out,d,argc,argv)");
   MC_EQM(strtk::join(d, (int)v.size(), &argv[0]), want, "join(d,argc,argv)");
   // bracketize
   std::string wb; for (size_t i = 0; i < v.size(); ++i) wb += "<" + d + v[i] + d + ">";
   const std::string lp = "<" + d, rp = d + ">";
   SV vc(v);
   o = pre; strtk::bracketize(o, lp, rp, v.begin(), v.end()); MC_EQM(o, pre + wb, "bracketize(out,begin,end)");
   o = pre; strtk::bracketize(o, lp, rp, vc);                 MC_EQM(o, pre + wb, "bracketize(out,vector)");
   MC_EQM(strtk::bracketize(lp, rp, v.begin(), v.end()), wb, "bracketize(begin,end)");
   MC_EQM(strtk::bracketize(lp, rp, vc), wb, "bracketize(vector)");
   MC_EQM(strtk::bracketize(lp, rp, dq), wb, "bracketize(deque)");
   MC_EQM(strtk::bracketize(lp, rp, ls), wb, "bracketize(list)");
   std::string wsb, wmb;
   for (size_t i = 0; i < sv.size(); ++i) wsb += lp + sv[i] + rp;
   for (size_t i = 0; i < mv.size(); ++i) wmb += lp + mv[i] + rp;
   o = pre; strtk::bracketize(o, lp, rp, st); MC_EQM(o, pre + wsb, "bracketize(out,set)");      MC_EQM(strtk::bracketize(lp, rp, st), wsb, "bracketize(set)");
   o = pre; strtk::bracketize(o, lp, rp, ms); MC_EQM(o, pre + wmb, "bracketize(out,multiset)"); MC_EQM(strtk::bracketize(lp, rp, ms), wmb, "bracketize(multiset)");
   // join_if under every way of keeping elements that depends on the element
   for (unsigned m = 0; m < 2; ++m)
   {
      Keep k(m);
      SV kv, ks, km;
      for (size_t i = 0; i < v.size(); ++i) if (k(v[i])) kv.push_back(v[i]);
      for (size_t i = 0; i < sv.size(); ++i) if (k(sv[i])) ks.push_back(sv[i]);
      for (size_t i = 0; i < mv.size(); ++i) if (k(mv[i])) km.push_back(mv[i]);
      const std::string w = model_join(kv, d);
      o = pre; strtk::join_if(o, d, k, v.begin(), v.end());                 MC_EQM(o, pre + w, "join_if(out,begin,end)");
      o = pre; strtk::join_if(o, d, k, std::make_pair(v.begin(), v.end())); MC_EQM(o, pre + w, "join_if(out,range)");
      o = pre; strtk::join_if(o, d, k, v);                                  MC_EQM(o, pre + w, "join_if(out,vector)");
      MC_EQM(strtk::join_if(d, k, v.begin(), v.end()), w, "join_if(begin,end)");
      MC_EQM(strtk::join_if(d, k, std::make_pair(v.begin(), v.end())), w, "join_if(range)");
      MC_EQM(strtk::join_if(d, k, v), w, "join_if(vector)");
      MC_EQM(strtk::join_if(d, k, dq), w, "join_if(deque)");
      MC_EQM(strtk::join_if(d, k, ls), w, "join_if(list)");
      o = pre; strtk::join_if(o, d, k, st); MC_EQM(o, pre + model_join(ks, d), "join_if(out,set)");      MC_EQM(strtk::join_if(d, k, st), model_join(ks, d), "join_if(set)");
      o = pre; strtk::join_if(o, d, k, ms); MC_EQM(o, pre + model_join(km, d), "join_if(out,multiset)"); MC_EQM(strtk::join_if(d, k, ms), model_join(km, d), "join_if(multiset)");
   }
   mc::outcome(want); mc::outcome(wb);
}
// appended to nothing, to a short and to a longer text
static void all_forms(const SV& v, const std::string& d) { all_forms_onto(v, d, ""); all_forms_onto(v, d, "pre|"); if (v.size() < 4) all_forms_onto(v, d, std::string(37, ',')); }
MC_SECTION(join_forms)
{
   const char* parts[] = { "", "a", "bb", ",", "b,a" };
   const char* delims[] = { "", ",", "--", ",\n" };
   for (size_t len = 0; len <= (size_t)mc::tier(5, 6); ++len)
      mc::tuples(5, len, [&](const std::vector<size_t>& t) {
         for (size_t k = 0; k < 4; ++k)
         {
            SV v; for (size_t i = 0; i < len; ++i) v.push_back(parts[t[i]]);
            MC_CASE(o << "join " << v << " with " << delims[k]);
            all_forms(v, delims[k]);
         }
      });
}
MC_SECTION(join_long)
{
   // the returning overloads reserve a kilobyte up front: cross that size, and element counts up to 300
   for (size_t n = 0; n <= (size_t)mc::tier(300, 1200); n += (n < 20 ? 1 : 7))
      for (size_t el = 0; el <= 20; el += 4)
      {
         SV v(n, std::string(el, 'x'));
         if (n) { v[0] = "F"; v[n - 1] += "L"; }
         MC_CASE(o << "join of " << n << " elements of " << el << " characters");
         all_forms(v, n % 2 ? "," : "<->");
      }
   for (size_t el = 1000; el <= 1060; ++el)
   {
      SV v(2, std::string(el, 'y')); v.push_back("z");
      MC_CASE(o << "join of two elements of " << el << " characters");
      all_forms(v, ";");
   }
}
MC_SECTION(join_one_absent)
{
   // join_if where exactly one chosen element is dropped: no position may leave a stray delimiter
   for (size_t n = 0; n <= 12; ++n)
      for (unsigned mask = 0; mask < (1u << n); ++mask)
      {
         std::vector<int> v, kept;
         for (size_t i = 0; i < n; ++i) { v.push_back((mask >> i) & 1 ? (int)(2 * i + 1) : (int)(2 * i)); if ((mask >> i) & 1) kept.push_back(v.back()); }
         MC_CASE(o << "join_if(odd) of " << v);
         std::string w; for (size_t i = 0; i < kept.size(); ++i) { if (i) w += ","; w += std::to_string(kept[i]); }
         MC_EQ(strtk::join_if(",", Odd(), v.begin(), v.end()), w);
         std::string o1("Q"); strtk::join_if(o1, ",", Odd(), v); MC_EQ(o1, "Q" + w);
         std::string o2("Q"); strtk::join_if(o2, ",", Odd(), std::make_pair(v.begin(), v.end())); MC_EQ(o2, "Q" + w);
         mc::outcome(w);
      }
}
MC_SECTION(split_of_join_is_identity)
{
   const char* parts[] = { "", "a", "bb", " ", "c-c" };
   for (size_t len = 1; len <= (size_t)mc::tier(5, 7); ++len)
      mc::tuples(5, len, [&](const std::vector<size_t>& t) {
         SV v; for (size_t i = 0; i < len; ++i) v.push_back(parts[t[i]]);
         MC_CASE(o << "split(join) of " << v);
         std::string j = strtk::join(",", v);
         if (j.empty()) return;                       // a single empty element and no element join alike
         SV back;
         size_t n = strtk::split(",", j, strtk::range_to_type_back_inserter(back));
         MC_EQ(back, v); MC_EQ(n, v.size());
         SV p; MC_EQ(strtk::parse(j, ",", p, strtk::split_options::default_mode), v.size()); MC_EQ(p, v);
         mc::outcome(j);
      });
}
MC_SECTION(construct_arities)
{
   // every arity 2..12, distinguishable arguments of mixed types, several delimiters; output is appended to
   const char* delims[] = { "", ",", "::" };
   const int vals[] = { 0, 1, -1, 9, -10, 127, 128, 255, 65536, 2147483647, -2147483647 - 1 };
   for (size_t k = 0; k < 3; ++k)
      for (size_t vi = 0; vi < sizeof(vals)/sizeof(vals[0]); ++vi)
      {
         const std::string d = delims[k];
         std::string a1 = "A"; int a2 = vals[vi]; std::string a3 = ""; unsigned int a4 = (unsigned int)vals[vi]; std::string a5 = "e,e"; char a6 = 'f'; short a7 = (short)vals[vi];
         long long a8 = (long long)vals[vi] * 1000003LL; std::string a9(40, 'i'); unsigned short a10 = (unsigned short)vals[vi]; std::string a11 = "K"; int a12 = -vals[vi] / 2;
         std::string t[12] = { a1, std::to_string(a2), a3, std::to_string(a4), a5, "f", std::to_string(a7), std::to_string(a8), a9, std::to_string(a10), a11, std::to_string(a12) };
         #define W(n) ("P" + model_join(SV(t, t + n), d))
         MC_CASE(o << "construct with delimiter " << d << ", value " << vals[vi]);
         std::string o;
         o = "P"; strtk::construct(o, d, a1, a2); MC_EQM(o, W(2), "arity 2");
         o = "P"; strtk::construct(o, d, a1, a2, a3); MC_EQM(o, W(3), "arity 3");
         o = "P"; strtk::construct(o, d, a1, a2, a3, a4); MC_EQM(o, W(4), "arity 4");
         o = "P"; strtk::construct(o, d, a1, a2, a3, a4, a5); MC_EQM(o, W(5), "arity 5");
         o = "P"; strtk::construct(o, d, a1, a2, a3, a4, a5, a6); MC_EQM(o, W(6), "arity 6");
         o = "P"; strtk::construct(o, d, a1, a2, a3, a4, a5, a6, a7); MC_EQM(o, W(7), "arity 7");
         o = "P"; strtk::construct(o, d, a1, a2, a3, a4, a5, a6, a7, a8); MC_EQM(o, W(8), "arity 8");
         o = "P"; strtk::construct(o, d, a1, a2, a3, a4, a5, a6, a7, a8, a9); MC_EQM(o, W(9), "arity 9");
         o = "P"; strtk::construct(o, d, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); MC_EQM(o, W(10), "arity 10");
         o = "P"; strtk::construct(o, d, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); MC_EQM(o, W(11), "arity 11");
         o = "P"; strtk::construct(o, d, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); MC_EQM(o, W(12), "arity 12");
         strtk::build_string b; b << a1 << a2 << a3 << a4 << a5 << a6 << a7 << a8 << a9 << a10 << a11 << a12;
         std::string w; for (int i = 0; i < 12; ++i) w += t[i];
         MC_EQM(b.to_str(), w, "build_string");
         MC_EQM(std::string((const char*)b), w, "build_string as C string");
         mc::outcome(o);
      }
}
// All histories of build_string insertions.
MC_SECTION(build_string_histories)
{
   for (size_t len = 0; len <= (size_t)mc::tier(6, 8); ++len)
      mc::tuples(5, len, [&](const std::vector<size_t>& t) {
         MC_CASE(o << "build_string of " << t);
         strtk::build_string b(len % 3);
         std::string w;
         for (size_t i = 0; i < len; ++i)
            switch (t[i])
            {
               case 0: b << std::string("s"); w += "s"; break;
               case 1: b << -7; w += "-7"; break;
               case 2: b << 'c'; w += "c"; break;
               case 3: b << "lit"; w += "lit"; break;
               case 4: b << std::string(70, 'z'); w += std::string(70, 'z'); break;
            }
         MC_EQ(b.to_str(), w);
         MC_EQ(std::string((const char*)b), w);
         mc::outcome(w);
      });
}
MC_SECTION(replicate_and_insert)
{
   mc::strings("ab", 0, 4, [&](const std::string& s) {
      for (size_t n = 0; n <= (size_t)mc::tier(40, 200); ++n)
      {
         MC_CASE(o << "replicate " << s << " x " << n);
         std::string w; for (size_t i = 0; i < n; ++i) w += s;
         MC_EQ(strtk::replicate(n, s), w);
         std::string o("P"); strtk::replicate(n, s, o); MC_EQ(o, "P" + w);
         std::string ip(s); strtk::replicate_inplace(n, ip); MC_EQ(ip, w);
         mc::outcome(w);
      }
   });
   mc::strings("xy", 0, mc::tier(8, 11), [&](const std::string& s) {
      for (size_t iv = 1; iv <= s.size() + 1; ++iv)
      {
         MC_CASE(o << "inserter of ',' after every " << iv << " characters of " << s);
         std::string w; for (size_t i = 0; i < s.size(); ++i) { w += s[i]; if ((i + 1) % iv == 0) w += ','; }
         std::string o; size_t n = strtk::inserter(strtk::interval_inserter<char>(iv, ','), s.begin(), s.end(), mc::append(o));
         MC_EQ(o, w); MC_EQ(n, w.size());
         mc::outcome(w);
      }
   });
}
MC_SECTION(join_huge)
{
   const size_t ns[] = { 255, 256, 257, 1000, 4096, 65535, 65536, 65537 };
   for (size_t n : ns)
      for (size_t el = 0; el <= 3; el += 3)
      {
         if (n > 5000 && el == 0) continue;
         MC_CASE(o << "join of " << n << " elements of " << el << " characters");
         SV v(n, std::string(el, 'x')); v[n / 2] += "M"; v[n - 1] += "L"; all_forms(v, ",");
         SV back; std::string j = strtk::join(",", v); if (el) { MC_EQ(strtk::split(",", j, strtk::range_to_type_back_inserter(back)), n); MC_TRUE(back == v); }
      }
   for (size_t n : mc::scales(30, 70000))
   {
      MC_CASE(o << "long elements, delimiters and arguments of " << n << " characters");
      const std::string s = mc::letters(n), d = mc::letters(n, 'A'); SV v; v.push_back(s); v.push_back(""); v.push_back("z" + s); all_forms(v, "-"); v[0] = "q"; all_forms(v, d);
      std::string o = "P"; strtk::construct(o, d, s, 5, s); MC_TRUE(o == "P" + s + d + "5" + d + s); strtk::build_string b; b << s << 7 << s; MC_TRUE(b.to_str() == s + "7" + s);
      std::string w; for (int i = 0; i < 3; ++i) w += s; MC_TRUE(strtk::replicate(3, s) == w); std::string c(n, 'r'), e = "r"; MC_TRUE(strtk::replicate(n, e) == c); strtk::replicate_inplace(n, e); MC_TRUE(e == c);
      for (size_t iv : { (size_t)1, (size_t)3, (size_t)255, (size_t)256, n - 1, n, n + 1 })
      { std::string wi; for (size_t i = 0; i < n; ++i) { wi += s[i]; if ((i + 1) % iv == 0) wi += ','; } std::string oi; MC_EQ(strtk::inserter(strtk::interval_inserter<char>(iv, ','), s.begin(), s.end(), mc::append(oi)), wi.size()); MC_TRUE(oi == wi); }
   }
}
MC_SECTION(join_values)
{
   // elements that are not strings are printed as type_to_string prints them
   const long long vals[] = { 0, -1, 7, 255, -128, 65536, 2147483647LL, -2147483647LL };
   for (size_t n = 0; n <= 4; ++n)
      mc::tuples(8, n, [&](const std::vector<size_t>& t) {
         std::vector<int> v; std::vector<long long> l; std::deque<short> s; std::set<int> st; std::multiset<unsigned int> ms; SV w, ws, wst, wms;
         for (size_t i = 0; i < n; ++i) { v.push_back((int)vals[t[i]]); l.push_back(vals[t[i]] * 3000000000LL); s.push_back((short)vals[t[i]]); st.insert(v.back()); ms.insert((unsigned)v.back()); }
         MC_CASE(o << "join of integers " << v);
         std::string jl; for (size_t i = 0; i < n; ++i) { w.push_back(std::to_string(v[i])); ws.push_back(std::to_string(s[i])); jl += (i ? "|" : "") + std::to_string(l[i]); }
         for (int x : st) wst.push_back(std::to_string(x)); for (unsigned x : ms) wms.push_back(std::to_string(x));
         MC_EQ(strtk::join(",", v), model_join(w, ",")); MC_EQ(strtk::join("|", l), jl); MC_EQ(strtk::join("", s), model_join(ws, "")); MC_EQ(strtk::join(", ", st), model_join(wst, ", ")); MC_EQ(strtk::join(";", ms), model_join(wms, ";"));
         std::string b; for (size_t i = 0; i < n; ++i) b += "(" + w[i] + ")"; MC_EQ(strtk::bracketize("(", ")", v), b);
         std::vector<char> c; std::string wc; for (size_t i = 0; i < n; ++i) { c.push_back((char)(65 + t[i])); wc += (i ? "," : ""); wc += c.back(); } MC_EQ(strtk::join(",", c), wc);
      });
}
MC_SECTION(from_a_stream)
{
   // iterators that pass over their values only once
   for (size_t len = 0; len <= mc::tier<size_t>(6, 8); ++len) mc::tuples(3, len, [&](const std::vector<size_t>& ix) {
      const std::vector<int> v(ix.begin(), ix.end()); SV t, odd; std::string br, ins; for (int x : v) { t.push_back(std::to_string(x)); if (x % 2) odd.push_back(t.back()); br += "<" + t.back() + ">"; }
      MC_CASE(o << "join of a stream of " << t);
      typedef mc::Once<int> O; const std::string w = model_join(t, ", "), wo = model_join(odd, ", ");
      { O s(v); std::string o = "p"; strtk::join(o, ", ", s.b, s.e); MC_EQM(o, "p" + w, "join(out)"); } { O s(v); MC_EQM(strtk::join(", ", s.b, s.e), w, "join"); }
      { O s(v); std::string o = "p"; strtk::join(o, ", ", std::make_pair(s.b, s.e)); MC_EQM(o, "p" + w, "join(out,range)"); } { O s(v); MC_EQM(strtk::join(", ", std::make_pair(s.b, s.e)), w, "join(range)"); }
      { O s(v); std::string o = "p"; strtk::join_if(o, ", ", Odd(), s.b, s.e); MC_EQM(o, "p" + wo, "join_if(out)"); } { O s(v); MC_EQM(strtk::join_if(", ", Odd(), s.b, s.e), wo, "join_if"); }
      { O s(v); std::string o = "p"; strtk::bracketize(o, "<", ">", s.b, s.e); MC_EQM(o, "p" + br, "bracketize(out)"); } { O s(v); MC_EQM(strtk::bracketize("<", ">", s.b, s.e), br, "bracketize"); }
      for (size_t iv = 1; iv <= 3; ++iv) { std::vector<int> wi, g; for (size_t i = 0; i < v.size(); ++i) { wi.push_back(v[i]); if ((i + 1) % iv == 0) wi.push_back(-1); } O s(v); MC_EQ(strtk::inserter(strtk::interval_inserter<int>(iv, -1), s.b, s.e, mc::append(g)), wi.size()); MC_EQM(g, wi, "inserter"); }
      mc::outcome(mc::Hash()(w)(wo));
   });
}
MC_MAIN
