#include "parse_model.hpp"
typedef strtk::split_options::type O;

template <typename T, typename C> struct Check
{
   // parse: every token of split(options) in order, those that convert are added, the count is of all tokens.
   static void parse(const char* kind, const std::string& s, const std::string& d, const O opt, const SV& tok)
   {
      C w; put(w, Sentinel<T>::get());
      for (size_t i = 0; i < tok.size(); ++i) { T t; if (conv(tok[i], t)) put(w, t); }
      C want(w);
      std::vector<T> wd = drain(want);
      mc::Buf<char> b(s);
      for (int form = 0; form < 4; ++form)
      {
         C c; put(c, Sentinel<T>::get());
         size_t n = 0;
         switch (form)
         {
            case 0: n = strtk::parse(s, d, c, opt); break;
            case 1: n = strtk::parse((const char*)b.begin(), (const char*)b.end(), d, c, opt); break;
            case 2: n = strtk::parse(std::make_pair((const char*)b.begin(), (const char*)b.end()), d, c, opt); break;
            case 3: n = strtk::parse(s.begin(), s.end(), d, c, opt); break;
         }
         MC_EQM(n, tok.size(), kind); MC_EQM(drain(c), wd, kind);
      }
      if (opt == 1) { C c; put(c, Sentinel<T>::get()); MC_EQM(strtk::parse(s, d, c), tok.size(), kind); MC_EQM(drain(c), wd, kind); }
   }
   static void parse_n(const char* kind, const std::string& s, const std::string& d, const O opt, size_t n, const SV& tok)
   {
      C w; put(w, Sentinel<T>::get());
      const size_t before = w.size();
      for (size_t i = 0; i < tok.size() && i < n; ++i) { T t; if (conv(tok[i], t)) put(w, t); }
      const size_t added = w.size() - before;
      std::vector<T> wd = drain(w);
      mc::Buf<char> b(s);
      for (int form = 0; form < 3; ++form)
      {
         C c; put(c, Sentinel<T>::get());
         size_t r = 0;
         switch (form)
         {
            case 0: r = strtk::parse_n(s, d, n, c, opt); break;
            case 1: r = strtk::parse_n((const char*)b.begin(), (const char*)b.end(), d, n, c, opt); break;
            case 2: r = strtk::parse_n(std::make_pair((const char*)b.begin(), (const char*)b.end()), d, n, c, opt); break;
         }
         MC_EQM(r, added, kind); MC_EQM(drain(c), wd, kind);
      }
      if (opt == 1) { C c; put(c, Sentinel<T>::get()); MC_EQM(strtk::parse_n(s, d, n, c), added, kind); MC_EQM(drain(c), wd, kind); }
   }
};
template <typename T> static void array_n(const std::string& s, const std::string& d, const O opt, size_t n, const SV& tok)
{
   std::vector<T> w;
   for (size_t i = 0; i < tok.size() && i < n; ++i) { T t; if (conv(tok[i], t)) w.push_back(t); }
   for (int form = 0; form < 2; ++form)
   {
      mc::Buf<T> out(w.size());                       // exactly as large as what may be written
      mc::Buf<char> b(s);
      size_t r = form ? strtk::parse_n((const char*)b.begin(), (const char*)b.end(), d, n, out.p, opt) : strtk::parse_n(s, d, n, out.p, opt);
      MC_EQM(r, w.size(), "array"); MC_EQM(std::vector<T>(out.begin(), out.end()), w, "array");
   }
}
template <typename T> static void every_container(const std::string& s, const std::string& d)
{
   for (O opt = 0; opt < 8; ++opt)
   {
      SV tok = texts(s, model_split(s, d, opt));
      {
         MC_CASE(o << "parse(" << s << ", delims=" << d << ", options=" << opt << ") into containers of size " << sizeof(T));
         #define M(K,...) Check<T,__VA_ARGS__ >::parse(K, s, d, opt, tok);
         EACH_CONTAINER(M,T)
         #undef M
      }
      for (size_t n = 0; n <= tok.size() + 1; ++n)
      {
         if (n > 3 && n + 2 < tok.size()) continue;
         MC_CASE(o << "parse_n(" << s << ", delims=" << d << ", n=" << n << ", options=" << opt << ") into containers of size " << sizeof(T));
         #define M(K,...) Check<T,__VA_ARGS__ >::parse_n(K, s, d, opt, n, tok);
         EACH_CONTAINER(M,T)
         #undef M
         array_n<T>(s, d, opt, n, tok);
      }
      mc::outcome(mc::Hash()(opt)(tok));
   }
}
MC_SECTION(int_small)    { mc::strings("1,;x", 0, mc::tier(4, 6), [&](const std::string& s) { every_container<int>(s, ","); }); }
MC_SECTION(int_small_two){ mc::strings("1,;-", 0, mc::tier(4, 6), [&](const std::string& s) { every_container<int>(s, ",;"); }); }
MC_SECTION(string_small) { mc::strings("a,;", 0, mc::tier(5, 7), [&](const std::string& s) { every_container<std::string>(s, ",;"); }); }
MC_SECTION(double_small) { mc::strings("1. x", 0, mc::tier(4, 6), [&](const std::string& s) { every_container<double>(s, " "); }); }
// containers with an order, or an underlying container, of their own
template <typename T, typename C> static void own(const char* kind, const std::string& s, const std::string& d)
{
   for (O opt = 0; opt < 8; ++opt)
   {
      const SV tok = texts(s, model_split(s, d, opt));
      MC_CASE(o << "parse(" << s << ", delims=" << d << ", options=" << opt << ") into a " << kind << " of its own order");
      Check<T,C>::parse(kind, s, d, opt, tok);
      for (size_t n = 0; n <= tok.size() + 1; ++n) Check<T,C>::parse_n(kind, s, d, opt, n, tok);
      mc::outcome(mc::Hash()(opt)(tok));
   }
}
MC_SECTION(own_order)
{
   mc::strings("12,x", 0, mc::tier(5, 6), [&](const std::string& s) {
      own<int, std::set<int, std::greater<int> > >("set", s, ","); own<int, std::multiset<int, std::greater<int> > >("multiset", s, ",");
      own<int, std::priority_queue<int, std::vector<int>, std::greater<int> > >("priority_queue", s, ","); own<int, std::priority_queue<int, std::deque<int> > >("priority_queue", s, ",");
      own<int, std::queue<int, std::list<int> > >("queue", s, ","); own<int, std::stack<int, std::vector<int> > >("stack", s, ",");
   });
   mc::strings("ab,", 0, mc::tier(6, 7), [&](const std::string& s) { own<std::string, std::set<std::string, std::greater<std::string> > >("set", s, ","); own<std::string, std::multiset<std::string, std::greater<std::string> > >("multiset", s, ","); });
}
MC_SECTION(delimiter_sets)
{
   // sets of 0, 3, 4, 7 and 246 delimiters (all bytes that no number needs), every delimiter in every gap
   mc::strings("1;|:", 0, mc::tier(4, 5), [&](const std::string& s) { every_container<int>(s, ";|:"); });
   std::string all; for (int c = 0; c < 256; ++c) if (!strchr("0123456789-", c) || c == 0) all += (char)c;
   for (const std::string& d : { std::string(), std::string(";|:,"), std::string(" \t\r\n,;|"), all })
   {
      for (size_t i = 0; i < d.size(); ++i)
         for (int k = 0; k < (d.size() > 10 && mc::tier(true, false) ? 1 : 4); ++k)
         {
            const std::string x(1, d[i]), y(1, d[(i + 1) % d.size()]);
            every_container<int>(k == 0 ? "1" + x + "2" + y + "3" : k == 1 ? x + "1" + y : k == 2 ? "1" + x + y + "2" : "1" + x + "x" + y + "2" + x, d);
         }
      every_container<int>("12", d); every_container<int>("", d);
   }
}
MC_SECTION(delimiter_lists_in_turn) { mc::lists_in_turn(",;|", mc::tier(3, 4), [&](const std::string& d) { every_container<int>("1,2;;3|4", d); every_container<std::string>("a,b;c|", d); }); }
MC_SECTION(many_tokens)
{
   for (size_t n = 0; n <= (size_t)mc::tier(40, 130); ++n)
      for (size_t bad = 0; bad <= n; bad += (n < 6 ? 1 : 5))
      {
         std::string s;
         for (size_t i = 0; i < n; ++i) { if (i) s += (i % 4 == 3) ? ",," : ","; if (i + 1 == bad) s += "y7"; else s += std::to_string((int)(i * 7919 % 1000) - 500); }
         if (n % 3 == 1) s += ",";
         every_container<int>(s, ",");
         if (bad == 0) every_container<std::string>(s, ",");
      }
}
MC_SECTION(argument_vectors)
{
   const char* parts[] = { "1", "-2", "x", "", "30" };
   for (size_t n = 0; n <= (size_t)mc::tier(5, 7); ++n)
      mc::tuples(5, n, [&](const std::vector<size_t>& t) {
         std::vector<char*> argv;
         for (size_t i = 0; i < n; ++i) argv.push_back(const_cast<char*>(parts[t[i]]));
         argv.push_back(0);
         for (int brk = 0; brk < 2; ++brk)
         {
            MC_CASE(o << "parse(argc=" << n << ", argv=" << t << ", break_on_fail=" << (bool)brk << ")");
            std::vector<int> w(1, 5); size_t wr = n;
            for (size_t i = 0; i < n; ++i) { int v; if (conv(parts[t[i]], v)) w.push_back(v); else if (brk) { wr = i; break; } }
            std::vector<int> v(1, 5); std::deque<int> q(1, 5);
            int argc = (int)n;
            MC_EQ(strtk::parse(argc, &argv[0], v, brk != 0), wr); MC_EQ(v, w);
            MC_EQ(strtk::parse(argc, &argv[0], q, brk != 0), wr); MC_EQ(std::vector<int>(q.begin(), q.end()), w);
            if (brk) { std::vector<int> z(1, 5); MC_EQ(strtk::parse(argc, &argv[0], z), wr); MC_EQ(z, w); }
            mc::outcome(mc::Hash()(brk)(wr)((uint64_t)w.size()));
         }
      });
}
template <size_t K> struct Args { template <typename... A> static size_t call(int argc, char** argv, int* v, A&... a) { return Args<K - 1>::call(argc, argv, v, v[K - 1], a...); } };
template <> struct Args<0> { template <typename... A> static size_t call(int argc, char** argv, int*, A&... a) { return strtk::parse(argc, argv, a...); } };
template <size_t K> static void variables(const std::vector<const char*>& menu, size_t n, int bad, size_t kind)
{
   // n arguments, the bad'th of which (if any) does not convert; anything but exactly K arguments is refused
   std::vector<std::string> t; for (size_t i = 0; i < n; ++i) t.push_back((int)i == bad ? menu[kind] : std::to_string(10 * (i + 1)));
   std::vector<char*> argv; for (size_t i = 0; i < n; ++i) argv.push_back(&t[i][0]);
   char* none = 0; mc::Buf<char*> b(argv.empty() ? &none : &argv[0], n);       // no terminating null: argv[n] may not be touched
   MC_CASE(o << "parse(argc=" << n << ", argv, t1..t" << K << "), argument " << bad << " is " << menu[kind]);
   int v[K], w[K]; for (size_t i = 0; i < K; ++i) v[i] = w[i] = -7;
   size_t r = 0; if (n == K) for (; r < K; ++r) { int x; if (!conv(t[r], x)) break; w[r] = x; }
   MC_EQ((Args<K>::call((int)n, b.begin(), v)), r); MC_TRUE(std::equal(v, v + K, w));
   mc::outcome(mc::Hash()(K)(n)((uint64_t)bad)(r));
}
template <size_t K> static void all_variables()
{
   const std::vector<const char*> menu = { "x", "", "1x", "-", "99999999999" };
   for (size_t n = 0; n <= 11; ++n) { variables<K>(menu, n, -1, 0); for (size_t bad = 0; bad < n; ++bad) for (size_t k = 0; k < menu.size(); ++k) variables<K>(menu, n, (int)bad, k); }
}
MC_SECTION(argument_variables) { all_variables<1>(); all_variables<2>(); all_variables<3>(); all_variables<4>(); all_variables<5>(); all_variables<6>(); all_variables<7>(); all_variables<8>(); all_variables<9>(); }
MC_SECTION(huge)
{
   for (size_t n : mc::scales(200, mc::tier<size_t>(70000, 140000)))
      for (int pat = 0; pat < 4; ++pat)
      {
         std::string s;
         for (size_t i = 0; i < n; ++i) { if (i) s += i % 7 ? "," : ",,"; const bool bad = pat == 1 ? i % 256 == 255 : pat == 2 ? i + 1 == n : pat == 3 ? i % 2 : false; s += bad ? std::string("x") : std::to_string((int)(i * 7919 % 100000) - 500); }
         for (O opt : {(O)0, (O)1, (O)6})
         {
            if (n > 1100 && mc::tier(true, false) && (opt != 1 || pat > 1 || (n != 4097 && n != 65536 && n != 65537))) continue;
            SV tok = texts(s, model_split(s, ",", opt));
            {
               MC_CASE(o << "parse of " << tok.size() << " tokens, pattern " << pat << ", options=" << opt);
               Check<int, std::vector<int> >::parse("vector", s, ",", opt, tok); Check<int, std::deque<int> >::parse("deque", s, ",", opt, tok); Check<int, std::list<int> >::parse("list", s, ",", opt, tok);
               Check<int, std::set<int> >::parse("set", s, ",", opt, tok); Check<int, std::multiset<int> >::parse("multiset", s, ",", opt, tok); Check<int, std::queue<int> >::parse("queue", s, ",", opt, tok); Check<int, std::stack<int> >::parse("stack", s, ",", opt, tok); Check<int, std::priority_queue<int> >::parse("priority_queue", s, ",", opt, tok);
            }
            for (size_t k : {(size_t)255, (size_t)256, (size_t)257, (size_t)65536, tok.size(), tok.size() + 1})
            {
               if (k > tok.size() + 1 || (k == 257 && n > 1100)) continue;
               MC_CASE(o << "parse_n of " << k << " of " << tok.size() << " tokens, pattern " << pat << ", options=" << opt);
               Check<int, std::vector<int> >::parse_n("vector", s, ",", opt, k, tok); Check<int, std::deque<int> >::parse_n("deque", s, ",", opt, k, tok); Check<int, std::list<int> >::parse_n("list", s, ",", opt, k, tok); if (pat < 2) { Check<int, std::set<int> >::parse_n("set", s, ",", opt, k, tok); Check<int, std::multiset<int> >::parse_n("multiset", s, ",", opt, k, tok); Check<int, std::queue<int> >::parse_n("queue", s, ",", opt, k, tok); Check<int, std::stack<int> >::parse_n("stack", s, ",", opt, k, tok); Check<int, std::priority_queue<int> >::parse_n("priority_queue", s, ",", opt, k, tok); }
               array_n<int>(s, ",", opt, k, tok);
            }
            mc::outcome(mc::Hash()(n)((uint64_t)pat)(opt));
         }
      }
   for (size_t n : mc::scales(200, 70000))
   {
      MC_CASE(o << "argument vector of " << n);
      std::vector<std::string> t; std::vector<int> w(1, 5); for (size_t i = 0; i < n; ++i) { t.push_back(std::to_string(i * 3)); w.push_back((int)(i * 3)); }
      std::vector<char*> argv; for (auto& x : t) argv.push_back(&x[0]); mc::Buf<char*> b(&argv[0], n);
      { std::vector<int> v(1, 5); MC_EQ(strtk::parse((int)n, b.begin(), v), n); MC_TRUE(v == w); }
      { std::vector<int> v(1, 5); t[n - 1] = "x"; argv.back() = &t[n - 1][0]; b.begin()[n - 1] = argv.back(); w.pop_back(); MC_EQ(strtk::parse((int)n, b.begin(), v, false), n - 0); MC_TRUE(v == w); }
      mc::outcome(n);
   }
}
MC_MAIN
