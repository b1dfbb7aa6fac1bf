// U04: type names, printed tokens and attributes, scoped_restore.
#include "split_model.hpp"
#include <deque>
#include <list>
#include <sstream>
#include <stdexcept>
typedef std::string S;
struct Other { int x; };

template <typename T> static void one(const char* name)
{
   const S n(name); const T* none = 0; (void)none;
   MC_CASE(o << "names of types made of " << name);
   for (int again = 0; again < 2; ++again)                       // the names are remembered: the second answer is the same
   {
      { std::vector<T> c; MC_EQ(strtk::type_name(c), "std::vector<" + n + ">"); }
      { std::deque<T> c(3); MC_EQ(strtk::type_name(c), "std::deque<" + n + ">"); }
      { std::list<T> c; MC_EQ(strtk::type_name(c), "std::list<" + n + ">"); }
   }
   mc::outcome(n);
}
template <typename T> static void scalar(const char* name)
{
   const S n(name); one<T>(name);
   for (int again = 0; again < 2; ++again)
   {
      MC_CASE(o << "name of " << name);
      T t = T(); MC_EQ(strtk::type_name(t), n);
      { T a[1] = { T() }; MC_EQ(strtk::type_name(a), n + "[1]"); } { T a[10] = { T() }; MC_EQ(strtk::type_name(a), n + "[10]"); } { static T a[1234]; MC_EQ(strtk::type_name(a), n + "[1234]"); }
      { std::pair<T,T> p; MC_EQ(strtk::type_name(p), "std::pair<" + n + "," + n + ">"); }
      { std::pair<T,S> p; MC_EQ(strtk::type_name(p), "std::pair<" + n + ",std::string>"); } { std::pair<int,T> p; MC_EQ(strtk::type_name(p), "std::pair<int," + n + ">"); }
      { std::pair<std::pair<T,short>,double> p; MC_EQ(strtk::type_name(p), "std::pair<std::pair<" + n + ",short>,double>"); }
      { std::set<T> c; MC_EQ(strtk::type_name(c), "std::set<" + n + ">"); } { std::multiset<T> c; MC_EQ(strtk::type_name(c), "std::multiset<" + n + ">"); }
      { std::vector<std::pair<T,T> > c; }
   }
}
MC_SECTION(type_names)
{
   scalar<signed char>("signed char"); scalar<unsigned char>("unsigned char"); scalar<short>("short"); scalar<int>("int"); scalar<long>("long"); scalar<long long>("long long"); scalar<unsigned short>("unsigned short");
   scalar<unsigned int>("unsigned int"); scalar<unsigned long>("unsigned long"); scalar<unsigned long long>("unsigned long long int"); scalar<float>("float"); scalar<double>("double"); scalar<long double>("long double"); scalar<S>("std::string");
   one<Other>("Unknown"); one<void*>("Unknown"); { MC_CASE(o << "unknown type"); Other x; MC_EQ(strtk::type_name(x), S("Unknown")); }
}

template <typename R> static void show(R r, const S& want) { std::ostringstream o, p; o << r; MC_EQM(o.str(), want, "printed range"); const R& c = r; p << "[" << c << "]"; MC_EQM(p.str(), "[" + want + "]", "printed const range"); }
template <typename T> static void prefixes(const S& s)
{
   for (size_t a = 0; a <= s.size(); ++a) for (size_t e = a; e <= s.size(); ++e)
   {
      MC_CASE(o << "printing " << s << " from " << a << " to " << e); const S w = s.substr(a, e - a); S t = s; mc::Buf<char> b(w);
      show(std::make_pair((char*)b.begin(), (char*)b.end()), w); show(std::make_pair((const char*)b.begin(), (const char*)b.end()), w);
      show(std::make_pair((unsigned char*)b.begin(), (unsigned char*)b.end()), w); show(std::make_pair((const unsigned char*)b.begin(), (const unsigned char*)b.end()), w);
      show(std::make_pair(t.begin() + a, t.begin() + e), w); show(std::make_pair(s.begin() + a, s.begin() + e), w); mc::outcome(w);
   }
}
template <typename P> static void tokens(const S& s, const P& p, const S& d)
{
   typedef typename strtk::std_string::tokenizer<P>::type T;
   T t(s, p); const Toks want = model_split(s, d, strtk::split_options::default_mode); size_t k = 0;
   for (typename T::iterator i = t.begin(); i != t.end() && k < want.size(); ++i, ++k) { std::ostringstream o; o << i; MC_EQM(o.str(), s.substr(want[k].first, want[k].second - want[k].first), "printed token"); }
   MC_EQ(k, want.size());
}
MC_SECTION(printing)
{
   mc::strings(S("a,\0\xFF", 4), 0, mc::tier(5, 7), [](const S& s) {
      prefixes<char>(s);
      MC_CASE(o << "printing the tokens of " << s);
      tokens(s, strtk::single_delimiter_predicate<char>(','), ","); tokens(s, strtk::multiple_char_delimiter_predicate(","), ","); tokens(s, strtk::multiple_char_delimiter_predicate("a,"), "a,");
   });
}
MC_SECTION(attributes)
{
   const S v[] = { "", "a", "ab", "b", S("a\0b", 3) };
   for (const S& x : v) for (const S& y : v)
   {
      if (y.size() != strlen(y.c_str())) continue;
      MC_CASE(o << "attribute " << x << " against " << y);
      strtk::util::attribute<S> a(x); const strtk::util::attribute<S> c(x); std::ostringstream o; o << a << c; MC_EQ(o.str(), x + x);
      MC_EQ(y.c_str() == c, x == y); MC_EQ(y.c_str() != c, x != y); MC_EQ(a == y, x == y); MC_EQ(a != y, x != y); MC_EQ(y.c_str() == a, x == y);
      strtk::util::attribute<S> e; MC_EQ(e == y, false); MC_EQ(e != y, true); e = y; MC_EQ(e == y, true); MC_EQ(e != y, false);
      mc::outcome(mc::Hash()(x)(y));
   }
   for (int x = -3; x < 4; ++x) for (int y = -3; y < 4; ++y) { MC_CASE(o << "attribute " << x << " against " << y); strtk::util::attribute<int> a(x); MC_EQ(a == y, x == y); MC_EQ(a != y, x != y); std::ostringstream o; o << a << "," << 5; MC_EQ(o.str(), std::to_string(x) + ",5"); mc::outcome(mc::Hash()((uint64_t)x)((uint64_t)y)); }
}

// scoped_restore: all nestings of scopes over one variable, each armed, disarmed or switched on the way, left normally or by an exception.
static void nest(const std::vector<size_t>& h, size_t k, int& x, int& model)
{
   if (k == h.size()) return;
   const int before = model; const bool start = h[k] & 1, sw = h[k] & 2, thr = h[k] & 4;
   mc::transition();
   try
   {
      strtk::util::scoped_restore<int> r(x, start); MC_EQ(r.restore(), start);
      x = model = (int)(100 * (k + 1) + h[k]); if (sw) r.restore() = !start;
      nest(h, k + 1, x, model); MC_EQ(x, model); x += 1000; model += 1000;
      if (thr) throw 1;
   }
   catch (int) {}
   if (start != sw) model = before;
   MC_EQ(x, model); mc::state(mc::Hash()((uint64_t)model)(k));
}
MC_SECTION(scoped_restore)
{
   for (size_t d = 1; d <= mc::tier((size_t)4, (size_t)5); ++d) mc::tuples(8, d, [&](const std::vector<size_t>& h) { MC_CASE(o << "nested scopes " << h); int x = 5, m = 5; nest(h, 0, x, m); MC_EQ(x, m); mc::outcome((uint64_t)(uint32_t)x); mc::trace(); });
   const char* t[] = { "", "abc", "a much longer string that is not stored in place, 0123456789" };
   for (const char* a : t) for (const char* b : t) for (int on = 0; on < 3; ++on)
   {
      MC_CASE(o << "scoped_restore of a string " << a << " set to " << b << " mode " << on); S s = a; std::vector<S> v(3, a);
      { strtk::util::scoped_restore<S> r(s, on != 0); strtk::util::scoped_restore<std::vector<S> > q(v); s = b; v.clear(); v.push_back(b); if (on == 2) { strtk::util::scoped_restore<S> r2(s); s = "inner"; } MC_EQ(s, S(b)); }
      MC_EQ(s, S(on ? a : b)); MC_TRUE(v == std::vector<S>(3, a)); mc::outcome(mc::Hash()(s)((uint64_t)on));
   }
}
MC_MAIN
