// N05: real numbers and streamed values become text that reads back.
#include "parse_model.hpp"
#include <cfloat>
#include <complex>
typedef std::string S;
template <typename T> static bool near_enough(T v, T back)
{
   if (v != v) return back != back;
   if (v == back) return std::signbit(v) == std::signbit(back);
   if (std::signbit(v) != std::signbit(back)) return false;
   const long double a = fabsl((long double)v), b = fabsl((long double)back);
   if (b > std::numeric_limits<T>::max()) return a > std::numeric_limits<T>::max() * (1 - 1e-9L);      // the nearest text may lie just beyond the largest number
   if (a > std::numeric_limits<T>::max()) return false;
   return fabsl(a - b) <= a * 1e-9L + 16 * (long double)std::numeric_limits<T>::denorm_min();
}
static bool grammar(const S& s)
{
   size_t i = 0; if (i < s.size() && s[i] == '-') ++i; const S r = s.substr(i); if (r == "inf" || r == "nan") return true;
   size_t d = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++d; } if (!d) return false;
   if (i < s.size() && s[i] == '.') { ++i; d = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++d; } if (!d) return false; }
   if (i < s.size() && s[i] == 'e') { ++i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i; d = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++d; } if (!d) return false; }
   return i == s.size();
}
template <typename T> static void one(T v, bool all)
{
   char id[64]; snprintf(id, sizeof id, "%La", (long double)v); MC_CASE(o << "number " << id << " of " << sizeof(T) << " bytes");
   S t = "old contents which are longer than any number"; MC_TRUE(strtk::type_to_string(v, t)); MC_TRUE(grammar(t)); for (S o : mc::stale(t)) { MC_TRUE(strtk::type_to_string(v, o)); MC_EQM(o, t, "into a string with other contents"); }
   T back = 77; MC_TRUE(strtk::string_to_type_converter(t, back)); MC_TRUE(near_enough(v, back));
   if (sizeof(T) == 4 && v == v && (double)v <= 3.4028234e38 && (double)v >= -3.4028234e38) MC_TRUE(v == back);      // ten digits always suffice for a float
   if (all)
   {
      MC_EQM(strtk::type_to_string(v), t, "returned text");
      std::vector<T> x(3, v); x[1] = T(2.5); MC_EQM(strtk::join(",", x), t + ",2.5," + t, "join"); MC_EQM(strtk::join("", x.begin(), x.begin() + 1), t, "join one");
      S c; strtk::construct(c, "|", v, T(0), v); MC_EQM(c, t + "|0|" + t, "construct");
      strtk::build_string b; b << v << S(";") << T(-1); MC_EQM(b.to_str(), t + ";-1", "build_string");
      T p = 5, q = 6; const bool r = strtk::parse(c, "|", p, q, x[2]); MC_EQ(r, true); MC_TRUE(near_enough(v, p) && q == 0 && near_enough(v, x[2]));
   }
   mc::outcome(mc::Hash()(t));
}
template <typename T, typename U> static void bits(int mant, int exps, bool deep)
{
   std::vector<U> ms; const U M = ((U)1 << mant) - 1;
   ms.push_back(0); ms.push_back(M); ms.push_back(M / 3); ms.push_back(M / 3 * 2); for (int i = 0; i < mant; i += deep ? 1 : 5) { ms.push_back((U)1 << i); ms.push_back(M ^ ((U)1 << i)); ms.push_back(((U)1 << i) - 1); }
   for (int e = 0; e < exps; ++e) for (U m : ms) for (int s = 0; s < 2; ++s) { const U u = ((U)s << (sizeof(U) * 8 - 1)) | ((U)e << mant) | m; T v; memcpy(&v, &u, sizeof v); if (v != v && m != M / 3) continue; one(v, m == 0 || m == M); }
}
MC_SECTION(doubles) { bits<double, uint64_t>(52, 2048, mc::tier(0, 1)); }
MC_SECTION(floats) { bits<float, uint32_t>(23, 256, true); }
MC_SECTION(long_doubles) { for (int e = -16440; e < 16384; e += mc::tier(23, 3)) for (int k = 1; k < 2000; k += 97) { one(ldexpl((long double)k / 1024, e), k < 200); one(-ldexpl((long double)k / 1000, e), false); } one(LDBL_MAX, true); one(-LDBL_MAX, true); one(std::numeric_limits<long double>::denorm_min(), true); one(LDBL_MIN, true); }
MC_SECTION(decimals)
{
   // numbers with few digits come out with exactly those digits
   for (int m = 0; m < mc::tier(2000, 20000); ++m) for (int p = -4; p <= 5; ++p)
   {
      char t[40]; if (p >= 0) { snprintf(t, sizeof t, "%d", m); if (m) for (int i = 0; i < p; ++i) strcat(t, "0"); } else { int q = 1; for (int i = 0; i < -p; ++i) q *= 10; snprintf(t, sizeof t, "%d.%0*d", m / q, -p, m % q); size_t n = strlen(t); while (t[n - 1] == '0') t[--n] = 0; if (t[n - 1] == '.') t[--n] = 0; }
      const double v = strtod(t, 0); if (v != 0 && v < 1e-4) continue; MC_CASE(o << "decimal " << t);
#ifdef strtk_no_tr1_or_boost
      MC_EQM(strtk::type_to_string(v), S(t), "text"); MC_EQM(strtk::type_to_string(-v), "-" + S(t), "negative text");
#endif
      one(v, false); one(-v, false); one((float)v, false); mc::outcome(mc::Hash()(S(t)));
   }
}
// values of types that only have a stream operator
struct Pt { int x, y; }; static std::ostream& operator<<(std::ostream& o, const Pt& p) { return o << p.x << ':' << p.y; }
struct Txt { S s; }; static std::ostream& operator<<(std::ostream& o, const Txt& p) { return o << p.s; }
template <typename T> static void streamed(const T& v)
{
   std::ostringstream o; o << v; const S w = o.str(); MC_CASE(o << "streamed value " << w);
   for (S t : mc::stale(w)) { MC_TRUE(strtk::type_to_string(v, t)); MC_EQM(t, w, "text"); }
   MC_EQM(strtk::type_to_string(v), w, "returned text");
   std::vector<T> x(2, v); MC_EQM(strtk::join("--", x), w + "--" + w, "join"); S c = "gone"; strtk::construct(c, "|", 7, v, S("z")); MC_TRUE(c.size() >= w.size() + 4 && c.substr(c.size() - w.size() - 4) == "7|" + w + "|z");
   strtk::build_string b; b << v << v; MC_EQM(b.to_str(), w + w, "build_string"); mc::outcome(mc::Hash()(w));
}
// operators that leave the stream in another state, fail on the way, or convert values themselves; one after another
struct Leaves { int how, v; };
static std::ostream& operator<<(std::ostream& o, const Leaves& p)
{
   switch (p.how)
   {
      case 0: return o << p.v;
      case 1: return o << std::hex << p.v;
      case 2: return o << p.v << std::hex << std::showbase << std::uppercase;
      case 3: o << p.v << '.'; o.width(9); return o;
      case 4: o.fill('*'); o.width(6); return o << p.v;
      case 5: o << p.v; o.setf(std::ios::boolalpha | std::ios::showpos | std::ios::left); return o;
      case 6: o.precision(2); return o << p.v / 7.0 << ' ' << (p.v > 0);
      case 7: o << p.v << 'f'; o.setstate(std::ios::failbit); return o;
      case 8: o << p.v << 'e'; o.setstate(std::ios::eofbit); return o;
      case 9: return o << p.v << '[' << strtk::type_to_string(Leaves{1, p.v}) << ',' << strtk::type_to_string(Pt{p.v, 2}) << ']';
      case 10: o << p.v << 'p'; o.seekp(0); return o;
      case 11: return o << p.v / 7.0 << std::scientific;
      default: return o;
   }
}
#ifdef strtk_enable_lexical_cast
static const bool PLAIN = false;       // what boost makes of an operator that fails or moves in its stream is boost's affair
#else
static const bool PLAIN = true;
#endif
MC_SECTION(streamed_states)
{
   auto text = [](const Leaves& v) { std::ostringstream o; o << v; return o.str(); };
   mc::tuples(13, 3, [&](const std::vector<size_t>& ix)
   {
      MC_CASE(o << "streamed values of the kinds " << ix << " one after another"); S all, w, b2;
      for (size_t i = 0; i < 3; ++i) { const Leaves v = { (int)ix[i], (int)(i * 299 + 11) }; if (v.how == 6 || v.how == 11) { S t; MC_TRUE(strtk::type_to_string(v, t)); MC_EQM(t, strtk::type_to_string(v), "text"); if (v.how == 6) MC_EQM(t, text(v), "text"); continue; } w = text(v); S t = "old"; if (v.how == 7) { if (strtk::type_to_string(v, t) && PLAIN) MC_EQM(t, w, "text of a value whose operator reports a failure"); continue; } if (v.how == 10 && !PLAIN) { strtk::type_to_string(v, t); continue; } MC_TRUE(strtk::type_to_string(v, t)); MC_EQM(t, w, "text"); MC_EQM(strtk::type_to_string(v), w, "returned text"); std::vector<Leaves> x(3, v); MC_EQM(strtk::join("/", x), w + "/" + w + "/" + w, "join"); strtk::build_string b; b << v << i << v; MC_EQM(b.to_str(), w + std::to_string(i) + w, "build_string"); }
      MC_EQM(strtk::type_to_string(255), S("255"), "an integer after them"); MC_EQM(strtk::type_to_string(Pt{255, -1}), S("255:-1"), "a value after them"); MC_EQM(strtk::type_to_string(0.5), strtk::type_to_string(0.5), "a real after them"); one(123.25, false); mc::transition(); mc::trace(); mc::outcome(mc::Hash()(w)(ix[0])(ix[1])(ix[2]));
   });
}
MC_SECTION(streamed_values)
{
   for (int x : {0, 1, -1, 10, INT_MAX, INT_MIN}) for (int y : {0, -7, 123456}) { streamed(Pt{x, y}); }
   mc::strings(S("a \0\n\xFF", 5), 0, mc::tier(5, 7), [&](const S& s) { streamed(Txt{s}); });
   for (size_t n : mc::scales(30, 70000)) { Txt t; for (size_t i = 0; i < n; ++i) t.s += (char)(i * 37 + n); streamed(t); }
   streamed(true); streamed(false);
}
MC_MAIN
