#include "split_model.hpp"
#include "parse_model.hpp"
#include <memory>
using strtk::util::value; using strtk::util::attribute; using strtk::util::semantic_action_impl;
// ---- histories over value slots (explicit-state: slot bindings + target contents)
template <typename T> struct Toy;
template <> struct Toy<int> { static std::vector<std::string> fields() { return { "5", "-17", "x", "" }; } };
template <> struct Toy<std::string> { static std::vector<std::string> fields() { return { "5", "ab c", "", "zz" }; } };
template <typename T> static void value_histories(const char* name)
{
   enum { Slots = 2, Targets = 2 };
   const std::vector<std::string> fields = Toy<T>::fields();
   // ops: bind(slot,target) via constructor or assign; copy slot->slot by copy construction or assignment; default; feed(slot, field, form)
   struct Op { int kind, a, b; };
   std::vector<Op> ops;
   for (int s = 0; s < Slots; ++s)
   {
      for (int t = 0; t < Targets; ++t) { ops.push_back({ 0, s, t }); ops.push_back({ 1, s, t }); }
      ops.push_back({ 2, s, 1 - s }); ops.push_back({ 3, s, 1 - s }); ops.push_back({ 3, s, s }); ops.push_back({ 4, s, 0 });
      for (size_t f = 0; f < fields.size(); ++f) ops.push_back({ 5, s, (int)f });
      ops.push_back({ 7, s, 1 - s });
   }
   const size_t depth = mc::tier(4, 5);
   mc::tuples(ops.size(), depth, [&](const std::vector<size_t>& h) {
      if (h.size() != depth) return;
      MC_CASE(o << name << " value history " << h);
      T x[Targets]; std::vector<T> want(Targets, Sentinel<T>::get());
      for (int i = 0; i < Targets; ++i) x[i] = Sentinel<T>::get();
      std::unique_ptr<value> v[Slots]; int bound[Slots];
      for (int i = 0; i < Slots; ++i) { v[i].reset(new value); bound[i] = -1; }
      for (size_t i = 0; i < h.size(); ++i)
      {
         const Op& o = ops[h[i]];
         switch (o.kind)
         {
            case 0: v[o.a].reset(new value(x[o.b])); bound[o.a] = o.b; break;
            case 1: v[o.a]->assign(x[o.b]); bound[o.a] = o.b; break;
            case 2: { const value& c = *v[o.b]; std::unique_ptr<value> n(new value(c)); v[o.a].swap(n); bound[o.a] = bound[o.b]; } break;
            case 3: { const value& c = *v[o.b]; *v[o.a] = c; bound[o.a] = bound[o.b]; } break;
            case 4: v[o.a].reset(new value); bound[o.a] = -1; break;
            case 5:
            {
               const std::string& f = fields[o.b]; bool r;
               switch (i % 4)
               {
                  case 0: r = (*v[o.a])(f); break;
                  case 1: r = (*v[o.a])(f.data(), f.data() + f.size()); break;
                  case 2: r = (*v[o.a])(std::make_pair(f.data(), f.data() + f.size())); break;
                  default: { const unsigned char* p = (const unsigned char*)f.data(); r = (*v[o.a])(p, p + f.size()); }
               }
               const bool w = bound[o.a] >= 0 && conv(f, want[bound[o.a]]);
               MC_EQM(r, w, "operator() of a field");
            } break;
            default: // the other slot is destroyed and its storage reused
            { v[o.b].reset(); std::vector<char> junk(sizeof(value), '\xAB'); v[o.b].reset(new value); bound[o.b] = -1; } break;
         }
         for (int s = 0; s < Slots; ++s)
         {
            MC_EQM(!*v[s], bound[s] < 0, "operator!");
            std::string t = "?"; std::string wt = "?";
            const bool r = v[s]->to_string(t);
            if (bound[s] >= 0) strtk::type_to_string(want[bound[s]], wt);
            MC_EQM(r, bound[s] >= 0, "to_string result");
            if (r) { MC_EQM(t, wt, "to_string text"); }
         }
         MC_EQM(std::vector<T>(x, x + Targets), want, "bound objects");
         mc::transition(); mc::state(mc::Hash()(bound[0] + 1)(bound[1] + 1)(mc::Hash()(want[0] == want[1]).h).h);
      }
      mc::trace();
   });
}
MC_SECTION(value_histories_int) { value_histories<int>("int"); }
MC_SECTION(value_histories_string) { value_histories<std::string>("string"); }
template <typename T> static void value_type(const char* const* f, size_t n)
{
   for (size_t i = 0; i < n; ++i)
   {
      T a = T(), b = T(); const std::string s = f[i];
      MC_CASE(o << "value bound to a type of size " << sizeof(T) << " fed " << s);
      value v(a); const bool w = strtk::string_to_type_converter(s, b);
      MC_EQM(v(s), w, "result"); if (w) MC_TRUE(a == b);
      std::vector<value> many; T x[9]; for (int k = 0; k < 9; ++k) { x[k] = T(); many.push_back(value(x[k])); }
      for (int k = 0; k < 9; ++k) { MC_EQM(many[k](s), w, "value in a grown vector"); if (w) MC_TRUE(x[k] == b); }
      std::string t1, t2; if (w) { MC_EQM(v.to_string(t1), strtk::type_to_string(b, t2), "to_string"); MC_EQ(t1, t2); }
      t1 = t2 = ""; if (w) { MC_EQM(strtk::type_to_string(v, t1), strtk::type_to_string(b, t2), "type_to_string(value)"); MC_EQ(t1, t2); }
   }
}
MC_SECTION(value_types)
{
   const char* f[] = { "0", "1", "-1", "+7", "127", "255", "300", "65536", "4294967296", "99999999999999999999", "", "x", "1x", "3.5", "-1e3", ".", "z", "ab", "\x80", "1 " };
   const size_t n = sizeof f / sizeof *f;
   value_type<short>(f, n); value_type<unsigned short>(f, n); value_type<int>(f, n); value_type<unsigned int>(f, n); value_type<long>(f, n); value_type<unsigned long>(f, n);
   value_type<long long>(f, n); value_type<unsigned long long>(f, n); value_type<float>(f, n); value_type<double>(f, n); value_type<long double>(f, n);
   value_type<char>(f, n); value_type<unsigned char>(f, n); value_type<signed char>(f, n); value_type<std::string>(f, n);
}
MC_SECTION(value_in_parse)
{
   mc::strings("1x,", 0, mc::tier(7, 8), [&](const std::string& s) {
      MC_CASE(o << "parse(" << s << ") into values bound to (int,string,int)");
      const SV tok = texts(s, model_split(s, ",", 1));
      int a = -777, b = -777, wa = a, wb = b; std::string q = "SENT", wq = q;
      value va(a), vq(q), vb(b);
      const bool w = tok.size() >= 3 && conv(tok[0], wa) && conv(tok[1], wq) && conv(tok[2], wb);
      MC_EQ(strtk::parse(s, ",", va, vq, vb), w); MC_EQ(a, wa); MC_EQ(q, wq); MC_EQ(b, wb);
   });
}
// ---- attribute: explicit state (value, previous, initialised)
template <typename T> static void attribute_histories(const char* name, const std::vector<T>& vals, const std::vector<std::string>& fields)
{
   const size_t n = vals.size(), ops = 2 * n + fields.size() + 1, depth = mc::tier(5, 6);
   for (size_t ctor = 0; ctor <= n; ++ctor)
      mc::tuples(ops, depth, [&](const std::vector<size_t>& h) {
         if (h.size() != depth) return;
         MC_CASE(o << name << " attribute, constructor " << ctor << ", history " << h);
         attribute<T> a = ctor < n ? attribute<T>(vals[ctor]) : attribute<T>();
         T t = T(), p = T(); bool init = false; if (ctor < n) { t = p = vals[ctor]; init = true; }
         for (size_t i = 0; i <= h.size(); ++i)
         {
            const attribute<T>& c = a;
            MC_EQM(c.initialised(), init, "initialised()"); MC_EQM(a.initialised(), init, "initialised()");
            MC_EQM(c.value(), t, "value()"); MC_EQM(c(), t, "operator()"); MC_EQM(a(), t, "operator()"); MC_EQM((T)c, t, "conversion"); MC_EQM((T)a, t, "conversion");
            MC_EQM(c.previous(), p, "previous()"); MC_EQM(a.previous(), p, "previous()"); MC_EQM(c.changed(), init && !(t == p), "changed()");
            for (size_t k = 0; k < n; ++k) { MC_EQM(a == vals[k], init && t == vals[k], "=="); MC_EQM(a != vals[k], !(init && t == vals[k]), "!="); }
            std::string txt = "?", wt = "?"; const bool r = strtk::type_to_string(c, txt);
            MC_EQM(r, init, "type_to_string result"); if (init) { strtk::type_to_string(t, wt); MC_EQM(txt, wt, "type_to_string text"); }
            mc::state(mc::Hash()(init)(txt)(p == t).h); mc::transition();
            if (i == h.size()) break;
            const size_t o = h[i];
            if (o < n) { a = vals[o]; p = t; t = vals[o]; init = true; }
            else if (o < 2 * n) { a.value() = vals[o - n]; t = vals[o - n]; }
            else if (o < 2 * n + fields.size())
            {
               const std::string& f = fields[o - 2 * n]; T u = T(); const bool ok = conv(f, u);
               bool r2;
               if (i & 1) r2 = strtk::string_to_type_converter(f, a); else { attribute<T> dummy; r2 = strtk::parse(f + ",1", ",", a, dummy); }
               if (f.empty() && !(i & 1)) { }
               MC_EQM(r2, ok, "parsing a field into the attribute");
               if (ok) { t = u; init = true; } else t = a.value();
            }
            else { attribute<T> b(a); attribute<T> d; d = vals[0]; a = d; a = b; }
         }
         mc::trace();
      });
}
MC_SECTION(attribute_int) { attribute_histories<int>("int", { 0, 7 }, { "7", "-3", "x" }); }
MC_SECTION(attribute_string) { attribute_histories<std::string>("string", { "", "ab" }, { "1", "zz" }); }
template <typename T> static void attribute_type(const char* const* f, size_t n)
{
   for (size_t i = 0; i < n; ++i)
   {
      const std::string s = f[i]; T b = T();
      MC_CASE(o << "attribute of a type of size " << sizeof(T) << " parsed from " << s);
      attribute<T> a; const bool w = strtk::string_to_type_converter(s, b);
      MC_EQM(strtk::string_to_type_converter(s, a), w, "result"); MC_EQ(a.initialised(), w); if (w) MC_TRUE(a.value() == b);
      std::string t1 = "?", t2 = "?"; if (w) { MC_EQ(strtk::type_to_string(a, t1), strtk::type_to_string(b, t2)); MC_EQ(t1, t2); } else MC_TRUE(!strtk::type_to_string(a, t1));
   }
}
MC_SECTION(attribute_types)
{
   const char* f[] = { "0", "1", "-1", "+7", "255", "300", "65536", "4294967296", "", "x", "1x", "3.5", "-1e3", "z" };
   const size_t n = sizeof f / sizeof *f;
   attribute_type<short>(f, n); attribute_type<unsigned short>(f, n); attribute_type<int>(f, n); attribute_type<unsigned int>(f, n); attribute_type<long>(f, n); attribute_type<unsigned long>(f, n);
   attribute_type<long long>(f, n); attribute_type<unsigned long long>(f, n); attribute_type<float>(f, n); attribute_type<double>(f, n); attribute_type<long double>(f, n);
   attribute_type<char>(f, n); attribute_type<unsigned char>(f, n); attribute_type<signed char>(f, n); attribute_type<std::string>(f, n);
}
// ---- semantic actions: called once per token, in order, with exactly the token
struct Log
{
   std::vector<std::string>* seen; int refuse; int id;
   template <typename It> bool operator()(It b, It e) const
   { seen->push_back(std::string(1, '0' + id) + ":" + std::string(b, e)); return (int)seen->size() != refuse; }
};
MC_SECTION(actions)
{
   mc::strings("1x,", 0, mc::tier(6, 7), [&](const std::string& s) {
      const SV tok = texts(s, model_split(s, ",", 1));
      for (int refuse = 0; refuse <= 3; ++refuse)
         for (int copied = 0; copied < 3; ++copied)
         {
            MC_CASE(o << "parse(" << s << ") into 3 semantic actions, call " << refuse << " refuses, form " << copied);
            std::vector<std::string> seen, want; Log l[3];
            for (int i = 0; i < 3; ++i) { l[i].seen = &seen; l[i].refuse = refuse; l[i].id = i; }
            bool w = tok.size() >= 3;
            for (size_t i = 0; w && i < 3; ++i) { want.push_back(std::string(1, '0' + i) + ":" + tok[i]); if ((int)want.size() == refuse) w = false; }
            bool r;
            if (copied == 0) r = strtk::parse(s, ",", strtk::util::semantic_action(l[0]).ref(), strtk::util::semantic_action(l[1]).ref(), strtk::util::semantic_action(l[2]).ref());
            else
            {
               std::vector<semantic_action_impl> v;      // copies: the originals are gone by the time of the parse
               for (int i = 0; i < 3; ++i) { const semantic_action_impl a = strtk::util::semantic_action(l[i]); v.push_back(a); }
               if (copied == 2) { std::vector<semantic_action_impl> u(v); v.swap(u); }
               for (int i = 0; i < 3; ++i) MC_TRUE(!!v[i]);
               r = strtk::parse(s, ",", v[0], v[1], v[2]);
            }
            MC_EQM(r, w, "result"); MC_EQM(seen, want, "calls");
            mc::outcome(mc::Hash()(seen));
         }
      MC_CASE(o << "an action applied to " << s << " directly, and one bound to nothing");
      std::vector<std::string> seen; Log l; l.seen = &seen; l.refuse = 0; l.id = 5;
      semantic_action_impl a = strtk::util::semantic_action(l);
      MC_TRUE(a(s)); MC_TRUE(a(s.data(), s.data() + s.size())); MC_TRUE(a(std::make_pair(s.data(), s.data() + s.size())));
      MC_EQ(seen, std::vector<std::string>(3, "5:" + s));
      semantic_action_impl none, none2(none); MC_TRUE(!none); MC_TRUE(!none2); MC_TRUE(!none(s)); MC_TRUE(!none2(s));
   });
}
MC_SECTION(huge)
{
   for (size_t n : mc::scales(60, 70000))
   {
      MC_CASE(o << "values, attributes and actions over tokens of " << n << " characters");
      const std::string s = mc::letters(n), t2 = mc::letters(n, 'A'); std::string x = "SENT", y, out; attribute<std::string> a, b; int num = 0;
      value vx(x), vy(y), vn(num); std::vector<value> v(3, vx); v[1] = vy; v[2] = vn;
      MC_TRUE(strtk::parse(s + "," + t2 + ",7", ",", vx, vy, vn)); MC_TRUE(x == s && y == t2); MC_EQ(num, 7);
      MC_TRUE(v[0](t2) && v[1](s) && v[2](std::string("9"))); MC_TRUE(x == t2 && y == s); MC_EQ(num, 9); MC_TRUE(v[0].to_string(out) && out == t2);
      MC_TRUE(!v[2](s)); MC_EQ(num, 9); MC_TRUE(v[2](std::string(n, '0') + "5") == strtk::string_to_type_converter(std::string(n, '0') + "5", num));
      MC_TRUE(strtk::parse(s + "," + t2, ",", a, b)); MC_TRUE(a() == s && b() == t2); a = t2; MC_TRUE(a.changed() && a.previous() == s && a == t2); MC_TRUE(strtk::type_to_string(a, out) && out == t2);
      std::vector<std::string> seen; Log l; l.seen = &seen; l.refuse = 0; l.id = 1; semantic_action_impl f = strtk::util::semantic_action(l);
      MC_TRUE(strtk::parse(s + "," + t2 + "," + s, ",", f, f, f)); MC_TRUE(seen == (std::vector<std::string>{ "1:" + s, "1:" + t2, "1:" + s }));
      std::vector<int> many(n); std::vector<value> vs; for (size_t i = 0; i < n; ++i) vs.push_back(value(many[i])); bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok && vs[i](std::to_string(i * 3)); for (size_t i = 0; i < n; ++i) ok = ok && many[i] == (int)(i * 3); MC_TRUE(ok);
      mc::outcome(n);
   }
}
MC_MAIN
