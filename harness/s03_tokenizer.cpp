#include "split_model.hpp"
typedef strtk::tokenize_options::type O;
// The iteration protocol: an iterator is "at token i" (i == count means end); every operation moves i as a
// forward iterator would, and what it denotes is token i of the split of the same input under the same options.
template <typename Pred>
struct Run
{
   typedef strtk::tokenizer<const char*,Pred> tok_t;
   typedef typename tok_t::iterator it_t;
   static void at(const tok_t& t, it_t& it, size_t i, const Toks& w, const char* base, size_t n)
   {
      it_t e = t.end();
      if (i < w.size())
      {
         mc::check(!(it == e), "iterator equals end before the last token");
         mc::check(it != e, "iterator compares equal to end before the last token");
         CR r = *it;
         mc::eq(Tok(r.first - base, r.second - base), w[i], "token");
         mc::check(it.as_string() == std::string(base + w[i].first, base + w[i].second), "as_string");
         mc::check(it.remaining() == std::string(base + w[i].first, base + n), "remaining");
      }
      else
      {
         mc::check(it == e, "iterator past the last token is not end");
         mc::check(!(it != e), "iterator past the last token differs from end");
      }
   }
   static void walk(const Pred& p, const std::string& s, const std::string& d, O opt)
   {
      mc::Buf<char> b(s);
      const char* base = b.begin();
      Toks w = model_split(s, d, opt);
      tok_t t(base, (const char*)b.end(), p, opt);
      {
         it_t it = t.begin();
         for (size_t i = 0; i <= w.size(); ++i) { at(t, it, i, w, base, s.size()); if (i < w.size()) ++it; }
         ++it; at(t, it, w.size(), w, base, s.size());          // incrementing at the end stays at the end
      }
      mc::outcome(mc::Hash()(opt)(w));
   }
};
static void small(const std::string& s, const std::string& d, O opt)
{
   MC_CASE(o << "tokenizer(input=" << s << ", delims=" << d << ", options=" << opt << ")");
   if (d.size() == 1) Run<strtk::single_delimiter_predicate<char> >::walk(strtk::single_delimiter_predicate<char>(d[0]), s, d, opt);
   Run<strtk::multiple_char_delimiter_predicate>::walk(strtk::multiple_char_delimiter_predicate(d), s, d, opt);
   strtk::multiple_delimiter_predicate<char> lp(d.begin(), d.end());
   Run<strtk::multiple_delimiter_predicate<char> >::walk(lp, s, d, opt);
}
MC_SECTION(walk_small)
{
   const char* ds[] = { ",", ",;", "" };
   for (int k = 0; k < 3; ++k)
      mc::strings("a,;", 0, mc::tier(7, 10), [&](const std::string& s) { for (O opt = 0; opt < 8; ++opt) small(s, ds[k], opt); });
   const std::string us[] = { std::string(1, '\0'), "\xFF", " " };
   for (int k = 0; k < 3; ++k)
      mc::strings(std::string("a\0\xFF ", 4), 0, mc::tier(4, 6), [&](const std::string& s) { for (O opt = 0; opt < 8; ++opt) small(s, us[k], opt); });
}
MC_SECTION(in_context)
{
   mc::in_context("a,;", 1, mc::tier(3, 5), 'x', 'y', [&](const std::string& s) { for (O opt = 0; opt < 8; ++opt) { small(s, ",", opt); small(s, ",;", opt); } });
}
MC_SECTION(walk_deep)
{ mc::strings("a,", 0, mc::tier(12, 16), [&](const std::string& s) { for (O opt = 0; opt < 8; ++opt) small(s, ",", opt); }); }
MC_SECTION(walk_long)
{
   mc::long_strings(mc::tier(100, 200), 'x', '|', [&](const std::string& s) { for (O opt = 0; opt < 8; ++opt) small(s, "|", opt); });
   for (int d = 0; d < 256; ++d)
   {
      std::string s;
      for (int c = 0; c < 256; ++c) { s += (char)c; if (c % 7 == 0) s += (char)d; }
      for (O opt = 0; opt < 8; ++opt) small(s, std::string(1, (char)d), opt);
   }
}
template <typename Pred>
static void huge_walk(const Pred& p, const std::string& s, O opt, const Toks& w)
{
   typedef strtk::tokenizer<const char*,Pred> tok_t;
   mc::Buf<char> b(s);
   const char* base = b.begin();
   tok_t t(base, (const char*)b.end(), p, opt);
   typename tok_t::iterator it = t.begin();
   for (size_t i = 0; i < w.size(); ++i)
   {
      mc::check(!(it == t.end()), "iterator equals end before the last token");
      CR r = *it;
      mc::eq(Tok(r.first - base, r.second - base), w[i], "token");
      if ((i & 1) == 0) ++it; else it++;
   }
   mc::check(it == t.end(), "iterator past the last token is not end");
   const size_t n = std::min<size_t>(w.size(), 300);
   typename tok_t::iterator jt = t.begin(); jt += (int)n;
   if (n < w.size()) { CR r = *jt; mc::eq(Tok(r.first - base, r.second - base), w[n], "token after +="); mc::check(jt.as_string() == s.substr(w[n].first, w[n].second - w[n].first), "as_string"); mc::check(jt.remaining() == s.substr(w[n].first), "remaining"); }
   else mc::check(jt == t.end(), "+= past the last token is not end");
}
MC_SECTION(walk_huge)
{
   mc::huge_strings('x', '|', [&](const std::string& s, int pat) {
      for (O opt = 0; opt < 8; ++opt)
      {
         MC_CASE(o << "tokenizer over " << s.size() << " characters, pattern " << pat << ", options=" << opt);
         Toks w = model_split(s, "|", opt);
         huge_walk(strtk::single_delimiter_predicate<char>('|'), s, opt, w);
         huge_walk(strtk::multiple_char_delimiter_predicate("|;"), s, opt, w);
         mc::outcome(mc::Hash()(opt)(w));
      }
   });
}
struct Collect { std::vector<std::string>* v; void operator()(const CR& r) { v->push_back(std::string(r.first, r.second)); } };
MC_SECTION(whole_range_uses)
{
   mc::strings("a,;", 0, mc::tier(6, 8), [&](const std::string& s) {
      for (O opt = 0; opt < 8; ++opt)
      {
         MC_CASE(o << "range uses of tokenizer(input=" << s << ", options=" << opt << ")");
         typedef strtk::std_string::tokenizer<>::type tok_t;
         strtk::single_delimiter_predicate<char> p(',');
         std::vector<std::string> w = texts(s, model_split(s, ",", opt));
         tok_t t(s, p, opt);
         std::vector<std::string> v;
         CRs r(t.begin(), t.end());
         mc::check(strs(r) == w, "vector(begin,end)");
         v.clear(); Collect c = { &v };
         size_t n = strtk::for_each_token(s, t, c);
         mc::check(v == w && n == w.size(), "for_each_token(tokenizer)");
         v.clear();
         for (tok_t::iterator it = t.begin(); it != t.end(); it++) v.push_back(it.as_string());
         mc::check(v == w, "post-increment loop");
         mc::check((size_t)std::distance(t.begin(), t.end()) == w.size(), "distance");
         const tok_t& ct = t;
         CRs r2(ct.begin(), ct.end());
         mc::check(strs(r2) == w, "const tokenizer");
         typedef strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type mtok_t;
         strtk::multiple_char_delimiter_predicate mp(",;");
         mtok_t mt(s, mp, opt);
         CRs r3(mt.begin(), mt.end());
         mc::check(strs(r3) == texts(s, model_split(s, ",;", opt)), "multi-delimiter tokenizer");
         if (opt == 0)
         {
            std::vector<std::string> wd = texts(s, model_split(s, ",;", 0));
            v.clear();
            n = strtk::for_each_token(s, std::string(",;"), c); mc::check(v == wd && n == wd.size(), "for_each_token(string delims)");
            v.clear();
            n = strtk::for_each_token(s, ",;", c);              mc::check(v == wd && n == wd.size(), "for_each_token(c-string delims)");
         }
         mc::outcome(mc::Hash()(opt)(w));
      }
   });
}
// Every history of iterator and tokenizer operations up to a depth, from every start input.
MC_SECTION(operation_histories)
{
   typedef strtk::std_string::tokenizer<>::type tok_t;
   typedef tok_t::iterator it_t;
   strtk::single_delimiter_predicate<char> p(',');
   std::vector<std::string> in;
   mc::strings("a,", 0, mc::tier(3, 4), [&](const std::string& s) { in.push_back(s); });
   in.push_back("aa,,a,a"); in.push_back(",,a,,");
   std::vector<mc::Buf<char>*> bufs;
   for (size_t i = 0; i < in.size(); ++i) bufs.push_back(new mc::Buf<char>(in[i]));
   const size_t other = in.size() - 2, other2 = in.size() - 1;
   const char* names[] = { "++it", "it++", "it+=2", "it+=0", "copy,++copy,it=copy", "it2=tok2.begin();it2=it;++it2", "assign(other)", "assign(other,range)", "it=begin()", "tok=tok2", "tok3(tok)", "it2=it;it=tok2.begin();it=it2" };
   const char* dels[] = { ",", "a" };
   strtk::single_delimiter_predicate<char> pa('a');
   const size_t nops = 12, depth = mc::tier(4, 5);
   for (size_t a = 0; a < in.size(); ++a)
      for (O opt = 0; opt < 8; ++opt)
         mc::tuples(nops, depth, [&](const std::vector<size_t>& ops) {
            MC_CASE(o << "tokenizer(" << in[a] << ", options=" << opt << "): "; for (size_t k = 0; k < ops.size(); ++k) o << names[ops[k]] << " ");
            tok_t t(bufs[a]->begin(), bufs[a]->end(), p, opt);
            const O opt2 = 7 - opt; O now = opt; int d = 0;
            tok_t t2(bufs[other2]->begin(), bufs[other2]->end(), pa, opt2);          // everything about it differs: text, delimiter, options
            size_t cur = a, i = 0;
            Toks w = model_split(in[cur], dels[d], now);
            const Toks w2 = model_split(in[other2], "a", opt2);
            it_t it = t.begin();
            mc::trace();
            for (size_t k = 0; k < ops.size(); ++k)
            {
               mc::transition();
               switch (ops[k])
               {
                  case 0 : { it_t& r = ++it; mc::check(&r == &it, "++it does not return it"); if (i < w.size()) ++i; } break;
                  case 1 : { it_t old = it++; Run<strtk::single_delimiter_predicate<char> >::at(t, old, i, w, bufs[cur]->begin(), in[cur].size()); if (i < w.size()) ++i; } break;
                  case 2 : { it += 2; i = std::min(i + 2, w.size()); } break;
                  case 3 : { it += 0; } break;
                  case 4 : { it_t c(it); ++c; mc::check(i >= w.size() || c != it, "copy moved with the original"); it = c; if (i < w.size()) ++i; } break;
                  case 5 : { it_t c = t2.begin(); c = it; Run<strtk::single_delimiter_predicate<char> >::at(t, c, i, w, bufs[cur]->begin(), in[cur].size()); ++c; Run<strtk::single_delimiter_predicate<char> >::at(t, c, std::min(i + 1, w.size()), w, bufs[cur]->begin(), in[cur].size()); } break;
                  case 6 : { t.assign(in[other]); t.assign(bufs[other]->begin(), bufs[other]->end()); cur = other; w = model_split(in[cur], dels[d], now); it = t.begin(); i = 0; } break;
                  case 7 : { t.assign(bufs[0]->begin(), bufs[0]->end()); cur = 0; w = model_split(in[cur], dels[d], now); it = t.begin(); i = 0; } break;
                  case 8 : { it = t.begin(); i = 0; } break;
                  case 9 : { t = t2; cur = other2; now = opt2; d = 1; w = model_split(in[cur], dels[d], now); it = t.begin(); i = 0; } break;
                  case 10: { tok_t t3(t); it_t c = t3.begin(); Run<strtk::single_delimiter_predicate<char> >::at(t3, c, 0, w, bufs[cur]->begin(), in[cur].size()); } break;
                  case 11: { it_t c(it); it = t2.begin(); Run<strtk::single_delimiter_predicate<char> >::at(t2, it, 0, w2, bufs[other2]->begin(), in[other2].size()); it = c; } break;
               }
               Run<strtk::single_delimiter_predicate<char> >::at(t, it, i, w, bufs[cur]->begin(), in[cur].size());
               mc::state(mc::Hash()(cur)(now)(d)(i));
            }
            mc::outcome(mc::Hash()(cur)(now)(d)(i));
         });
}
MC_MAIN
