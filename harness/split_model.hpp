// Reference model of splitting: token = [begin,end) offsets into the input.
#ifndef SPLIT_MODEL_HPP
#define SPLIT_MODEL_HPP
#include "strtk.hpp"
#include "mc.hpp"
typedef std::pair<size_t,size_t> Tok;
typedef std::vector<Tok> Toks;

// flags: 1 compress, 2 include first delimiter, 4 include all delimiters (2 wins over 4)
template <typename IsDelim>
inline Toks model_split(size_t n, IsDelim is, unsigned flags)
{
   Toks r;
   if (n == 0) return r;
   const bool compress = flags & 1, first = flags & 2, all = (flags & 4) && !first;
   size_t start = 0;
   for (;;)
   {
      size_t p = start;
      while (p < n && !is(p)) ++p;
      if (p == n) break;
      size_t run = p;
      if (compress || all) while (run < n && is(run)) ++run;
      if (first)     { r.push_back(Tok(start, p + 1)); start = compress ? run : p + 1; }
      else if (all)  { r.push_back(Tok(start, run));   start = run; }
      else           { r.push_back(Tok(start, p));     start = compress ? run : p + 1; }
   }
   if (start < n || is(n - 1)) r.push_back(Tok(start, n));
   return r;
}
struct InSet
{
   const std::string& s; const std::string& d;
   InSet(const std::string& s_, const std::string& d_) : s(s_), d(d_) {}
   bool operator()(size_t i) const { return d.find(s[i]) != std::string::npos; }
};
inline Toks model_split(const std::string& s, const std::string& d, unsigned flags) { return model_split(s.size(), InSet(s, d), flags); }
inline std::vector<std::string> texts(const std::string& s, const Toks& t)
{ std::vector<std::string> r; for (size_t i = 0; i < t.size(); ++i) r.push_back(s.substr(t[i].first, t[i].second - t[i].first)); return r; }

template <typename It>
inline Toks offsets(It base, const std::vector<std::pair<It,It> >& v)
{ Toks r; for (size_t i = 0; i < v.size(); ++i) r.push_back(Tok(std::distance(base, v[i].first), std::distance(base, v[i].second))); return r; }
typedef std::pair<const char*,const char*> CR;
typedef std::vector<CR> CRs;
inline std::string str(const CR& r) { return std::string(r.first, r.second); }
inline std::vector<std::string> strs(const CRs& v) { std::vector<std::string> r; for (size_t i = 0; i < v.size(); ++i) r.push_back(str(v[i])); return r; }
#endif
