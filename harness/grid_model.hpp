// Reference model of strtk::token_grid: rows of tokens, each token a pair of offsets into the text.
#ifndef GRID_MODEL_HPP
#define GRID_MODEL_HPP
#include "parse_model.hpp"
#include <algorithm>
#include <memory>
typedef std::string S;
typedef strtk::token_grid G;
typedef G::row_type Row;

struct MGrid
{
   S text;
   std::vector<Toks> rows;
   size_t maxc() const { size_t m = 0; for (auto& r : rows) m = std::max(m, r.size()); return m; }
   size_t minc() const { size_t m = (size_t)-1; for (auto& r : rows) m = std::min(m, r.size()); return m; }
   S tok(const Tok& t) const { return text.substr(t.first, t.second - t.first); }
   S tok(size_t r, size_t c) const { return tok(rows[r][c]); }
   uint64_t hash() const { mc::Hash h; h((uint64_t)rows.size()); for (auto& r : rows) { h((uint64_t)r.size()); for (auto& t : r) { h(t.first); h(t.second); } } return h.h; }
};

struct Opt
{
   S cd, rd; unsigned mode; bool dq, trim;
   Opt(const S& c = ",", const S& r = "\n", unsigned m = 1, bool d = false, bool t = false) : cd(c), rd(r), mode(m), dq(d), trim(t) {}
   G::options real() const { return G::options((strtk::split_options::type)1, (strtk::split_options::type)mode, rd, cd, dq, trim); }
};

inline MGrid model_grid(const S& text, const Opt& o)
{
   MGrid g; g.text = text;
   Toks lines = model_split(text, o.rd, 1);
   for (auto& l : lines)
   {
      if (l.first == l.second) continue;            // blank lines make no row
      const S line = text.substr(l.first, l.second - l.first);
      Toks t;
      if (!o.dq) t = model_split(line, o.cd, o.mode);
      else
      {
         std::vector<char> d(line.size(), 0); bool q = false;
         for (size_t i = 0; i < line.size(); ++i) { if (line[i] == '"') q = !q; else d[i] = !q && o.cd.find(line[i]) != S::npos; }
         t = model_split(line.size(), [&](size_t i) { return d[i] != 0; }, o.mode);
         if (o.trim) for (auto& x : t) if (x.second - x.first >= 2 && line[x.first] == '"' && line[x.second - 1] == '"') { ++x.first; --x.second; }
      }
      for (auto& x : t) { x.first += l.first; x.second += l.first; }
      g.rows.push_back(t);
   }
   return g;
}

static Tok off(const unsigned char* base, const G::range_t& r) { return Tok((size_t)(r.first - base), (size_t)(r.second - base)); }
static bool null(const G::range_t& r) { return r.first == 0 && r.second == 0; }

struct CountRow { const MGrid* m; size_t at; std::vector<S>* out; void operator()(const Row& r) const { out->push_back(r.as_string()); } };
struct CountTok { std::vector<S>* out; void operator()(const G::range_t& r) const { out->push_back(S(r.first, r.second)); } };

// every read accessor of the grid and of its rows against the model; base is where the text starts in memory (0: find out)
inline void view(const G& g, const MGrid& m, const unsigned char* base)
{
   const size_t R = m.rows.size(), C = m.maxc();
   MC_EQM(g.row_count(), R, "row_count");
   MC_EQM(g.max_column_count(), C, "max_column_count");
   if (R) MC_EQM(g.min_column_count(), m.minc(), "min_column_count");
   MC_TRUE(g.all_rows() == G::row_range_t(0, (unsigned)R));
   MC_TRUE(null(g.token(R, 0))); MC_TRUE(null(g.token(R + 5, 1)));
   if (R && !base) base = g.token(0, 0).first - m.rows[0][0].first;
   std::vector<S> whole, seen;
   for (size_t r = 0; r < R; ++r)
   {
      const Toks& t = m.rows[r]; const size_t n = t.size();
      for (size_t c = 0; c < n; ++c) MC_EQM(off(base, g.token(r, c)), t[c], "token");
      MC_TRUE(null(g.token(r, n))); MC_TRUE(null(g.token(r, n + 1 + C)));
      Row row = g.row(r);
      MC_EQM(row.size(), n, "row size"); MC_EQM(row.index(), r, "row index"); MC_TRUE(row.all_columns() == G::col_range_t(0, (unsigned)n));
      MC_EQM(off(base, row.range()), Tok(t[0].first, t[n - 1].second), "row range");
      size_t raw = 0; S all;
      for (size_t c = 0; c < n; ++c)
      {
         const size_t len = t[c].second - t[c].first; raw += len; all += m.tok(t[c]);
         MC_EQM(off(base, row.token(c)), t[c], "row token"); MC_EQM(row.is_null(c), len == 0, "is_null"); MC_EQM(row.raw_length(c), len, "raw_length of a column");
      }
      MC_EQM(row.raw_length(), raw, "raw_length"); MC_EQM(row.as_string(), all, "as_string"); S o = "x"; row.as_string(o); MC_EQM(o, all, "as_string(out)");
      whole.push_back(all);
      std::vector<S> cols; CountTok f = {&cols};
      MC_EQM(row.for_each_column(f), n, "for_each_column"); MC_EQM(cols, texts(m.text, t), "for_each_column tokens");
   }
   CountRow f = {&m, 0, &seen};
   MC_EQM(g.for_each_row(f), R, "for_each_row"); MC_EQM(seen, whole, "for_each_row rows");
   for (size_t a = 0; a <= R + 1; ++a) for (size_t b = 0; b <= R + 1; ++b)
   {
      if (R > 6 && a > 2 && a + 2 < R && b > 2 && b + 2 < R) continue;
      const bool ok = a <= b && b <= R; seen.clear();
      MC_EQM(g.for_each_row(G::row_range_t((unsigned)a, (unsigned)b), f), ok ? b - a : 0, "for_each_row of a range");
      MC_EQM(seen, ok ? std::vector<S>(whole.begin() + a, whole.begin() + b) : std::vector<S>(), "rows of a range");
      if (ok) MC_TRUE(g.range((unsigned)a, (unsigned)b) == G::row_range_t((unsigned)a, (unsigned)b));
      else { seen.clear(); if (a <= b || b <= R) MC_EQM(g.for_each_row(g.range((unsigned)a, (unsigned)b), f), (size_t)0, "rows of an invalid range"); }
   }
   for (size_t a = 0; a <= R; ++a) MC_TRUE(g.range((unsigned)a) == G::row_range_t((unsigned)a, (unsigned)R));
}
// the same for grids too large for that: every token, every row, a few ranges
inline void view_big(const G& g, const MGrid& m, const unsigned char* base)
{
   const size_t R = m.rows.size(), C = m.maxc();
   MC_EQM(g.row_count(), R, "row_count"); MC_EQM(g.max_column_count(), C, "max_column_count"); if (R) MC_EQM(g.min_column_count(), m.minc(), "min_column_count");
   MC_TRUE(g.all_rows() == G::row_range_t(0, (unsigned)R)); MC_TRUE(null(g.token(R, 0)));
   std::vector<S> whole, seen;
   for (size_t r = 0; r < R; ++r)
   {
      const Toks& t = m.rows[r]; const size_t n = t.size(); Row row = g.row(r); size_t raw = 0; S all;
      MC_EQM(row.size(), n, "row size"); MC_EQM(row.index(), r, "row index"); MC_EQM(off(base, row.range()), Tok(t[0].first, t[n - 1].second), "row range");
      for (size_t c = 0; c < n; ++c) { const size_t len = t[c].second - t[c].first; raw += len; all += m.tok(t[c]); if (!(off(base, g.token(r, c)) == t[c] && off(base, row.token(c)) == t[c] && row.is_null(c) == (len == 0) && row.raw_length(c) == len)) { MC_EQM(off(base, g.token(r, c)), t[c], "token"); MC_EQM(off(base, row.token(c)), t[c], "row token"); mc::fail("is_null or raw_length"); } }
      MC_TRUE(null(g.token(r, n))); MC_EQM(row.raw_length(), raw, "raw_length"); MC_TRUE(row.as_string() == all); whole.push_back(all);
      std::vector<S> cols; CountTok f = {&cols}; MC_EQM(row.for_each_column(f), n, "for_each_column"); MC_TRUE(cols == texts(m.text, t));
   }
   CountRow f = {&m, 0, &seen}; MC_EQM(g.for_each_row(f), R, "for_each_row"); MC_TRUE(seen == whole);
   for (size_t a : { (size_t)0, (size_t)1, R / 2 }) for (size_t b : { R - R / 3, R }) { if (a > b) continue; seen.clear(); MC_EQM(g.for_each_row(G::row_range_t((unsigned)a, (unsigned)b), f), b - a, "for_each_row of a range"); MC_TRUE(seen == std::vector<S>(whole.begin() + a, whole.begin() + b)); }
}
// rows x cols, ragged when k is 1, tokens of varying width, numbers when k is 2
inline S big_text(size_t rows, size_t cols, int k)
{ S t; for (size_t r = 0; r < rows; ++r) { const size_t n = k == 1 ? 1 + (r * 7 + 3) % cols : cols; for (size_t c = 0; c < n; ++c) { if (c) t += ','; if (k == 2) t += std::to_string((r * 31 + c) % 1000); else if ((r + c) % 3) t += S(1 + (r + c) % 2, (char)('a' + (r * 5 + c) % 3)); else if (n == 1) t += 'z'; } t += '\n'; } return t; }
#endif
