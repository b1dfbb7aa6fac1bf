// G03: column and row computations of a token_grid (extraction, widths, sums, joins, partitions).
#include "grid_model.hpp"

struct RowMask { unsigned mask; bool operator()(const Row& r) const { return mask >> r.index() & 1; } };
struct TokIs { S x; bool operator()(const G::range_t& r) const { return S(r.first, r.second) == x; } };
typedef std::vector<std::vector<S> > VV;

template <typename T> static bool column(const MGrid& m, size_t a, size_t b, const std::vector<size_t>& ix, bool checked, std::vector<std::vector<T> >& w)
{
   w.assign(ix.size(), std::vector<T>());
   const size_t hi = *std::max_element(ix.begin(), ix.end());
   for (size_t r = a; r < b; ++r) if (hi < m.rows[r].size()) for (size_t k = 0; k < ix.size(); ++k) { T v; if (conv(m.tok(r, ix[k]), v)) w[k].push_back(v); else if (!checked) return false; }
   return true;
}
static void extraction(const G& g, const MGrid& m)
{
   const size_t R = m.rows.size(), C = m.maxc();
   for (size_t a = 0; a <= R + 1; ++a) for (size_t b = 0; b <= R + 1; ++b)
   {
      const bool valid = a <= b && b <= R; const G::row_range_t rr((unsigned)a, (unsigned)b); const bool whole = a == 0 && b == R;
      if (R > 5 && !whole && a > 1 && b + 1 < R) continue;
      for (size_t i = 0; i <= C + 1; ++i)
      {
         VV w; std::vector<std::vector<int> > wi; bool okS = valid, okI = false;
         if (valid) { column<S>(m, a, b, {i}, false, w); okI = column<int>(m, a, b, {i}, false, wi); } else { w.assign(1, std::vector<S>()); wi.assign(1, std::vector<int>()); }
         const bool spec = i != C;                       // the result for the column just past the last one is not specified
         auto res = [&](bool r) { if (spec) MC_EQM(r, okS && i < C, "result of extract_column"); else if (!valid) MC_EQM(r, false, "result for an invalid range"); };
         { std::vector<S> o1; res(g.extract_column(rr, i, strtk::back_inserter_with_valuetype(o1))); MC_EQM(o1, w[0], "extract_column"); }
         { mc::Buf<S> o1(w[0].size()); res(g.extract_column(rr, i, o1.begin())); MC_EQM(std::vector<S>(o1.begin(), o1.end()), w[0], "extract_column through a pointer"); }
         if (whole) { std::vector<S> o1; res(g.extract_column(i, strtk::back_inserter_with_valuetype(o1))); MC_EQM(o1, w[0], "extract_column of all rows"); }
         { std::vector<int> o1; bool t = false; try { res(g.extract_column(rr, i, strtk::back_inserter_with_valuetype(o1))); } catch (const std::invalid_argument&) { t = true; } if (valid) { MC_EQM(t, !okI, "unconvertible token"); if (okI) MC_EQM(o1, wi[0], "extract_column of numbers"); } else { MC_EQM(t, false, "no conversion"); MC_EQM(o1.size(), (size_t)0, "nothing extracted"); } }
         std::vector<std::vector<int> > wc; if (valid) column<int>(m, a, b, {i}, true, wc); else wc.assign(1, std::vector<int>());
         { std::vector<int> o1; res(g.extract_column_checked(rr, i, strtk::back_inserter_with_valuetype(o1))); MC_EQM(o1, wc[0], "extract_column_checked"); }
         { mc::Buf<int> o1(wc[0].size()); res(g.extract_column_checked(rr, i, o1.begin())); MC_EQM(std::vector<int>(o1.begin(), o1.end()), wc[0], "extract_column_checked through a pointer"); }
         if (whole)
         {
            std::vector<int> v; g.extract_column_checked(i, v); MC_EQM(v, wc[0], "checked vector"); std::list<int> l; g.extract_column_checked(i, l); MC_EQM(std::vector<int>(l.begin(), l.end()), wc[0], "checked list");
            std::deque<int> d; g.extract_column_checked(i, d); MC_EQM(std::vector<int>(d.begin(), d.end()), wc[0], "checked deque");
            std::set<int> s; g.extract_column_checked(i, s); MC_TRUE(s == std::set<int>(wc[0].begin(), wc[0].end())); std::multiset<int> ms; g.extract_column_checked(i, ms); MC_TRUE(ms == std::multiset<int>(wc[0].begin(), wc[0].end()));
         }
      }
      // several columns at once: every combination of up to 5 indexes among the first columns
      const size_t K = std::min<size_t>(C + 2, 4);
      if (whole || (a == 0 && b == 1) || (R > 1 && a == 1 && b == R) || !valid)
         for (size_t n = 2; n <= 5; ++n) mc::tuples(n > 3 ? std::min<size_t>(K, 3) : K, n, [&](const std::vector<size_t>& ix0) {
            std::vector<size_t> ix = ix0; if (ix[0] == C + 1) return;
            const size_t hi = *std::max_element(ix.begin(), ix.end());
            VV w; if (valid) column<S>(m, a, b, ix, false, w); else w.assign(n, std::vector<S>());
            VV got(n); bool r = false;
            #define B(k) strtk::back_inserter_with_valuetype(got[k])
            switch (n) {
               case 2: r = g.extract_column(rr, ix[0], ix[1], B(0), B(1)); break;
               case 3: r = g.extract_column(rr, ix[0], ix[1], ix[2], B(0), B(1), B(2)); break;
               case 4: r = g.extract_column(rr, ix[0], ix[1], ix[2], ix[3], B(0), B(1), B(2), B(3)); break;
               case 5: r = g.extract_column(rr, ix[0], ix[1], ix[2], ix[3], ix[4], B(0), B(1), B(2), B(3), B(4)); break;
            }
            if (!valid) MC_EQM(r, false, "result for an invalid range"); else if (hi < C) MC_EQM(r, true, "result of extract_column"); else if (hi > C) MC_EQM(r, false, "result of extract_column");
            for (size_t k = 0; k < n; ++k) MC_EQM(got[k], w[k], "extracted columns");
         });
   }
}
static S joined(const std::vector<S>& v, const S& d) { S r; bool f = true; for (auto& s : v) { if (s.empty()) continue; if (!f) r += d; r += s; f = false; } return r; }
static void sums_and_joins(G& g, const MGrid& m)
{
   const size_t R = m.rows.size(), C = m.maxc();
   std::vector<size_t> widths; std::vector<std::pair<size_t,size_t> > pw;
   for (size_t c = 0; c < C; ++c) { size_t w = 0; for (auto& r : m.rows) if (c < r.size()) w = std::max(w, r[c].second - r[c].first); widths.push_back(w); pw.push_back(std::make_pair(c, w)); MC_EQM(g.column_width(c), w, "column_width"); }
   { std::vector<size_t> v; g.get_column_widths(v); MC_EQM(v, widths, "get_column_widths"); std::vector<std::pair<size_t,size_t> > p; g.get_column_widths(p); MC_EQM(p, pw, "get_column_widths pairs"); }
   MC_EQM(g.column_width(C + 1), (size_t)0, "width of a missing column");
   const S delims[] = {"|", "", "--"};
   for (size_t r = 0; r <= R + 1; ++r)
   {
      int sum = 100, want = 100; size_t n = 0; bool ok = r < R;
      if (ok) for (auto& t : m.rows[r]) { int v; if (!conv(m.tok(t), v)) { ok = false; break; } want += v; ++n; }
      MC_EQM(g.accumulate_row(r, sum), ok ? n : 0, "accumulate_row"); if (ok) MC_EQM(sum, want, "row sum");
      for (auto& d : delims)
      {
         std::vector<S> t, tp; if (r < R) for (auto& x : m.rows[r]) { t.push_back(m.tok(x)); if (m.tok(x) == "1") tp.push_back("1"); }
         S o = "pre"; MC_EQM(g.join_row(r, d, o), r < R, "join_row"); MC_EQM(o, "pre" + joined(t, d), "joined row");
         TokIs p = {"1"}; o = "pre"; MC_EQM(g.join_row(r, p, d, o), r < R, "join_row with a predicate"); MC_EQM(o, "pre" + joined(tp, d), "row joined with a predicate");
         o = ""; MC_EQM(g.join_row(r, p, d.c_str(), o), r < R, "join_row with a predicate, char pointer"); MC_EQM(o, joined(tp, d), "row joined with a predicate, char pointer");
      }
   }
   const unsigned masks = R <= 4 ? 1u << R : 8;
   for (size_t a = 0; a <= R + 1; ++a) for (size_t b = 0; b <= R + 1; ++b)
   {
      const bool valid = a <= b && b <= R, whole = a == 0 && b == R; const G::row_range_t rr((unsigned)a, (unsigned)b);
      if (R > 5 && !whole && a > 1 && b + 1 < R) continue;
      for (size_t c = 0; c <= C + 1; ++c)
      {
         if (c == C) continue;
         size_t w = 0; if (valid) for (size_t r = a; r < b; ++r) if (c < m.rows[r].size()) w = std::max(w, m.rows[r][c].second - m.rows[r][c].first);
         MC_EQM(g.column_width(c, rr), w, "column_width of a range");
         for (unsigned mi = 0; mi <= masks; ++mi)
         {
            const unsigned mask = mi == masks ? ~0u : R <= 4 ? mi : mi * 0x2f51u;
            int sum = 7, want = 7; size_t n = 0; bool ok = valid; std::vector<S> t;
            if (valid) for (size_t r = a; r < b; ++r) if (c < m.rows[r].size() && (mask >> r & 1)) { t.push_back(m.tok(r, c)); int v; if (!conv(m.tok(r, c), v)) ok = false; if (ok) { want += v; ++n; } }
            RowMask p = {mask};
            MC_EQM(g.accumulate_column(c, rr, p, sum), ok ? n : 0, "accumulate_column with a predicate"); if (ok) MC_EQM(sum, want, "column sum with a predicate");
            if (whole) { sum = 7; MC_EQM(g.accumulate_column(c, p, sum), ok ? n : 0, "accumulate_column, all rows, with a predicate"); if (ok) MC_EQM(sum, want, "column sum"); }
            if (mask == ~0u)
            {
               sum = 7; MC_EQM(g.accumulate_column(c, rr, sum), ok ? n : 0, "accumulate_column"); if (ok) MC_EQM(sum, want, "column sum");
               if (whole) { sum = 7; MC_EQM(g.accumulate_column(c, sum), ok ? n : 0, "accumulate_column of all rows"); if (ok) MC_EQM(sum, want, "column sum"); }
            }
            for (auto& d : delims)
            {
               const S w2 = valid && c < C ? "pre" + joined(t, d) : S("pre"); S o = "pre";
               MC_EQM(g.join_column(c, rr, p, d, o), valid && c < C, "join_column with a predicate"); MC_EQM(o, w2, "column joined with a predicate");
               if (whole) { o = "pre"; MC_EQM(g.join_column(c, p, d, o), valid && c < C, "join_column of all rows with a predicate"); MC_EQM(o, w2, "column joined"); }
               if (mask == ~0u) { o = "pre"; MC_EQM(g.join_column(c, rr, d, o), valid && c < C, "join_column"); MC_EQM(o, w2, "joined column"); if (whole) { o = "pre"; MC_EQM(g.join_column(c, d, o), valid && c < C, "join_column of all rows"); MC_EQM(o, w2, "joined column"); } }
            }
         }
      }
   }
}
static void both(const S& text)
{
   MC_CASE(o << "columns of " << text);
   Opt op(",", "\n", 0); MGrid m = model_grid(text, op); mc::Buf<unsigned char> b(text); G g(b.begin(), text.size(), op.real());
   extraction(g, m); sums_and_joins(g, m); mc::outcome(m.hash());
}
MC_SECTION(short_texts_3) { mc::strings("1,\n", 0, mc::tier<size_t>(6, 8), both); }
MC_SECTION(short_texts_4) { mc::strings("1x,\n", 1, mc::tier<size_t>(4, 6), both); }
MC_SECTION(larger)
{
   for (size_t rows = 1; rows <= mc::tier<size_t>(8, 20); ++rows) for (size_t cols = 1; cols <= 6; ++cols) for (int k = 0; k < 4; ++k)
   {
      S t; for (size_t r = 0; r < rows; ++r) { size_t n = k == 0 ? cols : 1 + (r * 5 + k) % cols; for (size_t c = 0; c < n; ++c) { if (c) t += ','; t += k == 3 && (r + c) % 5 == 2 ? S() : strtk::type_to_string((int)(r * 11 + c * 3) - 9); } t += '\n'; }
      both(t);
   }
}

struct Part { std::vector<G::row_range_t>* out; size_t stop; const G* grid; bool operator()(const G& g, const G::row_range_t& r) { if (&g != grid) mc::fail("wrong grid"); out->push_back(r); return out->size() != stop; } };
struct Trans { const std::vector<bool>* t; std::vector<size_t>* seen; bool operator()(const Row& r) { seen->push_back(r.index()); return (*t)[r.index()]; } };
MC_SECTION(partitions)
{
   const size_t N = mc::tier<size_t>(10, 13);
   for (size_t R = 0; R <= N; ++R)
   {
      S text; for (size_t i = 0; i < R; ++i) text += "r\n"; G g(text, text.size(), Opt(",", "\n", 0).real());
      for (unsigned mask = 0; mask < (1u << R); ++mask)
      {
         std::vector<bool> t; for (size_t i = 0; i < R; ++i) t.push_back(mask >> i & 1);
         for (size_t a = 0; a <= R; ++a) for (size_t b = a; b <= R + (R < 4 ? 1 : 0); ++b)
         {
            if (R > 6 && !((a == 0 && b == R) || (a == 1 && b == R) || (a == 0 && b + 1 == R))) continue;
            const bool valid = b <= R;
            std::vector<std::pair<unsigned,unsigned> > full; if (valid) { size_t s = a; for (size_t i = a; i < b; ++i) if (i != a && t[i]) { full.push_back({(unsigned)s, (unsigned)i}); s = i; } if (s != b) full.push_back({(unsigned)s, (unsigned)b}); }
            for (size_t stop = 1; stop <= full.size() + 1; ++stop)
            {
               if (stop > 3 && stop < full.size()) continue;
               MC_CASE(o << "partition of " << R << " rows [" << a << "," << b << ") starts " << mask << " stop at " << stop);
               std::vector<std::pair<unsigned,unsigned> > want(full.begin(), full.begin() + std::min(stop, full.size()));
               std::vector<G::row_range_t> got; std::vector<size_t> seen; Part p = {&got, stop, &g}; Trans tr = {&t, &seen};
               MC_EQM(g.sequential_partition(G::row_range_t((unsigned)a, (unsigned)b), tr, p), valid && stop > full.size(), "sequential_partition"); MC_EQM(got, want, "groups");
               if (a == 0 && b == R) { got.clear(); MC_EQM(g.sequential_partition(tr, p), stop > full.size(), "sequential_partition of all rows"); MC_EQM(got, want, "groups"); }
               mc::outcome(mc::Hash()(mask)(a)(b)(stop));
            }
         }
      }
   }
}
struct EveryThird { bool operator()(const Row& r) const { return r.index() % 3 == 0; } };
MC_SECTION(huge)
{
   for (size_t n : mc::scales(200, 70000))
   {
      for (int shape = 0; shape < 4; ++shape)
      {
         MC_CASE(o << (shape == 0 ? "numeric grid of rows: " : shape == 1 ? "numeric grid of columns: " : shape == 2 ? "ragged grid of rows: " : "tokens of ") << n);
         const Opt op(",", "\n", 0); const S t = shape == 0 ? big_text(n, 3, 2) : shape == 1 ? big_text(2, n, 2) : shape == 2 ? big_text(n, 5, 1) : "1," + S(n, 'q') + ",2\n3,4\n" + S(n, 'r') + ",5,6\n"; const MGrid m = model_grid(t, op); mc::Buf<unsigned char> b(t); G g(b.begin(), t.size(), op.real());
         const size_t R = m.rows.size(), C = m.maxc();
         std::vector<size_t> widths(C, 0); for (auto& r : m.rows) for (size_t c = 0; c < r.size(); ++c) widths[c] = std::max(widths[c], r[c].second - r[c].first);
         std::vector<size_t> gw; if (R * C < 500000) { g.get_column_widths(gw); MC_TRUE(gw == widths); }
         for (size_t c : { (size_t)0, C / 2, C - 1 })
         {
            MC_EQ(g.column_width(c), widths[c]);
            for (size_t a : { (size_t)0, R / 3 }) for (size_t e : { R - R / 4, R })
            {
               const G::row_range_t rr((unsigned)a, (unsigned)e); std::vector<std::vector<S> > w; column<S>(m, a, e, { c }, false, w); std::vector<std::vector<int> > wi, wk; const bool num = column<int>(m, a, e, { c }, false, wi); column<int>(m, a, e, { c }, true, wk);
               std::vector<S> o1; MC_TRUE(g.extract_column(rr, c, strtk::back_inserter_with_valuetype(o1))); MC_TRUE(o1 == w[0]); std::vector<int> o2; MC_TRUE(g.extract_column_checked(rr, c, strtk::back_inserter_with_valuetype(o2))); MC_TRUE(o2 == wk[0]);
               if (C < 10) { const size_t d = (c + 1) % C; std::vector<std::vector<S> > w2; column<S>(m, a, e, { c, d }, false, w2); std::vector<S> x, y; MC_TRUE(g.extract_column(rr, c, d, strtk::back_inserter_with_valuetype(x), strtk::back_inserter_with_valuetype(y))); MC_TRUE(x == w2[0] && y == w2[1]); }
               if (C >= 3 && C < 10)
               {
                  const size_t x[] = { c, (c + 1) % C, (c + 2) % C, (c + 1) % C, c }; std::vector<std::vector<S> > w3, w4, w5, o; column<S>(m, a, e, { x[0], x[1], x[2] }, false, w3); column<S>(m, a, e, { x[0], x[1], x[2], x[3] }, false, w4); column<S>(m, a, e, { x[0], x[1], x[2], x[3], x[4] }, false, w5);
                  #define B(I) strtk::back_inserter_with_valuetype(o[I])
                  o.assign(3, std::vector<S>()); MC_TRUE(g.extract_column(rr, x[0], x[1], x[2], B(0), B(1), B(2))); MC_TRUE(o == w3);
                  o.assign(4, std::vector<S>()); MC_TRUE(g.extract_column(rr, x[0], x[1], x[2], x[3], B(0), B(1), B(2), B(3))); MC_TRUE(o == w4);
                  o.assign(5, std::vector<S>()); MC_TRUE(g.extract_column(rr, x[0], x[1], x[2], x[3], x[4], B(0), B(1), B(2), B(3), B(4))); MC_TRUE(o == w5);
                  #undef B
               }
               int sum = 5, want = 5; if (num) for (int v : wi[0]) want += v; const size_t got = g.accumulate_column(c, rr, sum); MC_EQ(got, num ? wi[0].size() : 0); if (num) MC_EQ(sum, want);
               EveryThird p; sum = want = 5; size_t cnt = 0; bool ok = true; std::vector<S> third; for (size_t r = a; r < e; ++r) if (r % 3 == 0 && c < m.rows[r].size()) { int v; third.push_back(m.tok(r, c)); if (!conv(m.tok(r, c), v)) ok = false; else { want += v; ++cnt; } }
               MC_EQ(g.accumulate_column(c, rr, p, sum), ok ? cnt : 0); if (ok) MC_EQ(sum, want);
               S j = "pre"; MC_TRUE(g.join_column(c, rr, "|", j)); MC_TRUE(j == "pre" + joined(w[0], "|")); j = "pre"; MC_TRUE(g.join_column(c, rr, p, "--", j)); MC_TRUE(j == "pre" + joined(third, "--"));
            }
         }
         for (size_t r : { (size_t)0, R - 1 })
         {
            int sum = 100, want = 100; bool ok = true; std::vector<S> x; for (auto& q : m.rows[r]) { int v; x.push_back(m.tok(q)); if (!conv(m.tok(q), v)) ok = false; else want += v; }
            MC_EQ(g.accumulate_row(r, sum), ok ? x.size() : 0); if (ok) MC_EQ(sum, want); S o1; MC_TRUE(g.join_row(r, "|", o1)); MC_TRUE(o1 == joined(x, "|"));
         }
         for (size_t step : { (size_t)1, (size_t)255, (size_t)256, (size_t)257, R / 2 + 1, R })
         {
            std::vector<bool> st(R); for (size_t i = 0; i < R; i += step) st[i] = true; std::vector<std::pair<unsigned,unsigned> > want; for (size_t i = 0; i < R; i += step) want.push_back({ (unsigned)i, (unsigned)std::min(R, i + step) });
            std::vector<G::row_range_t> got; std::vector<size_t> seen; Part p = { &got, (size_t)-1, &g }; Trans tr = { &st, &seen }; MC_TRUE(g.sequential_partition(tr, p)); MC_TRUE(got == want);
         }
         mc::outcome(m.hash());
      }
   }
}
MC_MAIN
