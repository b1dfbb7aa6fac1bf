// G02: every history of structural edits of a token_grid leaves exactly the rows and tokens it should.
#include "grid_model.hpp"

struct RowPred { int kind; mutable std::vector<S>* seen; bool operator()(const Row& r) const { if (seen) seen->push_back(r.as_string()); return eval(r.size(), r.index(), S(r.token(0).first, r.token(0).second)); }
   bool eval(size_t n, size_t i, const S& first) const { switch (kind) { case 0: return false; case 1: return true; case 2: return i % 2 == 0; case 3: return n == 1; case 4: return n > 2; default: return first == "a"; } } };
struct TokPred { int kind; bool operator()(const G::range_t& r) const { return eval(S(r.first, r.second)); }
   bool eval(const S& s) const { switch (kind) { case 0: return false; case 1: return true; case 2: return s.empty(); case 3: return s == "a"; default: return s == "b" || s.size() > 1; } } };

struct Op { int type; unsigned a, b; int k, k2; };
static mc::Out& operator<<(mc::Out& o, const Op& p) { static const char* n[] = {"remove_row", "remove_row_if", "remove_token_if", "remove_empty_tokens", "enforce_column_count", "enforce_min_max", "remove_row_if(all)", "remove_empty_tokens(range)", "enforce(range)", "enforce_min_max(range)"};
   return o << n[p.type] << "(" << p.a << "," << p.b << "," << p.k << "," << p.k2 << ")"; }

static void apply(G& g, MGrid& m, const Op& p)
{
   const size_t R = m.rows.size(); const G::row_range_t rr(p.a, p.b); const bool valid = p.a <= p.b && p.b <= R;
   auto drop_rows = [&](size_t a, size_t b, std::function<bool(size_t)> f) { std::vector<Toks> keep; for (size_t i = 0; i < R; ++i) if (!(i >= a && i < b && f(i))) keep.push_back(m.rows[i]); m.rows = keep; };
   auto drop_toks = [&](size_t a, size_t b, const TokPred& f) { size_t c = 0; std::vector<Toks> keep; for (size_t i = 0; i < R; ++i) { Toks t; for (auto& x : m.rows[i]) if (i >= a && i < b && f.eval(m.tok(x))) ++c; else t.push_back(x); if (!t.empty()) keep.push_back(t); } m.rows = keep; return c; };
   mc::transition();
   switch (p.type)
   {
      case 0: g.remove_row(p.a); if (p.a < R) m.rows.erase(m.rows.begin() + p.a); break;
      case 1: case 6:
      {
         std::vector<S> seen, want; RowPred f = {p.k, &seen};
         const size_t a = p.type == 6 ? 0 : p.a, b = p.type == 6 ? R : p.b; const bool ok = p.type == 6 || valid;
         if (ok) for (size_t i = a; i < b; ++i) { S all; for (auto& t : m.rows[i]) all += m.tok(t); want.push_back(all); }
         MC_EQM(p.type == 6 ? g.remove_row_if(f) : g.remove_row_if(rr, f), ok, "remove_row_if");
         MC_EQM(seen, want, "rows shown to the predicate");
         if (ok) drop_rows(a, b, [&](size_t i) { return f.eval(m.rows[i].size(), i, m.tok(i, 0)); });
         break;
      }
      case 2: { TokPred f = {p.k}; size_t w = valid ? drop_toks(p.a, p.b, f) : 0; MC_EQM(g.remove_token_if(rr, f), w, "remove_token_if"); break; }
      case 3: { TokPred f = {2}; MC_EQM(g.remove_empty_tokens(), drop_toks(0, R, f), "remove_empty_tokens"); break; }
      case 7: { TokPred f = {2}; size_t w = valid ? drop_toks(p.a, p.b, f) : 0; MC_EQM(g.remove_empty_tokens(rr), w, "remove_empty_tokens"); break; }
      case 4: g.enforce_column_count((size_t)p.k); drop_rows(0, R, [&](size_t i) { return m.rows[i].size() != (size_t)p.k; }); break;
      case 5: g.enforce_min_max_column_count((size_t)p.k, (size_t)p.k2); drop_rows(0, R, [&](size_t i) { return m.rows[i].size() < (size_t)p.k || m.rows[i].size() > (size_t)p.k2; }); break;
      case 8: g.enforce_column_count(rr, (size_t)p.k); if (valid) drop_rows(p.a, p.b, [&](size_t i) { return m.rows[i].size() != (size_t)p.k; }); break;
      case 9: g.enforce_min_max_column_count(rr, (size_t)p.k, (size_t)p.k2); if (valid) drop_rows(p.a, p.b, [&](size_t i) { return m.rows[i].size() < (size_t)p.k || m.rows[i].size() > (size_t)p.k2; }); break;
   }
}
static std::vector<Op> all_ops(size_t R, bool full)
{
   std::vector<Op> v;
   for (unsigned i = 0; i <= R; ++i) v.push_back(Op{0, i, 0, 0, 0});
   for (unsigned a = 0; a <= R; ++a) for (unsigned b = a; b <= R + (full ? 1 : 0); ++b)
   {
      if (!full && !((a == 0 && b == R) || (a == 1 && b + 1 == R) || b == a + 1)) continue;
      for (int k = full ? 0 : 1; k < 6; ++k) v.push_back(Op{1, a, b, k, 0});
      for (int k = full ? 0 : 1; k < 5; ++k) v.push_back(Op{2, a, b, k, 0});
      v.push_back(Op{7, a, b, 0, 0}); v.push_back(Op{8, a, b, 2, 0}); v.push_back(Op{9, a, b, 2, 3});
      if (full) { v.push_back(Op{8, a, b, 1, 0}); v.push_back(Op{9, a, b, 0, 1}); v.push_back(Op{9, b, a, 2, 2}); v.push_back(Op{9, a, b, 3, 1}); v.push_back(Op{1, b, a, 1, 0}); v.push_back(Op{2, b, a, 1, 0}); }
   }
   for (int k = 0; k <= 4; ++k) v.push_back(Op{4, 0, 0, k, 0});
   v.push_back(Op{5, 0, 0, 1, 2}); v.push_back(Op{5, 0, 0, 2, 9}); v.push_back(Op{5, 0, 0, 2, 1}); if (full) for (int lo = 0; lo <= 4; ++lo) for (int hi = 0; hi <= 4; ++hi) v.push_back(Op{5, 0, 0, lo, hi}); v.push_back(Op{3, 0, 0, 0, 0}); v.push_back(Op{6, 0, 0, 2, 0}); v.push_back(Op{6, 0, 0, 5, 0});
   return v;
}
static void explore(const S& text, const Opt& op, size_t depth, bool full)
{
   mc::Buf<unsigned char> b(text);
   std::vector<Op> hist;
   std::function<void(size_t)> go = [&](size_t left) {
      MGrid m = model_grid(text, op); G g(b.begin(), text.size(), op.real());
      {
         MC_CASE(o << "grid " << text << " mode " << op.mode << " history " << hist);
         for (auto& p : hist) apply(g, m, p);
         view(g, m, b.begin());
         mc::trace(); mc::state(m.hash()); mc::outcome(m.hash());
      }
      if (!left) return;
      for (auto& p : all_ops(m.rows.size(), full)) { hist.push_back(p); go(left - 1); hist.pop_back(); }
   };
   go(depth);
}
static const char* GRIDS[] = {"a,b,c\na\n,a\nbb,,a,b\na,a\n,,\nb", "a\nb\na\n", "a,b\na,b\na,b\na,b", ",,\n,\na", "x,a,a,x\na\n\nq,,q,,q"};
MC_SECTION(one_edit_all_texts)
{
   mc::strings("ab,\n", 1, mc::tier<size_t>(4, 6), [&](const S& s) { explore(s, Opt(",", "\n", 0), 1, true); });
   mc::strings("a,\n", 5, mc::tier<size_t>(6, 8), [&](const S& s) { explore(s, Opt(",", "\n", 0), 1, true); });
}
MC_SECTION(one_edit_compress) { mc::strings("ab,\n", 1, mc::tier<size_t>(4, 6), [&](const S& s) { explore(s, Opt(",", "\n", 1), 1, true); }); }
MC_SECTION(two_edits) { mc::strings("a,\n", 1, mc::tier<size_t>(4, 5), [&](const S& s) { explore(s, Opt(",", "\n", 0), 2, mc::tier(false, true)); }); }
MC_SECTION(histories_0) { explore(GRIDS[0], Opt(",", "\n", 0), 2, mc::tier(false, true)); }
MC_SECTION(histories_1) { explore(GRIDS[1], Opt(",", "\n", 0), mc::tier<size_t>(3, 4), false); }
MC_SECTION(histories_2) { explore(GRIDS[2], Opt(",", "\n", 0), mc::tier<size_t>(2, 3), false); }
MC_SECTION(histories_3) { explore(GRIDS[3], Opt(",", "\n", 0), mc::tier<size_t>(3, 4), false); }
MC_SECTION(histories_4) { explore(GRIDS[4], Opt(",", "\n", 0), mc::tier<size_t>(3, 4), false); explore(GRIDS[4], Opt(",", "\n", 1), mc::tier<size_t>(1, 2), true); }
MC_SECTION(big_edits)
{
   for (size_t rows : {10u, 31u, 33u}) for (size_t cols : {3u, 9u})
   {
      S t; for (size_t r = 0; r < rows; ++r) { for (size_t c = 0; c < 1 + (r * 5) % cols; ++c) { if (c) t += ','; t += (r + c) % 3 == 0 ? "" : (r + c) % 3 == 1 ? "a" : "bb"; } t += '\n'; }
      mc::Buf<unsigned char> b(t); Opt op(",", "\n", 0); const size_t R = model_grid(t, op).rows.size();
      for (unsigned a = 0; a <= R; a += 1) for (unsigned e = a; e <= R; e += 1)
      {
         if (R > 12 && (a % 5 > 1 && e % 7 > 1)) continue;
         for (int type : {0, 1, 2, 7, 8, 9}) for (int k = 1; k < 5; ++k)
         {
            if (type != 1 && type != 2 && k > 1) continue;
            Op p{type, a, e, type >= 8 ? 2 : k, 3}; MGrid m = model_grid(t, op); G g(b.begin(), t.size(), op.real());
            MC_CASE(o << "grid of " << R << " rows, " << p);
            apply(g, m, p); view(g, m, b.begin()); mc::outcome(m.hash());
         }
      }
   }
}
static void huge_edits(int shape)
{
   for (size_t n : { 255u, 256u, 257u, 1024u, 4097u, 65535u, 65536u, 65537u })
   {
      if (n == 65535u && mc::tier(true, false)) continue;
      {
         const Opt op(",", "\n", 0); const S t = shape ? big_text(3, n, 0) : big_text(n, 5, 1); const MGrid m0 = model_grid(t, op); mc::Buf<unsigned char> b(t); const unsigned R = (unsigned)m0.rows.size();
         std::vector<Op> ops; for (unsigned i : { 0u, R / 2, R - 2, R - 1, R }) ops.push_back(Op{0, i, 0, 0, 0});
         for (int k = 0; k < 6; ++k) { ops.push_back(Op{6, 0, 0, k, 0}); ops.push_back(Op{1, R / 3, R - 1, k, 0}); }
         for (int k = 0; k < 5; ++k) { ops.push_back(Op{2, 0, R, k, 0}); ops.push_back(Op{2, R / 3, R - R / 4, k, 0}); ops.push_back(Op{4, 0, 0, k, 0}); }
         ops.push_back(Op{3, 0, 0, 0, 0}); ops.push_back(Op{7, 1, R - 1, 0, 0}); ops.push_back(Op{5, 0, 0, 2, 3}); ops.push_back(Op{8, R / 3, R, 2, 0}); ops.push_back(Op{9, R / 5, R - 1, 2, 4}); ops.push_back(Op{8, 0, R, (int)n, 0}); ops.push_back(Op{5, 0, 0, (int)n, (int)n}); ops.push_back(Op{5, 0, 0, 1, (int)n - 1});
         for (size_t i = 0; i < ops.size(); i += n > 60000 ? mc::tier(n % 2 ? 3 : 2, 1) : 1)
         {
            MC_CASE(o << (shape ? "3 rows of " : "rows: ") << n << ", " << ops[i] << " and then " << ops[(i * 5 + 3) % ops.size()]);
            MGrid m = m0; G g(b.begin(), t.size(), op.real()); apply(g, m, ops[i]); if (n < 2000) view_big(g, m, b.begin());
            Op second = ops[(i * 5 + 3) % ops.size()]; if (n > 2000 && i % 2) second = Op{3, 0, 0, 0, 0};
            apply(g, m, second); view_big(g, m, b.begin()); mc::outcome(m.hash());
         }
      }
   }
}
MC_SECTION(huge_rows) { huge_edits(0); }
MC_SECTION(huge_columns) { huge_edits(1); }
MC_MAIN
