// G01: what a token_grid shows of a text, and typed access to its rows.
#include "grid_model.hpp"
#include "parse_arity.hpp"

static void show(const S& text, const Opt& op, bool all_ctors = false)
{
   MC_CASE(o << "grid of " << text << " columns " << op.cd << " mode " << op.mode << (op.dq ? " quoted" : "") << (op.trim ? " trimmed" : ""));
   MGrid m = model_grid(text, op);
   mc::Buf<unsigned char> b(text);
   { G g((const unsigned char*)b.begin(), text.size(), op.real()); MC_TRUE(!!g == true); view(g, m, b.begin()); }
   if (all_ctors)
   {
      mc::Buf<char> c(text); { G g((const char*)c.begin(), text.size(), op.real()); view(g, m, (const unsigned char*)c.begin()); }
      { G g(text, text.size(), op.real()); view(g, m, (const unsigned char*)text.data()); }
      { G g; MC_TRUE(!g); MC_EQ(g.row_count(), (size_t)0); MC_EQ(g.load(b.begin(), text.size(), op.real()), true); MC_TRUE(!!g == true); view(g, m, b.begin());
        MC_EQ(g.load(b.begin(), 0, op.real()), true); MC_EQ(g.row_count(), (size_t)0); MC_EQ(g.load(b.begin(), text.size(), op.real()), true); view(g, m, b.begin());
        g.clear(); MC_TRUE(!g); MC_EQ(g.row_count(), (size_t)0); MC_EQ(g.max_column_count(), (size_t)0); }
      if (op.mode == 1 && !op.dq)
      {
         { G g((const unsigned char*)b.begin(), text.size(), op.cd, op.rd); view(g, m, b.begin()); }
         { G g((const char*)c.begin(), text.size(), op.cd, op.rd); view(g, m, (const unsigned char*)c.begin()); }
         { G g(text, text.size(), op.cd, op.rd); view(g, m, (const unsigned char*)text.data()); }
      }
   }
   mc::outcome(m.hash());
}
MC_SECTION(all_texts)
{
   mc::strings("a,\n", 0, mc::tier<size_t>(8, 10), [&](const S& s) { for (unsigned mode = 0; mode < 8; ++mode) { if (s.size() > 6 && mode > 1 && !mc::thorough()) break; show(s, Opt(",", "\n", mode), s.size() <= 5); } });
}
MC_SECTION(two_delimiters) { mc::strings("a,;\n\r", 0, mc::tier<size_t>(5, 6), [&](const S& s) { for (unsigned mode = 0; mode < 2; ++mode) show(s, Opt(",;", "\n\r", mode), false); }); }
MC_SECTION(quoted)
{
   mc::strings("a,\"\n", 0, mc::tier<size_t>(6, 8), [&](const S& s) { for (unsigned k = 0; k < 4; ++k) show(s, Opt(",", "\n", k & 1, true, k & 2), s.size() <= 4); });
   mc::strings(S(",\"x"), 7, mc::tier<size_t>(8, 10), [&](const S& s) { show(s, Opt(",", "\n", 1, true, true)); show(s, Opt(",", "\n", 0, true, true)); });
}
MC_SECTION(all_bytes)
{
   for (int d = 0; d < 256; ++d)                  // column delimiter
      for (int x = 0; x < 256; ++x)
      {
         if (d == '\n' || x == '\n') continue;
         show(S() + (char)x + (char)d + (char)x + (char)x + (char)d + '\n' + (char)d + (char)x, Opt(S(1, (char)d), "\n", 0));
         show(S() + (char)x + (char)d + (char)d + (char)x + '\n' + (char)x, Opt(S(1, (char)d), "\n", 1));
      }
   for (int d = 0; d < 256; ++d) { if (d == ',') continue; S t = "p,q"; t += (char)d; t += (char)d; t += "r,,s"; t += (char)d; show(t, Opt(",", S(1, (char)d), 0), true); }
   S many; for (int d = 0; d < 256; ++d) many += (char)d; show(many, Opt(",|;\t ", "\n\r", 0)); show(many, Opt(",|;\t ", "\n\r", 1));
}
MC_SECTION(big_grids)
{
   for (size_t rows = 0; rows <= mc::tier<size_t>(40, 120); ++rows)
      for (size_t cols = 1; cols <= mc::tier<size_t>(14, 40); ++cols)
         for (int ragged = 0; ragged < 3; ++ragged)
         {
            S t; for (size_t r = 0; r < rows; ++r) { size_t n = ragged == 0 ? cols : ragged == 1 ? 1 + (r % cols) : 1 + ((r * 7 + 3) % cols); for (size_t c = 0; c < n; ++c) { if (c) t += ','; t += S((r + c) % 4, (char)('a' + c % 26)); } t += (r + 1 == rows && ragged == 1) ? "" : "\n"; }
            show(t, Opt(",", "\n", rows % 2), rows % 8 == 0 && cols % 4 == 0);
         }
   for (size_t n : {255u, 256u, 257u, 600u, 65535u, 65536u, 65537u, 70000u})
   { MC_CASE(o << "one row of " << n); S t; for (size_t i = 0; i < n; ++i) t += i ? ",x" : "x"; MGrid m = model_grid(t, Opt()); G g(t, t.size(), Opt().real()); MC_EQ(g.max_column_count(), n); MC_EQ(off((const unsigned char*)t.data(), g.token(0, n - 1)), m.rows[0][n - 1]);
     S u; for (size_t i = 0; i < n; ++i) u += "ab\n"; G h(u, u.size(), Opt().real()); MC_EQ(h.row_count(), n); MC_EQ(off((const unsigned char*)u.data(), h.token(n - 1, 0)), Tok(3 * n - 3, 3 * n - 1)); }
}
MC_SECTION(from_files)
{
   mc::Scratch sc; const S f = sc.file("grid.txt"), none = sc.dir + "/absent";
   std::vector<S> texts; mc::strings("a,\n", 0, 4, [&](const S& s) { texts.push_back(s); });
   for (size_t n : {1000u, 4095u, 4096u, 4097u, 70000u}) { S t; while (t.size() < n) t += "one,two,,three\n"; texts.push_back(t.substr(0, n)); }
   for (auto& t : texts) for (unsigned mode = 0; mode < 2; ++mode)
   {
      MC_CASE(o << "grid from a file holding " << t << " mode " << mode);
      mc::spill(f, t); MGrid m = model_grid(t, Opt(",", "\n", mode)); const bool ok = !t.empty();
      auto chk = [&](const G& g) { MC_EQM(!g, !ok, "state"); if (ok) { MC_EQ(g.source_file(), f); if (m.rows.size() < 50) view(g, m, 0); else { MC_EQ(g.row_count(), m.rows.size()); MC_EQ(g.row(m.rows.size() - 1).as_string(), [&]() { S r; for (auto& x : m.rows.back()) r += m.tok(x); return r; }()); } } else MC_EQ(g.row_count(), (size_t)0); };
      { G g(f, Opt(",", "\n", mode).real()); chk(g); }
      { G::options o = G::default_options(), r = Opt(",", "\n", mode).real(); o.set_column_delimiters(r.column_delimiters).set_row_delimiters(r.row_delimiters).set_column_split_option(r.column_split_option).set_row_split_option(r.row_split_option); G g(f, o); chk(g); }
      if (mode == 1) { G g(f, ",", "\n"); chk(g); }
      G g; MC_EQ(g.load(f, Opt(",", "\n", mode).real()), ok); chk(g);
      MC_EQ(g.load(none, Opt().real()), false); MC_TRUE(!g); MC_EQ(g.row_count(), (size_t)0); MC_EQ(g.for_each_row(CountRow()), (size_t)0);
      MC_EQ(g.load(f, Opt(",", "\n", mode).real()), ok); chk(g);
      mc::Buf<unsigned char> b(t); MC_EQ(g.load(b.begin(), t.size(), Opt(",", "\n", mode).real()), true); if (m.rows.size() < 50) view(g, m, b.begin()); else MC_EQ(g.row_count(), m.rows.size());
      g.clear(); MC_EQ(g.row_count(), (size_t)0);
      mc::outcome(m.hash());
   }
}

// ---------------------------------------------------------------- histories of loading
// Every sequence of loads (of files, of the user's buffers, failing ones), clears and edits on one grid: after each step it shows
// the text of the last load, the user's buffers stay the user's, and nothing is left when the grid is gone.
struct Hist
{
   mc::Scratch sc; std::vector<S> files, buffers; S none; std::vector<Opt> opts;
   std::vector<std::vector<MGrid> > fm, bm;
   Hist()
   {
      files = {"a,b\nc", "1;2;3\n4;5,5\n\n6"}; buffers = {"x,y\nz,w,v\n", "p;q\n", "\n,,"};
      none = sc.dir + "/absent"; mc::spill(sc.file("0"), files[0]); mc::spill(sc.file("1"), files[1]); mc::spill(sc.file("empty"), "");
      opts.push_back(Opt(",", "\n", 1)); opts.push_back(Opt(";", "\n", 0));
      for (auto& f : files) { fm.push_back(std::vector<MGrid>()); for (auto& o : opts) fm.back().push_back(model_grid(f, o)); }
      for (auto& f : buffers) { bm.push_back(std::vector<MGrid>()); for (auto& o : opts) bm.back().push_back(model_grid(f, o)); }
   }
   void run(const std::vector<size_t>& ops, int start)
   {
      const G::options ro[2] = {opts[0].real(), opts[1].real()};
      MGrid m; bool ok = false; S source; const unsigned char* base = 0; const MGrid empty = m;
      const size_t before = mc::live_bytes(); size_t after = 0, clears = 0;
      {
         mc::Buf<unsigned char> u0(buffers[0]), u1(buffers[1]), u2(buffers[2]); const unsigned char* u[3] = {u0.begin(), u1.begin(), u2.begin()};
         std::unique_ptr<G> g;
         if (start == 0) g.reset(new G);
         else if (start == 1) { g.reset(new G(sc.file("0"), ro[0])); m = fm[0][0]; ok = true; source = sc.file("0"); }
         else if (start == 2) { g.reset(new G(none, ro[0])); source = none; }
         else { g.reset(new G(u[0], buffers[0].size(), ro[0])); m = bm[0][0]; ok = true; base = u[0]; }
         auto see = [&](bool named) { MC_EQM(!*g, !ok, "state"); if (named) MC_EQM(g->source_file(), source, "source_file"); view(*g, ok ? m : empty, base); };
         see(ok); std::vector<size_t> done;
         for (size_t op : ops)
         {
            mc::transition(); done.push_back(op);
            switch (op)
            {
               case 0: case 1: { const size_t f = op; MC_EQ(g->load(sc.file(f ? "1" : "0"), ro[f]), true); m = fm[f][f]; ok = true; source = sc.file(f ? "1" : "0"); base = 0; break; }
               case 2: MC_EQ(g->load(none, ro[0]), false); ok = false; source = ""; m = empty; base = 0; break;
               case 3: MC_EQ(g->load(sc.file("empty"), ro[1]), false); ok = false; source = ""; m = empty; base = 0; break;
               case 4: case 5: case 6: { const size_t f = op - 4; MC_EQ(g->load((unsigned char*)u[f], buffers[f].size(), ro[f & 1]), true); m = bm[f][f & 1]; ok = true; source = ""; base = u[f]; break; }
               case 7: MC_EQ(g->load((unsigned char*)u[0], 0, ro[0]), true); m = empty; m.text = ""; ok = true; source = ""; base = u[0]; break;
               case 8: g->clear(); m = empty; ok = false; source = ""; base = 0; break;
               case 9: { unsigned char* own = new unsigned char[buffers[1].size()]; std::copy(buffers[1].begin(), buffers[1].end(), own); MC_EQ(g->load(own, buffers[1].size(), ro[0]), true); m = bm[1][0]; ok = true; source = ""; base = own; see(true); g->clear(true); m = empty; ok = false; base = 0; break; }
               case 10: g->remove_row(0); if (!m.rows.empty()) m.rows.erase(m.rows.begin()); break;
               case 11: if (m.rows.size() > 1) { MC_EQ(g->remove_token_if(G::row_range_t(1, 2), [&](const G::range_t&) { return true; }), m.rows[1].size()); m.rows.erase(m.rows.begin() + 1); } break;
            }
            see(op != 10 && op != 11);
         }
         g.reset();
         for (size_t k = 0; k < 3; ++k) MC_EQM(S(u[k], u[k] + buffers[k].size()), buffers[k], "the user's buffer");
         m = MGrid(); source = S();
      }
      { MGrid().text.swap(m.text); m.rows.clear(); m.rows.shrink_to_fit(); S().swap(source); }
      after = mc::live_bytes(); (void)clears;
      MC_EQM(after, before, "memory left");
   }
};
MC_SECTION(histories)
{
   Hist h;
   { MC_CASE(o << "a directory"); G g(h.sc.dir, h.opts[0].real()); MC_TRUE(!g); MC_EQ(g.row_count(), (size_t)0); MC_EQ(g.load(h.sc.dir, h.opts[0].real()), false); MC_TRUE(!g); MC_EQ(g.load(h.sc.file("0"), h.opts[0].real()), true); view(g, h.fm[0][0], 0); }
   for (size_t d = 0; d <= mc::tier<size_t>(3, 4); ++d) mc::tuples(12, d, [&](const std::vector<size_t>& ops) { for (int start = 0; start < 4; ++start) {
      MC_CASE(o << "start " << start << ", then "; for (size_t i : ops) o << i << " ");
      h.run(ops, start); mc::trace(); mc::Hash s; s(start); for (size_t i : ops) s((uint64_t)i); mc::state(s); mc::outcome(s);
   } });
}
// ---------------------------------------------------------------- typed rows
static const char* VOC[] = {"1", "-20", "x", "", "007", "2147483648"};
template <typename T, typename C> static void fill_case(const Row& row, const SV& t, bool checked_too)
{
   const size_t n = t.size();
   for (size_t a = 0; a <= n + 1; ++a) for (size_t b = 0; b <= n + 1; ++b)
   {
      C got, want; bool ok = a <= b && b <= n;
      if (ok) for (size_t i = a; i < b; ++i) { T v; if (!conv(t[i], v)) { ok = false; break; } put(want, v); }
      MC_EQM(row.parse(G::col_range_t((unsigned)a, (unsigned)b), got), ok, "parse of a column range"); MC_EQM(drain(got), drain(want), "values of a column range");
   }
   { C got, want; bool ok = true; for (auto& s : t) { T v; if (!conv(s, v)) { ok = false; break; } put(want, v); } MC_EQM(row.parse(got), ok, "parse of all columns"); MC_EQM(drain(got), drain(want), "values of all columns"); }
   if (checked_too) { C got, want; for (auto& s : t) { T v; if (conv(s, v)) put(want, v); } row.parse_checked(got); MC_EQM(drain(got), drain(want), "parse_checked"); }
}
template <typename T, typename C> static void fill_n(const Row& row, const SV& t)
{
   for (size_t n = 0; n <= t.size() + 2; ++n)
   {
      C got, want; size_t k = 0; bool bad = false;
      for (auto& s : t) { if (k == n) break; T v; if (!conv(s, v)) { bad = true; break; } put(want, v); ++k; }
      MC_EQM(row.parse_n(n, got), bad ? 0 : k, "parse_n"); MC_EQM(drain(got), drain(want), "values of parse_n");
   }
}
template <typename T> static void scalars(const Row& row, const SV& t)
{
   for (size_t k = 1; k <= 10 && k <= t.size(); ++k)
   {
      T v[10], w[10]; for (int i = 0; i < 10; ++i) v[i] = w[i] = Sentinel<T>::get();
      bool ok = true; for (size_t i = 0; i < k && ok; ++i) { T x; if (conv(t[i], x)) w[i] = x; else ok = false; }
      bool r = false;
      switch (k) {
#define M(N) case N: r = row.parse(AR##N); break;
      M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10)
#undef M
      }
      MC_EQM(r, ok, "parse");
      for (size_t i = 0; i < 10; ++i) { T x; if (i < k && !conv(t[i], x)) break; MC_EQM(v[i], w[i], "parsed value"); }
      // the same with every rotation of explicit indexes
      for (size_t shift = 0; shift < t.size(); ++shift)
      {
         size_t c[10]; for (size_t i = 0; i < 10; ++i) { c[i] = (shift + i * (shift % 2 ? 1 : 2)) % t.size(); v[i] = w[i] = Sentinel<T>::get(); }
         ok = true; size_t upto = 10; for (size_t i = 0; i < k; ++i) { T x; if (conv(t[c[i]], x)) w[i] = x; else { ok = false; upto = i; break; } }
#define I1 c[0]
#define I2 I1,c[1]
#define I3 I2,c[2]
#define I4 I3,c[3]
#define I5 I4,c[4]
#define I6 I5,c[5]
#define I7 I6,c[6]
#define I8 I7,c[7]
#define I9 I8,c[8]
#define I10 I9,c[9]
         switch (k) {
#define M(N) case N: r = row.parse_with_index(I##N, AR##N); break;
         M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10)
#undef M
         }
         MC_EQM(r, ok, "parse_with_index"); for (size_t i = 0; i < upto; ++i) MC_EQM(v[i], w[i], "value parsed with index");
      }
   }
}
template <typename T> static void get_all(G& g, const Row& row, size_t r, const SV& t)
{
   for (size_t c = 0; c < t.size(); ++c)
   {
      T w; const bool ok = conv(t[c], w);
      for (int k = 0; k < 3; ++k)
      {
         bool thrown = false; T got = Sentinel<T>::get();
         try { got = k == 0 ? row.template get<T>(c) : k == 1 ? row.template operator[]<T>(c) : g.template get<T>(r, c); } catch (const std::invalid_argument&) { thrown = true; }
         MC_EQM(thrown, !ok, "conversion failure"); if (ok) MC_EQM(got, w, "value");
      }
   }
   // parse<T>(out) writes the leading convertible values and throws at the first other one
   std::vector<T> got, want; bool thrown = false, bad = false;
   for (auto& s : t) { T w; if (!conv(s, w)) { bad = true; break; } want.push_back(w); }
   try { row.template parse<T>(mc::append(got)); } catch (const std::invalid_argument&) { thrown = true; }
   MC_EQM(thrown, bad, "parse(out) failure"); MC_EQM(got, want, "parse(out)");
   got.clear(); want.clear(); for (auto& s : t) { T w; if (conv(s, w)) want.push_back(w); } row.template parse_checked<T>(mc::append(got)); MC_EQM(got, want, "parse_checked(out)");
}
static void typed(const SV& t)
{
   S text = "head,er\n"; for (size_t i = 0; i < t.size(); ++i) text += (i ? "," : "") + t[i]; text += "\ntail";
   MC_CASE(o << "typed row " << t);
   G g(text, text.size(), Opt(",", "\n", 0).real());
   Row row = g.row(1);
   MC_EQ(row.size(), t.size());
   get_all<int>(g, row, 1, t); get_all<S>(g, row, 1, t);
   scalars<int>(row, t); scalars<S>(row, t);
   fill_case<int, std::vector<int> >(row, t, true); fill_case<int, std::deque<int> >(row, t, true); fill_case<int, std::list<int> >(row, t, true);
   fill_case<int, std::set<int> >(row, t, true); fill_case<int, std::multiset<int> >(row, t, true); fill_case<int, std::set<int, std::greater<int> > >(row, t, true); fill_case<int, std::multiset<int, std::greater<int> > >(row, t, true);
   fill_case<int, std::queue<int> >(row, t, true); fill_case<int, std::stack<int> >(row, t, true); fill_case<int, std::priority_queue<int> >(row, t, true);
   fill_case<S, std::vector<S> >(row, t, true); fill_n<int, std::vector<int> >(row, t); fill_n<int, std::list<int> >(row, t); fill_n<S, std::deque<S> >(row, t);
   for (size_t a = 0; a <= t.size() + 1; ++a) for (size_t b = 0; b <= t.size() + 1; ++b)
   {
      std::vector<S> cols; CountTok f = {&cols}; const bool ok = a <= b && b <= t.size();
      MC_EQM(row.for_each_column(G::col_range_t((unsigned)a, (unsigned)b), f), ok ? b - a : 0, "for_each_column of a range");
      MC_EQM(cols, ok ? SV(t.begin() + a, t.begin() + b) : SV(), "columns of a range");
      MC_EQM(row.validate_column_range(G::col_range_t((unsigned)a, (unsigned)b)), ok, "validate_column_range");
      MC_TRUE(row.range((unsigned)a, (unsigned)b) == G::col_range_t((unsigned)a, (unsigned)b)); MC_TRUE(row.range((unsigned)a) == G::col_range_t((unsigned)a, (unsigned)t.size()));
   }
   mc::outcome(mc::Hash()(t));
}
MC_SECTION(typed_rows_short)
{
   const size_t V = sizeof(VOC) / sizeof(*VOC);
   for (size_t n = 1; n <= mc::tier<size_t>(4, 5); ++n)
      mc::tuples(V, n, [&](const std::vector<size_t>& x) { SV t; for (auto i : x) t.push_back(VOC[i]); if (t.size() == 1 && t[0].empty()) return; typed(t); });
}
MC_SECTION(typed_rows_long)
{
   for (size_t n = 5; n <= mc::tier<size_t>(13, 40); ++n)
      for (size_t bad = 0; bad <= n; ++bad) for (int kind = 2; kind < 4; ++kind)
      { SV t; for (size_t i = 0; i < n; ++i) t.push_back(i == bad ? S(VOC[kind]) : strtk::type_to_string((int)(i * 37) - 50)); typed(t); if (bad == n) break; }
}
template <typename T, typename C> static void wide_fill(const Row& row, const SV& t)
{
   const size_t n = t.size();
   for (size_t a : { (size_t)0, (size_t)1, n / 2, n - 1, n }) for (size_t b : { (size_t)0, n / 2, n - 1, n, n + 1 })
   {
      C got, want; bool ok = a <= b && b <= n; if (ok) for (size_t i = a; i < b; ++i) { T v; if (!conv(t[i], v)) { ok = false; break; } put(want, v); }
      MC_EQM(row.parse(G::col_range_t((unsigned)a, (unsigned)b), got), ok, "parse of a column range"); MC_TRUE(drain(got) == drain(want));
   }
   { C got, want; for (auto& s : t) { T v; if (conv(s, v)) put(want, v); } row.parse_checked(got); MC_TRUE(drain(got) == drain(want)); }
   { C got, want; bool ok = true; for (auto& s : t) { T v; if (!conv(s, v)) { ok = false; break; } put(want, v); } MC_EQM(row.parse(got), ok, "parse of all columns"); MC_TRUE(drain(got) == drain(want)); }
}
template <typename C> static void wide_n(const Row& row, const SV& t)
{
   for (size_t n : { (size_t)1, t.size() / 2, t.size() - 1, t.size(), t.size() + 1 })
   {
      C got, want; size_t k = 0; bool bad = false; for (auto& s : t) { if (k == n) break; int v; if (!conv(s, v)) { bad = true; break; } put(want, v); ++k; }
      MC_EQM(row.parse_n(n, got), bad ? 0 : k, "parse_n"); MC_TRUE(drain(got) == drain(want));
   }
}
MC_SECTION(typed_rows_wide)
{
   for (size_t n : mc::scales(14, 70000)) for (int shape = 0; shape < 4; ++shape)
   {
      if (shape > 1 && n > 5000) continue;
      const size_t bad = shape == 0 ? n : shape == 1 ? n - 1 : shape == 2 ? n / 2 : 0;
      SV t; for (size_t i = 0; i < n; ++i) t.push_back(i == bad ? S("x") : std::to_string((long)(i * 7919 % 4001) - 2000));
      S text = "head,er\n"; for (size_t i = 0; i < n; ++i) text += (i ? "," : "") + t[i]; text += "\ntail";
      MC_CASE(o << "a row of " << n << " numbers, all but number " << bad);
      G g(text, text.size(), Opt(",", "\n", 0).real()); const Row row = g.row(1); MC_EQ(row.size(), n);
      wide_fill<int, std::vector<int> >(row, t); wide_fill<int, std::deque<int> >(row, t); wide_fill<int, std::list<int> >(row, t); wide_fill<S, std::vector<S> >(row, t);
      wide_n<std::vector<int> >(row, t); wide_n<std::list<int> >(row, t);
      if (n > 5000) continue;
      wide_fill<int, std::set<int> >(row, t); wide_fill<int, std::multiset<int> >(row, t); wide_fill<int, std::queue<int> >(row, t); wide_fill<int, std::stack<int> >(row, t); wide_fill<int, std::priority_queue<int> >(row, t);
      get_all<int>(g, row, 1, t); scalars<int>(row, t); std::vector<S> cols; CountTok f = {&cols}; MC_EQ(row.for_each_column(G::col_range_t(0, (unsigned)n), f), n); MC_TRUE(cols == t);
      mc::outcome(mc::Hash()(n)(bad));
   }
}
MC_SECTION(huge)
{
   for (size_t n : mc::scales(200, 70000))
   {
      for (int k = 0; k < 3; ++k)
      {
         const S shapes[] = { big_text(n, 3, k), big_text(2, n, k), S(n, 'p') + ",q\nr," + S(n, 's') + ",\n" + S(n, ',') + S(n, '\n') + "u" };
         for (int s = 0; s < 3; ++s) for (unsigned mode = 0; mode < 2; ++mode)
         {
            if (s == 2 && k) continue;
            MC_CASE(o << (s == 0 ? "a grid of rows: " : s == 1 ? "a grid of columns: " : "tokens and delimiter runs of ") << n << ", kind " << k << ", mode " << mode);
            const Opt op(",", "\n", mode); const MGrid m = model_grid(shapes[s], op); mc::Buf<unsigned char> b(shapes[s]); G g(b.begin(), shapes[s].size(), op.real()); view_big(g, m, b.begin()); mc::outcome(m.hash());
         }
      }
      {
         MC_CASE(o << "quoted tokens of " << n << " characters");
         const S q = "\"" + S(n, ',') + "\""; const S t = "a," + q + ",b\n" + q + "\nc," + q + "\n"; for (int trim = 0; trim < 2; ++trim) { const Opt op(",", "\n", 0, true, trim != 0); const MGrid m = model_grid(t, op); mc::Buf<unsigned char> b(t); G g(b.begin(), t.size(), op.real()); view_big(g, m, b.begin()); mc::outcome(m.hash()); }
      }
   }
}
MC_MAIN
