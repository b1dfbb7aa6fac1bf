// B02: arbitrary bytes are decoded exactly or refused, and the cursor of reader and writer follows every history of calls.
#include "bin_model.hpp"

template <typename T> static void decode(const S& in, const char* what)
{
   MC_CASE(o << "decode " << what << " from " << in);
   mc::Buf<char> b(in); Rd r(b.begin(), b.n); T got = T(), want = T(); size_t at = 0; const bool ok = dec(in, at, want);
   MC_EQM(r(got), ok, "result"); MC_TRUE(r.amount_read() <= in.size() && r.position_ptr() == b.begin() + r.amount_read());
   if (ok) { MC_EQM(bytes(got), bytes(want), "value"); MC_EQM(r.position(), at, "position"); }
   MC_EQM(b.str(), in, "input unchanged"); mc::outcome(mc::Hash()(ok)(at)(bytes(want)));
}
template <typename T> static void decode_all(const char* what)
{
   mc::strings(S("\0\1\2\xFF", 4), 0, mc::tier<size_t>(8, 10), [&](const S& s) { decode<T>(s, what); });
   for (unsigned n : {0u, 1u, 2u, 3u, 4u, 5u, 8u, 0x10000u, 0x1000000u, 0x40000000u, 0x40000001u, 0x20000000u, 0x7fffffffu, 0x80000000u, 0xfffffffcu, 0xffffffffu})
      for (size_t len = 0; len <= 40; ++len) for (int k = 0; k < 3; ++k) { S s; enc(s, n); for (size_t i = 0; i < len; ++i) s += k == 0 ? 0 : k == 1 ? (char)(i % 4 == 0) : (char)(i * 5); decode<T>(s, what); }
}
MC_SECTION(decode_vec_char) { decode_all<std::vector<char> >("vector<char>"); decode_all<std::list<char> >("list<char>"); decode_all<S>("string"); }
MC_SECTION(decode_vec_short) { decode_all<std::vector<short> >("vector<short>"); decode_all<std::deque<short> >("deque<short>"); }
MC_SECTION(decode_vec_int) { decode_all<std::vector<int> >("vector<int>"); decode_all<std::set<int> >("set<int>"); decode_all<std::multiset<int> >("multiset<int>"); }
MC_SECTION(decode_strings) { decode_all<std::vector<S> >("vector<string>"); decode_all<std::deque<S> >("deque<string>"); decode_all<std::list<S> >("list<string>"); }
MC_SECTION(decode_sets) { decode_all<std::set<S> >("set<string>"); decode_all<std::multiset<S> >("multiset<string>"); }
MC_SECTION(decode_nested) { decode_all<std::vector<std::vector<char> > >("nested vectors"); decode_all<std::pair<S,S> >("pair of strings"); }
MC_SECTION(decode_records) { decode_all<Rec>("record"); decode_all<std::list<Rec> >("list of records"); decode_all<std::vector<std::pair<char,S> > >("vector of pairs"); }

// ---- reader histories over a buffer of n bytes
struct ROp { int type; int a; };
static mc::Out& operator<<(mc::Out& o, const ROp& p) { static const char* n[] = {"u8", "u16", "u32", "u64", "array3", "seek", "rewind", "mark", "reset_to_mark", "reset", "vec"}; return o << n[p.type] << "(" << p.a << ")"; }
static void reader_history(const S& data, const std::vector<ROp>& hist)
{
   mc::Buf<char> b(data); Rd r(b.begin(), b.n); size_t at = 0; std::vector<size_t> marks; const size_t n = data.size();
   MC_TRUE(!r == (n == 0));
   for (auto& p : hist)
   {
      mc::transition();
      switch (p.type)
      {
         #define GET(T) { T v = 0, w = 0; const bool ok = at + sizeof(T) <= n; if (ok) memcpy(&w, data.data() + at, sizeof(T)); MC_EQM(r(v), ok, "read"); MC_EQM(v, w, "value read"); if (ok) at += sizeof(T); }
         case 0: GET(unsigned char) break;
         case 1: GET(unsigned short) break;
         case 2: GET(unsigned) break;
         case 3: GET(unsigned long long) break;
         case 4: { char v[3] = {0, 0, 0}; const bool ok = at + 3 <= n; MC_EQM(r(v), ok, "read array"); if (ok) { MC_EQM(S(v, 3), data.substr(at, 3), "array"); at += 3; } break; }
         case 5: { const long t = (long)at + p.a; const bool ok = t >= 0 && t <= (long)n; MC_EQM(r.seek(p.a), ok, "seek"); if (ok) at = (size_t)t; break; }
         case 6: { const bool ok = (size_t)p.a <= at; MC_EQM(r.rewind((size_t)p.a), ok, "rewind"); if (ok) at -= (size_t)p.a; break; }
         case 7: r.mark(); marks.push_back(at); break;
         case 8: MC_EQM(r.reset_to_mark(), !marks.empty(), "reset_to_mark"); if (!marks.empty()) { at = marks.back(); marks.pop_back(); } break;
         case 9: r.reset(); at = 0; break;
      }
      MC_EQM(r.position(), at, "position"); MC_EQM(r.amount_read(), at, "amount_read"); MC_TRUE(r.position_ptr() == b.begin() + at);
   }
   MC_EQM(b.str(), data, "data unchanged"); mc::trace(); mc::Hash h; h((uint64_t)at)((uint64_t)n); for (size_t m : marks) h((uint64_t)m); mc::state(h); mc::outcome(h);
}
MC_SECTION(reader_histories)
{
   std::vector<ROp> ops; for (int t : {0, 1, 2, 3, 4, 7, 8, 9}) ops.push_back(ROp{t, 0}); for (int a : {-5, -1, 0, 1, 2, 8, 9}) ops.push_back(ROp{5, a}); for (int a : {0, 1, 4, 9}) ops.push_back(ROp{6, a});
   for (size_t n : {0u, 1u, 3u, 8u, 13u}) { S data; for (size_t i = 0; i < n; ++i) data += (char)(i * 29 + 3);
      for (size_t d = 0; d <= mc::tier<size_t>(4, 5); ++d) mc::tuples(ops.size(), d, [&](const std::vector<size_t>& ix) { std::vector<ROp> h; for (size_t i : ix) h.push_back(ops[i]); MC_CASE(o << "reader over " << n << " bytes: " << h); reader_history(data, h); }); }
   for (int a : {INT_MAX, INT_MIN + 1, 1000000}) { MC_CASE(o << "far seek " << a); reader_history("abcdef", {ROp{5, 3}, ROp{5, a}, ROp{0, 0}}); }
}
// every pair of cursor moves between the corners of 8 and 16-bit distances, with marks and reads in between
MC_SECTION(wide_seeks)
{
   for (size_t n : {254u, 255u, 256u, 257u, 300u, 511u, 512u, 513u, 70000u, 131080u})
   {
      S data(n, 0); for (size_t i = 0; i < n; ++i) data[i] = (char)(i * 29 + i / 251 + 3);
      std::vector<int> ds; for (int d : {0, 1, 2, 100, 127, 128, 129, 254, 255, 256, 257, 258, 299, 300, 511, 512, 513, 32767, 32768, 65535, 65536, 65537, 69999, 70000, 131079, 131080}) { ds.push_back(d); if (d) ds.push_back(-d); } ds.push_back((int)n); ds.push_back(-(int)n); ds.push_back((int)n - 1);
      for (int a : ds) if (a >= 0) for (int c : ds) for (int k = 0; k < 3; ++k)
      {
         std::vector<ROp> h; h.push_back(ROp{5, a}); h.push_back(ROp{7, 0}); h.push_back(k == 2 && c < 0 ? ROp{6, -c} : ROp{5, c}); h.push_back(ROp{k == 1 ? 3 : 0, 0}); h.push_back(ROp{8, 0}); h.push_back(ROp{2, 0});
         MC_CASE(o << "reader over " << n << " bytes: " << h); reader_history(data, h);
      }
      mc::Buf<char> b(n); Wr w(b.begin(), n); size_t at = 0; char c = 0; S mem(n, 0);
      MC_CASE(o << "writer over " << n << " bytes: marks at every position");
      while (at < n) { if (at % 3 == 0) w.mark(); c = (char)(at * 7 + at / 253); MC_TRUE(w(c)); mem[at++] = c; MC_EQ(w.position(), at); }
      MC_TRUE(!w(c)); MC_TRUE(b.str() == mem);
      while (w.reset_to_mark()) { at = (at - 1) / 3 * 3; MC_EQM(w.position(), at, "mark"); MC_TRUE(w.position_ptr() == b.begin() + at); c = (char)(at * 5 + 1); MC_TRUE(w(c)); mem[at] = c; }
      MC_EQ(at, (size_t)0); MC_TRUE(b.str() == mem); w.clear(); MC_TRUE(b.str() == S(n, 0) && w.position() == 0);
   }
}
// ---- writer histories over room of n bytes
struct WOp { int type; };
static mc::Out& operator<<(mc::Out& o, const WOp& p) { static const char* n[] = {"u8", "u16", "u32", "u64", "array3", "ints", "text", "chars", "mark", "reset_to_mark", "reset", "clear", "reset(clear)", "text without count"}; return o << n[p.type]; }
static void writer_history(size_t n, const std::vector<WOp>& hist)
{
   mc::Buf<char> b(S(n, '~')); Wr w(b.begin(), n); S mem(n, '~'); size_t at = 0; std::vector<size_t> marks; unsigned char c = 1;
   MC_TRUE(!w == (n == 0));
   for (auto& p : hist)
   {
      mc::transition(); ++c;
      switch (p.type)
      {
         #define PUT(expr, v) { const S e = bytes(v); const bool ok = at + e.size() <= n; MC_EQM(w(expr), ok, "write"); if (ok) { mem.replace(at, e.size(), e); at += e.size(); } }
         case 0: { unsigned char v = c; PUT(v, v) break; }
         case 1: { unsigned short v = (unsigned short)(c * 257 + 1); PUT(v, v) break; }
         case 2: { unsigned v = c * 0x01020305u; PUT(v, v) break; }
         case 3: { unsigned long long v = c * 0x0102030405060708ULL; PUT(v, v) break; }
         case 4: { const char a[3] = {(char)c, 'r', 'y'}; const bool ok = at + 3 <= n; MC_EQM(w(a), ok, "write array"); if (ok) { mem.replace(at, 3, S(a, 3)); at += 3; } break; }
         case 5: { std::vector<short> v(1, (short)(c * 3)); PUT(v, v) break; }
         case 6: case 7:
         {
            const S e = p.type == 6 ? bytes(S(1, (char)c)) : bytes(std::list<char>(2, (char)c));
            const bool ok = at + e.size() <= n; MC_EQM(p.type == 6 ? w(S(1, (char)c)) : w(std::list<char>(2, (char)c)), ok, "write");
            if (ok) { mem.replace(at, e.size(), e); at += e.size(); }
            else { const size_t k = w.position(); MC_TRUE(k >= at && k <= n); for (size_t i = at; i < n; ++i) mem[i] = b.begin()[i]; at = k; }   // what a refused sequence leaves in the room is not specified
            break;
         }
         case 8: w.mark(); marks.push_back(at); break;
         case 9: MC_EQM(w.reset_to_mark(), !marks.empty(), "reset_to_mark"); if (!marks.empty()) { at = marks.back(); marks.pop_back(); } break;
         case 10: w.reset(); at = 0; break;
         case 11: w.clear(); at = 0; mem.assign(n, 0); break;
         case 12: w.reset(true); at = 0; mem.assign(n, 0); break;
         case 13: { const S t(2, (char)c); const bool ok = at + 2 <= n; MC_EQM(w(t.data(), 2u, false), ok, "write without count"); if (ok) { mem.replace(at, 2, t); at += 2; } break; }
      }
      MC_EQM(w.position(), at, "position"); MC_EQM(w.amount_written(), at, "amount_written"); MC_TRUE(w.position_ptr() == b.begin() + at);
      MC_EQM(b.str(), mem, "memory");
   }
   mc::trace(); mc::Hash h; h((uint64_t)at)((uint64_t)n)(mem); for (size_t m : marks) h((uint64_t)m); mc::state(h); mc::outcome(h);
}
MC_SECTION(writer_histories)
{
   for (size_t n : {0u, 1u, 4u, 7u, 12u}) for (size_t d = 0; d <= mc::tier<size_t>(4, 5); ++d) mc::tuples(14, d, [&](const std::vector<size_t>& ix) { std::vector<WOp> h; for (size_t i : ix) h.push_back(WOp{(int)i}); MC_CASE(o << "writer into " << n << " bytes: " << h); writer_history(n, h); });
}
MC_SECTION(element_sized_buffers)
{
   // a buffer given as n elements of T has n*sizeof(T) bytes
   for (size_t n = 0; n <= 9; ++n) { MC_CASE(o << n << " doubles"); mc::Buf<double> b(n); Wr w(b.begin(), n); size_t k = 0; char c = 1; while (w(c)) ++k; MC_EQM(k, n * sizeof(double), "bytes that fit"); Rd r(b.begin(), n); k = 0; while (r(c)) { ++k; MC_EQ(c, (char)1); } MC_EQM(k, n * sizeof(double), "bytes to read"); r.clear(); MC_EQM(r.position(), (size_t)0, "clear"); MC_EQM(b.str(), S(n * 8, 0), "cleared buffer"); mc::outcome(k); }
   for (size_t n = 0; n <= 9; ++n) { MC_CASE(o << n << " shorts"); mc::Buf<unsigned short> b(n); for (size_t i = 0; i < n; ++i) b.begin()[i] = 0x0101; Rd r(b.begin(), n); size_t k = 0; char c; while (r(c)) ++k; MC_EQ(k, n * 2); r.reset(true); MC_EQM(b.str(), S(n * 2, 0), "reset(true) clears"); MC_EQ(r.position(), (size_t)0); mc::outcome(k); }
   { MC_CASE(o << "null buffer"); Wr w((char*)0, 8); MC_TRUE(!w); Rd r((char*)0, 8); MC_TRUE(!r); }
}
MC_MAIN
