// U02: container helpers (key/value lists, ownership, bulk insertion, clear, scoped_restore).
#include "strtk.hpp"
#include "mc.hpp"
#include <deque>
#include <list>
#include <map>
#include <queue>
#include <set>
#include <stack>
#include <algorithm>
typedef std::string S;
typedef std::vector<int> VI;

struct Item                       // counts every construction and destruction
{
   static std::set<const Item*>& live() { static std::set<const Item*> s; return s; }
   static VI& deleted() { static VI v; return v; }
   int id;
   explicit Item(int i) : id(i) { live().insert(this); }
   ~Item() { if (!live().erase(this)) mc::fail("an object was deleted twice"); deleted().push_back(id); }
};
struct ById { bool operator()(const Item* a, const Item* b) const { return a->id < b->id; } };

MC_SECTION(key_and_value_lists)
{
   const size_t N = mc::tier<size_t>(5, 7);
   for (size_t n = 0; n <= N; ++n)
      mc::tuples(3, n, [&](const std::vector<size_t>& t) {
         std::multimap<int,S> mm; std::map<int,S> m;
         for (size_t i = 0; i < n; ++i) { S v(1, (char)('a' + i)); mm.insert(std::make_pair((int)t[i], v)); m[(int)(t[i] * 10 + i)] = v; }
         MC_CASE(o << "keys " << m << " in multimap order " << VI(t.begin(), t.end()));
         VI keys; for (auto& p : m) keys.push_back(p.first);
         { VI a(1, -1); strtk::util::make_key_list(m, a); VI w(1, -1); w.insert(w.end(), keys.begin(), keys.end()); MC_EQ(a, w); }
         { std::deque<int> a; strtk::util::make_key_list(m, a); MC_EQ(VI(a.begin(), a.end()), keys); }
         { std::list<int> a; strtk::util::make_key_list(m, a); MC_EQ(VI(a.begin(), a.end()), keys); }
         { std::set<int> a; strtk::util::make_key_list(m, a); MC_EQ(VI(a.begin(), a.end()), keys); }
         { std::multiset<int> a; strtk::util::make_key_list(m, a); MC_EQ(VI(a.begin(), a.end()), keys); }
         for (int k = -1; k <= 3; ++k)
         {
            std::vector<S> w; for (size_t i = 0; i < n; ++i) if ((int)t[i] == k) w.push_back(S(1, (char)('a' + i)));
            { std::vector<S> a; strtk::util::make_value_list(mm, k, a); MC_EQ(a, w); }
            { std::deque<S> a; strtk::util::make_value_list(mm, k, a); MC_EQ(std::vector<S>(a.begin(), a.end()), w); }
            { std::list<S> a; strtk::util::make_value_list(mm, k, a); MC_EQ(std::vector<S>(a.begin(), a.end()), w); }
            { std::vector<S> a; strtk::util::make_value_list(mm, k, mc::append(a)); MC_EQ(a, w); }
            mc::outcome(mc::Hash()(w)((uint64_t)k)(n));
         }
      });
}

// Containers ordered by a comparator of their own: the keys are equal exactly when the comparator says so.
struct ByTens { bool operator()(int a, int b) const { return b / 10 < a / 10; } };    // descending, and the units do not matter
MC_SECTION(own_order)
{
   for (size_t n = 0; n <= mc::tier<size_t>(5, 7); ++n)
      mc::tuples(4, n, [&](const std::vector<size_t>& t) {
         static const int K[] = {10, 11, 20, 31};
         typedef std::multimap<int,S,ByTens> MM; typedef std::map<int,S,ByTens> M; MM mm; M m; std::vector<std::pair<int,S> > model;
         for (size_t i = 0; i < n; ++i) { std::pair<const int,S> v(K[t[i]], S(1, (char)('a' + i))); mm.insert(v); m.insert(v); model.push_back(std::make_pair(K[t[i]], v.second)); }
         MC_CASE(o << "keys inserted " << VI(t.begin(), t.end()) << " of 10 11 20 31, ordered by their tens");
         VI keys; for (auto& p : m) keys.push_back(p.first);
         { VI a; strtk::util::make_key_list(m, a); MC_EQ(a, keys); }
         { std::set<int,ByTens> a; strtk::util::make_key_list(m, a); MC_EQ(VI(a.begin(), a.end()), keys); }
         { std::multiset<int,ByTens> a; strtk::util::make_key_list(m, a); MC_EQ(VI(a.begin(), a.end()), keys); }
         for (int k = 0; k <= 40; k += 3)
         {
            std::vector<S> w; for (auto& p : model) if (p.first / 10 == k / 10) w.push_back(p.second);
            { std::vector<S> a; strtk::util::make_value_list(mm, k, a); MC_EQ(a, w); }
            { std::vector<S> a; strtk::util::make_value_list(mm, k, mc::append(a)); MC_EQ(a, w); }
         }
         mc::outcome(mc::Hash()(keys)(n));
      });
}

template <typename C> static void add(C& c, Item* i) { c.insert(c.end(), i); }
template <typename C> static void addm(C& c, Item* i) { c.insert(std::make_pair(i->id, i)); }
static int idof(const Item* p) { return p->id; }
template <typename K> static int idof(const std::pair<const K,Item*>& p) { return p.second->id; }
template <typename C> static VI ids(const C& c) { VI r; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) r.push_back(idof(*i)); return r; }

template <typename C> static void owners(const char* name, void (*adder)(C&, Item*))
{
   for (size_t n = 0; n <= mc::tier<size_t>(8, 12); ++n)
      for (unsigned mask = 0; mask < (1u << n); ++mask)
      {
         MC_CASE(o << name << " of " << n << ", delete_if mask " << mask);
         C c; VI keep, gone, all;
         for (size_t i = 0; i < n; ++i) { adder(c, new Item((int)i)); all.push_back((int)i); (mask >> i & 1 ? gone : keep).push_back((int)i); }
         Item::deleted().clear();
         strtk::util::delete_if([&](const typename C::value_type& v) { return (mask >> idof(v) & 1) != 0; }, c);
         MC_EQM(ids(c), keep, "elements left"); VI d = Item::deleted(); std::sort(d.begin(), d.end()); MC_EQM(d, gone, "elements deleted");
         MC_EQM(Item::live().size(), keep.size(), "live objects");
         strtk::util::delete_all(c);
         MC_TRUE(c.empty()); MC_EQM(Item::live().size(), (size_t)0, "live objects after delete_all");
         mc::outcome(mc::Hash()(n)(mask));
      }
   for (size_t n = 0; n <= 100; ++n)
   {
      MC_CASE(o << name << " of " << n << ", delete_all");
      C c; for (size_t i = 0; i < n; ++i) adder(c, new Item((int)i));
      Item::deleted().clear();
      strtk::util::delete_all(c); strtk::util::delete_all(c);
      MC_TRUE(c.empty()); MC_EQ(Item::live().size(), (size_t)0); MC_EQ(Item::deleted().size(), n);
   }
   for (size_t n = 13; n <= mc::tier<size_t>(300, 3000); n = n < 70 ? n + 1 : n * 2 - 3) for (int pat = 0; pat < 6; ++pat)
   {
      MC_CASE(o << name << " of " << n << ", delete_if pattern " << pat);
      C c; VI keep, gone;
      auto hit = [&](int i) { return pat == 0 ? i % 2 == 0 : pat == 1 ? i % 2 == 1 : pat == 2 ? i < 10 : pat == 3 ? i + 10 >= (int)n : pat == 4 ? i / 4 % 2 == 0 : i == 0 || i + 1 == (int)n; };
      for (size_t i = 0; i < n; ++i) { adder(c, new Item((int)i)); (hit((int)i) ? gone : keep).push_back((int)i); }
      Item::deleted().clear();
      strtk::util::delete_if([&](const typename C::value_type& v) { return hit(idof(v)); }, c);
      MC_EQM(ids(c), keep, "elements left"); VI d = Item::deleted(); std::sort(d.begin(), d.end()); MC_EQM(d, gone, "elements deleted"); MC_EQ(Item::live().size(), keep.size());
      strtk::util::delete_all(c); MC_TRUE(c.empty()); MC_EQ(Item::live().size(), (size_t)0); mc::outcome(mc::Hash()(n)((uint64_t)pat));
   }
}
// delete_all takes sets with their default comparator arguments; pointers are ordered by address, so order is checked as a set
MC_SECTION(own_vector) { owners<std::vector<Item*> >("vector", &add<std::vector<Item*> >); }
MC_SECTION(own_deque) { owners<std::deque<Item*> >("deque", &add<std::deque<Item*> >); }
MC_SECTION(own_list) { owners<std::list<Item*> >("list", &add<std::list<Item*> >); }
MC_SECTION(own_map) { owners<std::map<int,Item*> >("map", &addm<std::map<int,Item*> >); }
template <typename C> static void addm1(C& c, Item* i) { c.insert(std::make_pair(7, i)); }
template <typename C> static void addm3(C& c, Item* i) { c.insert(std::make_pair(i->id / 3, i)); }
MC_SECTION(own_multimap_one_key) { owners<std::multimap<int,Item*> >("multimap of one key", &addm1<std::multimap<int,Item*> >); }
MC_SECTION(own_multimap_three_a_key) { owners<std::multimap<int,Item*> >("multimap of three a key", &addm3<std::multimap<int,Item*> >); }
MC_SECTION(own_multimap) { owners<std::multimap<int,Item*> >("multimap", &addm<std::multimap<int,Item*> >); }
typedef std::set<Item*,ById> Set; typedef std::multiset<Item*,ById> MSet;
static void add_set(Set& c, Item* i) { c.insert(i); }
static void add_mset(MSet& c, Item* i) { c.insert(i); }
MC_SECTION(own_set) { owners<Set>("set", &add_set); }
MC_SECTION(own_multiset) { owners<MSet>("multiset", &add_mset); }

template <typename C> static void sorted_copy(const C& c, VI& got) { got.assign(c.begin(), c.end()); }
#define A1 a[0]
#define A2 A1,a[1]
#define A3 A2,a[2]
#define A4 A3,a[3]
#define A5 A4,a[4]
#define A6 A5,a[5]
#define A7 A6,a[6]
#define A8 A7,a[7]
#define A9 A8,a[8]
#define A10 A9,a[9]
#define A11 A10,a[10]
template <typename C> static bool pushn(C& c, size_t n, const int* a)
{
   using strtk::util::push_back;
   switch (n)
   {
      case 1: push_back(c, A1); break; case 2: push_back(c, A2); break; case 3: push_back(c, A3); break; case 4: push_back(c, A4); break;
      case 5: push_back(c, A5); break; case 6: push_back(c, A6); break; case 7: push_back(c, A7); break; case 8: push_back(c, A8); break;
      case 9: push_back(c, A9); break; case 10: push_back(c, A10); break;
      default: return false;
   }
   return true;
}
MC_SECTION(bulk_push_back)
{
   for (size_t n = 1; n <= 11; ++n)
      for (size_t pre = 0; pre <= 3; ++pre)
         for (unsigned perm = 0; perm < 24; ++perm)
         {
            int a[11]; for (size_t i = 0; i < 11; ++i) a[i] = (int)((i * (2 * perm + 1) + perm) % (perm % 4 == 3 ? 5 : 11));
            MC_CASE(o << "push_back of " << VI(a, a + n) << " after " << pre);
            VI w; for (size_t i = 0; i < pre; ++i) w.push_back(50 + (int)i);
            VI v = w; std::deque<int> d(w.begin(), w.end()); std::list<int> l(w.begin(), w.end()); std::set<int> s(w.begin(), w.end()), sw = s; std::multiset<int> m(w.begin(), w.end()), mw = m;
            w.insert(w.end(), a, a + n); sw.insert(a, a + n); mw.insert(a, a + n);
            if (n == 11) { strtk::util::push_back(v, A11); strtk::util::push_back(d, A11); strtk::util::push_back(l, A11); }
            else { pushn(v, n, a); pushn(d, n, a); pushn(l, n, a); pushn(s, n, a); pushn(m, n, a); MC_TRUE(s == sw); MC_TRUE(m == mw); }
            MC_EQ(v, w); MC_EQ(VI(d.begin(), d.end()), w); MC_EQ(VI(l.begin(), l.end()), w);
            mc::outcome(mc::Hash()(w.size())(perm));
         }
}

MC_SECTION(clear_and_restore)
{
   for (int n = 0; n <= mc::tier(60, 300); ++n)
   {
      MC_CASE(o << "clear of " << n << " elements");
      std::vector<int> v; std::deque<int> d; std::list<int> l; std::priority_queue<int> p; std::stack<int> k; std::queue<int> q; std::set<int> s; std::multiset<int> m; std::multimap<int,int> mm;
      for (int i = 0; i < n; ++i) { v.push_back(i); d.push_back(i); l.push_back(i); p.push(i); k.push(i); q.push(i); s.insert(i); m.insert(i / 2); mm.insert(std::make_pair(i / 2, i)); }
      strtk::util::clear(v); strtk::util::clear(d); strtk::util::clear(l); strtk::util::clear(p); strtk::util::clear(k); strtk::util::clear(q); strtk::util::clear(s); strtk::util::clear(m); strtk::util::clear(mm);
      MC_TRUE(v.empty()); MC_TRUE(v.capacity() == 0); MC_TRUE(d.empty()); MC_TRUE(l.empty()); MC_TRUE(p.empty()); MC_TRUE(k.empty()); MC_TRUE(q.empty()); MC_TRUE(s.empty()); MC_TRUE(m.empty()); MC_TRUE(mm.empty());
   }
   // every history of writes and restore() switches inside nested scopes
   const size_t D = mc::tier<size_t>(6, 8);
   for (size_t n = 0; n <= D; ++n)
      mc::tuples(5, n, [&](const std::vector<size_t>& h) {
         MC_CASE(o << "scoped_restore history " << VI(h.begin(), h.end()));
         S x = "start"; struct Level { S saved; bool restore; strtk::util::scoped_restore<S>* r; };
         std::vector<Level> st; S want = x; int k = 0;
         auto pop = [&]() { Level& L = st.back(); if (L.restore) want = L.saved; delete L.r; st.pop_back(); MC_EQM(x, want, "value after the scope ended"); };
         for (size_t op : h)
         {
            mc::transition();
            switch (op)
            {
               case 0: x = want = S("v") + (char)('0' + k++); break;
               case 1: { Level L; L.saved = want; L.restore = true; L.r = new strtk::util::scoped_restore<S>(x); st.push_back(L); break; }
               case 2: { Level L; L.saved = want; L.restore = false; L.r = new strtk::util::scoped_restore<S>(x, false); st.push_back(L); break; }
               case 3: if (!st.empty()) { MC_EQ(st.back().r->restore(), st.back().restore); st.back().r->restore() = st.back().restore = !st.back().restore; } break;
               case 4: if (!st.empty()) pop(); break;
            }
            MC_EQ(x, want);
         }
         while (!st.empty()) pop();
         mc::trace(); mc::state(mc::Hash()(want)(n)); mc::outcome(mc::Hash()(x));
      });
}
MC_SECTION(many)
{
   const size_t ns[] = { 127, 128, 129, 255, 256, 257, 1000, 4097 };
   for (size_t n : ns)
   {
      MC_CASE(o << "containers of " << n << " elements");
      std::map<int,int> m; std::multimap<int,int> mm; VI keys, vals; for (size_t i = 0; i < n; ++i) { m[(int)(2 * i)] = (int)i; keys.push_back((int)(2 * i)); mm.insert(std::make_pair(7, (int)i)); mm.insert(std::make_pair(6, -1)); mm.insert(std::make_pair(8, -2)); vals.push_back((int)i); }
      VI a; strtk::util::make_key_list(m, a); MC_TRUE(a == keys); std::list<int> l; strtk::util::make_key_list(m, l); MC_TRUE(VI(l.begin(), l.end()) == keys); std::set<int> s; strtk::util::make_key_list(m, s); MC_TRUE(VI(s.begin(), s.end()) == keys);
      a.clear(); strtk::util::make_value_list(mm, 7, a); MC_TRUE(a == vals); std::deque<int> d; strtk::util::make_value_list(mm, 7, d); MC_TRUE(VI(d.begin(), d.end()) == vals);
      for (int kind = 0; kind < 4; ++kind)
      {
         std::vector<Item*> v; std::list<Item*> li; std::deque<Item*> dq; std::map<int,Item*> mp; VI keep, got;
         auto gone = [&](int i) { return kind == 0 ? i % 2 == 0 : kind == 1 ? i != 255 : kind == 2 ? i == (int)n - 1 || i == 256 : i > 3; };
         for (size_t i = 0; i < n; ++i) { v.push_back(new Item((int)i)); li.push_back(new Item((int)i)); dq.push_back(new Item((int)i)); mp[(int)i] = new Item((int)i); if (!gone((int)i)) keep.push_back((int)i); }
         strtk::util::delete_if([&](Item* x) { return gone(x->id); }, v); strtk::util::delete_if([&](Item* x) { return gone(x->id); }, li); strtk::util::delete_if([&](Item* x) { return gone(x->id); }, dq); strtk::util::delete_if([&](const std::pair<const int,Item*>& x) { return gone(x.first); }, mp);
         MC_TRUE(ids(v) == keep); MC_TRUE(ids(li) == keep); MC_TRUE(ids(dq) == keep); MC_TRUE(ids(mp) == keep); MC_EQ(Item::live().size(), 4 * keep.size());
         strtk::util::delete_all(v); strtk::util::delete_all(li); strtk::util::delete_all(dq); strtk::util::delete_all(mp); MC_EQ(Item::live().size(), (size_t)0); MC_TRUE(v.empty() && li.empty() && dq.empty() && mp.empty()); Item::deleted().clear();
      }
   }
}
MC_MAIN
