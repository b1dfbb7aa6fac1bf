// Reference wire format of strtk::binary: native bytes; strings, sequences and counted arrays behind a 32-bit count.
#ifndef BIN_MODEL_HPP
#define BIN_MODEL_HPP
#include "parse_model.hpp"
typedef std::string S;
typedef strtk::binary::reader Rd;
typedef strtk::binary::writer Wr;

struct Rec
{
   int id; S name; std::pair<char,double> p; std::vector<S> tags;
   Rec(int i = 0, const S& n = "", char c = 0, double d = 0) : id(i), name(n), p(c, d) {}
   bool operator==(const Rec& o) const { return id == o.id && name == o.name && p == o.p && tags == o.tags; }
   bool operator<(const Rec& o) const { return id != o.id ? id < o.id : name < o.name; }
   strtk_binary_reader_begin() strtk_binary_reader(id) strtk_binary_reader(name) strtk_binary_reader(p) strtk_binary_reader(tags) strtk_binary_reader_end()
   strtk_binary_writer_begin() strtk_binary_writer(id) strtk_binary_writer(name) strtk_binary_writer(p) strtk_binary_writer(tags) strtk_binary_writer_end()
};

template <typename T> static typename std::enable_if<std::is_arithmetic<T>::value>::type enc(S& o, const T& v) { o.append((const char*)&v, sizeof v); }
static void enc(S& o, const S& v) { enc(o, (unsigned)v.size()); o += v; }
template <typename A, typename B> static void enc(S& o, const std::pair<A,B>& v);
static void enc(S& o, const Rec& v);
template <typename C> static auto enc(S& o, const C& c) -> typename std::enable_if<!std::is_arithmetic<C>::value && !std::is_same<C,S>::value, decltype((void)c.begin())>::type;
template <typename A, typename B> static void enc(S& o, const std::pair<A,B>& v) { enc(o, v.first); enc(o, v.second); }
template <typename C> static auto enc(S& o, const C& c) -> typename std::enable_if<!std::is_arithmetic<C>::value && !std::is_same<C,S>::value, decltype((void)c.begin())>::type
{ enc(o, (unsigned)c.size()); for (auto& x : c) enc(o, x); }
static void enc(S& o, const Rec& v) { enc(o, v.id); enc(o, v.name); enc(o, v.p); enc(o, v.tags); }

template <typename T> static typename std::enable_if<std::is_arithmetic<T>::value, bool>::type dec(const S& s, size_t& i, T& v) { if (i + sizeof v > s.size()) return false; memcpy(&v, s.data() + i, sizeof v); i += sizeof v; return true; }
static bool dec(const S& s, size_t& i, S& v) { unsigned n; if (!dec(s, i, n) || n > s.size() - i) return false; v = s.substr(i, n); i += n; return true; }
template <typename A, typename B> static bool dec(const S& s, size_t& i, std::pair<A,B>& v);
static bool dec(const S& s, size_t& i, Rec& v);
template <typename C> static auto dec(const S& s, size_t& i, C& c) -> typename std::enable_if<!std::is_arithmetic<C>::value && !std::is_same<C,S>::value, decltype((void)c.begin(), true)>::type;
template <typename A, typename B> static bool dec(const S& s, size_t& i, std::pair<A,B>& v) { return dec(s, i, v.first) && dec(s, i, v.second); }
template <typename C> static auto dec(const S& s, size_t& i, C& c) -> typename std::enable_if<!std::is_arithmetic<C>::value && !std::is_same<C,S>::value, decltype((void)c.begin(), true)>::type
{ unsigned n; if (!dec(s, i, n)) return false; for (unsigned k = 0; k < n; ++k) { typename C::value_type v = typename C::value_type(); if (!dec(s, i, v)) return false; put(c, v); } return true; }
static bool dec(const S& s, size_t& i, Rec& v) { return dec(s, i, v.id) && dec(s, i, v.name) && dec(s, i, v.p) && dec(s, i, v.tags); }
template <typename T> static S bytes(const T& v) { S s; enc(s, v); return s; }
#endif
