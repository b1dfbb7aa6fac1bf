// Reference conversions for simple tokens, and helpers over every supported container kind.
#ifndef PARSE_MODEL_HPP
#define PARSE_MODEL_HPP
#include "split_model.hpp"
#include <deque>
#include <list>
#include <queue>
#include <set>
#include <stack>
typedef std::vector<std::string> SV;

// -------- reference: tokens of the compressing split, converted left to right, stopping at the first failure
static bool conv(const std::string& s, std::string& t) { t = s; return true; }
static bool conv(const std::string& s, int& t)
{
   size_t i = 0; bool neg = false;
   if (s.empty()) return false;
   if (s[0] == '+' || s[0] == '-') { neg = s[0] == '-'; if (++i == s.size()) return false; }
   long long v = 0;
   for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > 3000000000LL) return false; }
   if (neg) v = -v;
   if (v > 2147483647LL || v < -2147483648LL) return false;
   t = (int)v; return true;
}
static bool conv(const std::string& s, char& t) { if (s.size() != 1) return false; t = s[0]; return true; }
static bool conv(const std::string& s, double& t)
{
   const size_t st = (!s.empty() && (s[0] == '-' || s[0] == '+')) ? 1 : 0;
   if (s.size() == st || s.find_first_not_of("0123456789.", st) != std::string::npos) return false;
   size_t dots = 0, digits = 0; for (size_t i = st; i < s.size(); ++i) { if (s[i] == '.') ++dots; else ++digits; }
   if (dots > 1 || !digits) return false;
   t = strtod(s.c_str(), 0); return true;
}
template <typename T> static bool model(const SV& tok, size_t k, T* v)
{
   if (tok.size() < k) return false;
   for (size_t i = 0; i < k; ++i) if (!conv(tok[i], v[i])) return false;
   return true;
}
template <typename T> struct Sentinel;
template <> struct Sentinel<std::string> { static std::string get() { return "SENT"; } };
template <> struct Sentinel<int> { static int get() { return -777; } };
template <> struct Sentinel<char> { static char get() { return '~'; } };
template <> struct Sentinel<double> { static double get() { return -7.5; } };

template <typename T> static std::vector<T> drain(std::vector<T>& c) { return c; }
template <typename T> static std::vector<T> drain(std::deque<T>& c) { return std::vector<T>(c.begin(), c.end()); }
template <typename T> static std::vector<T> drain(std::list<T>& c) { return std::vector<T>(c.begin(), c.end()); }
template <typename T, typename O> static std::vector<T> drain(std::set<T,O>& c) { return std::vector<T>(c.begin(), c.end()); }
template <typename T, typename O> static std::vector<T> drain(std::multiset<T,O>& c) { return std::vector<T>(c.begin(), c.end()); }
template <typename T, typename U> static std::vector<T> drain(std::queue<T,U>& c) { std::vector<T> r; while (!c.empty()) { r.push_back(c.front()); c.pop(); } return r; }
template <typename T, typename U> static std::vector<T> drain(std::stack<T,U>& c) { std::vector<T> r; while (!c.empty()) { r.push_back(c.top()); c.pop(); } return r; }
template <typename T, typename U, typename O> static std::vector<T> drain(std::priority_queue<T,U,O>& c) { std::vector<T> r; while (!c.empty()) { r.push_back(c.top()); c.pop(); } return r; }
template <typename C, typename T> static void put(C& c, const T& t) { c.push_back(t); }
template <typename T, typename O> static void put(std::set<T,O>& c, const T& t) { c.insert(t); }
template <typename T, typename O> static void put(std::multiset<T,O>& c, const T& t) { c.insert(t); }
template <typename T, typename U> static void put(std::queue<T,U>& c, const T& t) { c.push(t); }
template <typename T, typename U> static void put(std::stack<T,U>& c, const T& t) { c.push(t); }
template <typename T, typename U, typename O> static void put(std::priority_queue<T,U,O>& c, const T& t) { c.push(t); }

#define EACH_CONTAINER(M,T) M("vector",std::vector<T>) M("deque",std::deque<T>) M("list",std::list<T>) M("set",std::set<T>) M("multiset",std::multiset<T>) \
   M("queue",std::queue<T>) M("stack",std::stack<T>) M("priority_queue",std::priority_queue<T>)
#endif
