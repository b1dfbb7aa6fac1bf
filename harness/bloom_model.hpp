#ifndef BLOOM_MODEL_HPP
#define BLOOM_MODEL_HPP
#include "parse_model.hpp"
typedef std::string S;
typedef strtk::bloom::filter F;
typedef strtk::bloom::compressible_filter CF;
typedef strtk::bloom::parameters Prm;
// parameters with a given table size (bits) and number of hashes
inline Prm params(unsigned long long bits, unsigned hashes, unsigned long long seed = 0xA5A5A5A55A5A5A5AULL, unsigned long long n = 10)
{ Prm p; p.projected_element_count = n; p.false_positive_probability = 0.01; p.random_seed = seed; p.minimum_size = p.maximum_size = bits; p.minimum_number_of_hashes = p.maximum_number_of_hashes = hashes; mc::check(p.compute_optimal_parameters(), "compute_optimal_parameters"); return p; }
inline S table(const F& f, size_t bits) { return S((const char*)f.table(), (bits + 7) / 8); }
inline S bor(S a, const S& b) { for (size_t i = 0; i < a.size(); ++i) a[i] |= b[i]; return a; }
inline S band(S a, const S& b) { for (size_t i = 0; i < a.size(); ++i) a[i] &= b[i]; return a; }
inline S bxor(S a, const S& b) { for (size_t i = 0; i < a.size(); ++i) a[i] ^= b[i]; return a; }
inline bool covers(const S& t, const S& m) { return band(t, m) == m; }
#endif
