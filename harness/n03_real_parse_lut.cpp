// N03 in the configuration that looks digits up in a table and unrolls its loops
#define strtk_use_lut
#define strtk_enable_superscalar
#include "n03_real_parse.cpp"
