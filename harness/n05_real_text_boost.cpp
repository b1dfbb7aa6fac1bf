// N05 in the configuration that uses boost::lexical_cast
#include "n05_real_text.cpp"
