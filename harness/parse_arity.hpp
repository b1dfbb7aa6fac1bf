// Calls strtk::parse with k targets v[0..k-1] (and optionally a trailing container).
#ifndef PARSE_ARITY_HPP
#define PARSE_ARITY_HPP
#define AR1 v[0]
#define AR2 AR1,v[1]
#define AR3 AR2,v[2]
#define AR4 AR3,v[3]
#define AR5 AR4,v[4]
#define AR6 AR5,v[5]
#define AR7 AR6,v[6]
#define AR8 AR7,v[7]
#define AR9 AR8,v[8]
#define AR10 AR9,v[9]
#define AR11 AR10,v[10]
#define AR12 AR11,v[11]
#define AR13 AR12,v[12]
#define AR14 AR13,v[13]
#define AR15 AR14,v[14]
#define AR16 AR15,v[15]
#define EACH12(M) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12)
#define EACH16(M) EACH12(M) M(13) M(14) M(15) M(16)
#define EACH11(M) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11)
#endif
