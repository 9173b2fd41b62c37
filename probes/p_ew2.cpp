// kernels whose worker parts are not aligned with the loops they run: decided for one part that is the whole range
#define VP_WHOLE
#include "kern.h"
#include <algorithm>
#define FOR for(L i=0;i<L(r)*c;++i)
#define EW3(N, SIG, DECL, ST, MT, AUTO, SPEC) extern "C" { void vp_##N##_i_st SIG { DECL; m.ST; } void vp_##N##_i_mt SIG { DECL; m.MT; } void vp_##N##_i SIG { DECL; m.AUTO; } void vp_##N##_s SIG { SPEC; } }
EW3(ewBinarizeBatch, (MN& m, D* d, const D* a, D x, int z, int n, int r, int c), MTX(A,a,r,c); MTX(Dst,d,r+z+n,c), ewBinarizeBatch_st(Dst,z,A,x), ewBinarizeBatch_mt(Dst,z,A,x), ewBinarizeBatch(Dst,z,A,x), for(L j=0;j<c;++j) for(L i=0;i<r;++i) d[z+i+j*L(r+z+n)]= a[i+j*L(r)]>x?1:0)
