#include "kern.h"
typedef const int* CI;
#define MM (MN& m, 
#define K3(N, SIG, DECL, ST, MT, AUTO, SPEC) extern "C" { void vp_##N##_i_st SIG { m.vp_reset(); DECL; m.ST; } void vp_##N##_i_mt SIG { m.vp_reset(); DECL; m.MT; } void vp_##N##_i SIG { m.vp_reset(); DECL; m.AUTO; } void vp_##N##_s SIG { m.vp_reset(); SPEC; } }
#define SIGE (MN& m, const D* a, const int* ix, D* d, int r, int c, int n)
// rows picked by index
K3(xrows, SIGE, MTX(A,a,r,c); MTX(Dst,d,n,c), mExtractRows_seqWrite_st(A,ix,Dst), mExtractRows_seqWrite_mt(A,ix,Dst), mExtractRows(A,ix,Dst),
  for(L j=0;j<c;++j) for(L i=0;i<n;++i) d[i+j*L(n)] = a[ix[i]+j*L(r)])
K3(xrowsB, SIGE, MTXB(A,a,r,c); MTXB(Dst,d,n,c), mExtractRows_seqWrite_st(A,ix,Dst), mExtractRows_seqWrite_mt(A,ix,Dst), mExtractRows(A,ix,Dst),
  for(L j=0;j<c;++j) for(L i=0;i<n;++i) d[i+j*L(n)] = a[ix[i]+j*L(r)])
// columns picked by index (samples in columns); B: the extra last row of ones stays
K3(xcols, SIGE, MX A(const_cast<D*>(a),r,c,false,false); MX Dst(d,r,n,false,false), mExtractCols_st(A,ix,Dst), mExtractCols_mt(A,ix,Dst), mExtractCols(A,ix,Dst),
  for(L j=0;j<n;++j) for(L i=0;i<r;++i) d[i+j*L(r)] = a[i+ix[j]*L(r)])
#define BIR(X,p,R,C) MX X(const_cast<D*>(p),R,C,false,true); X.m_bEmulateBiases=true; X.m_bBatchInRow=true; 
extern "C" {
void vp_xbat_i SIGE { m.vp_reset(); MTX(A,a,r,c); MTX(Dst,d,n,c); m.mExtractBatches(A,ix,Dst); }
void vp_xbat_s SIGE { m.vp_reset(); for(L j=0;j<c;++j) for(L i=0;i<n;++i) d[i+j*L(n)] = a[ix[i]+j*L(r)]; }
}
// by mask (ones and zeros; the picked rows fit the smaller matrix exactly)
typedef std::conditional<sizeof(D)==4,int,long>::type FW;
#define SIGM (MN& m, const D* a, const D* k, D* d, int r, int c)
static inline int nnz(const D* k, int r) { L n=0; for(L i=0;i<r;++i) n += ((const FW*)k)[i]!=0; return int(n); }
K3(xmask, SIGM, const int n=nnz(k,r); MTX(A,a,r,c); MTX(Dst,d,n,c), mExtractRowsByMask_st(A,k,Dst), mExtractRowsByMask_mt(A,k,Dst), mExtractRowsByMask(A,k,Dst),
  const int n=nnz(k,r); if(n==r) for(L i=0;i<L(r)*c;++i) d[i]=a[i]; else { L q=0; for(L j=0;j<c;++j) for(L i=0;i<r;++i) if(((const FW*)k)[i]!=0) d[q++] = a[i+j*L(r)]; })
K3(fmask, SIGM, const int n=nnz(k,r); MTX(A,a,n,c); MTX(Dst,d,r,c), mFillRowsByMask_st(A,k,Dst), mFillRowsByMask_mt(A,k,Dst), mFillRowsByMask(A,k,Dst),
  const int n=nnz(k,r); if(n==r) for(L i=0;i<L(n)*c;++i) d[i]=a[i]; else { L q=0; for(L j=0;j<c;++j) for(L i=0;i<r;++i) d[i+j*L(r)] = ((const FW*)k)[i]!=0 ? a[q++] : D(0); })
#define SIGS (MN& m, const D* a, int z, D* d, int r, int c, int n)
K3(xseq, SIGS, MTX(A,a,r+n+z,c); MTX(Dst,d,n,c), mExtractRowsSeq_st(A,z,Dst), mExtractRowsSeq_mt(A,z,Dst), mExtractRowsSeq(A,z,Dst),
  for(L j=0;j<c;++j) for(L i=0;i<n;++i) d[i+j*L(n)] = a[z+i+j*L(r+n+z)])
K3(xseqB, SIGS, MTXB(A,a,r+n+z,c); MTXB(Dst,d,n,c), mExtractRowsSeq_st(A,z,Dst), mExtractRowsSeq_mt(A,z,Dst), mExtractRowsSeq(A,z,Dst),
  for(L j=0;j<c;++j) for(L i=0;i<n;++i) d[i+j*L(n)] = a[z+i+j*L(r+n+z)])
