#pragma once
// BLAS by its specification (column-major, naive loops over caller memory); the factorisation is opaque
typedef long L_;
extern "C" int vp_gesvd(char, char, int, int, void*, int, void*, void*, int, void*, int, void*);
struct NaiveBLAS {
	template<typename S, typename F> static void gemm(bool ta, bool tb, const S M, const S N, const S K, const F al, const F* A, const S lda, const F* B, const S ldb, const F be, F* C, const S ldc) {
		for (L_ j = 0; j < N; ++j) for (L_ i = 0; i < M; ++i) {
			F s = 0; for (L_ k = 0; k < K; ++k) s += (ta ? A[k + i*lda] : A[i + k*lda]) * (tb ? B[j + k*ldb] : B[k + j*ldb]);
			if (be == 0) C[i + j*ldc] = al*s; else C[i + j*ldc] = al*s + be*C[i + j*ldc];
		}
	}
	template<typename S, typename F> static void syrk(bool lower, bool ta, const S N, const S K, const F al, const F* A, const S lda, const F be, F* C, const S ldc) {
		for (L_ j = 0; j < N; ++j) for (L_ i = 0; i < N; ++i) if (lower ? i >= j : i <= j) {
			F s = 0; for (L_ k = 0; k < K; ++k) s += (ta ? A[k + i*lda] : A[i + k*lda]) * (ta ? A[k + j*lda] : A[j + k*lda]);
			if (be == 0) C[i + j*ldc] = al*s; else C[i + j*ldc] = al*s + be*C[i + j*ldc];
		}
	}
	template<typename S, typename F> static void symm(bool left, bool lower, const S M, const S N, const F al, const F* A, const S lda, const F* B, const S ldb, const F be, F* C, const S ldc) {
		for (L_ j = 0; j < N; ++j) for (L_ i = 0; i < M; ++i) {
			F s = 0;
			if (left) for (L_ k = 0; k < M; ++k) s += (lower == (i >= k) ? A[i + k*lda] : A[k + i*lda]) * B[k + j*ldb];
			else for (L_ k = 0; k < N; ++k) s += B[i + k*ldb] * (lower == (k >= j) ? A[k + j*lda] : A[j + k*lda]);
			C[i + j*ldc] = al*s + be*C[i + j*ldc];
		}
	}
	template<typename S, typename F> static int gesvd(const char u, const char v, const S m, const S n, F* A, const S lda, F* s, F* U, const S ldu, F* V, const S ldvt, F* sb) { return vp_gesvd(u, v, m, n, A, lda, s, U, ldu, V, ldvt, sb); }
	template<typename S, typename F> static void imatcopy(bool t, const S r, const S c, const F al, F* A, const S lda, const S ldb);
};
