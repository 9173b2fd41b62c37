From 14ce01641da17589a65724760f2c5af5e03dc70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:02 +0000
Subject: [PATCH 01/24] fix: a matrix whose allocation failed is empty (no bias
 writes through a null pointer, no stale size)

---
 nntl/interface/math/smatrix.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 4d7ef4a..e531701 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -307,6 +307,7 @@ namespace math {
 					//#TODO: NNTL_CFG_DEFAULT_FP_PTR_ALIGN is too strict for non-floating point data
 					m_pData = reinterpret_cast<value_type*__restrict>(_aligned_malloc(byte_size(), utils::mem_align_for<value_type>()));
 					NNTL_ASSERT(m_pData);
+					if (!m_pData) m_rows = m_cols = 0;
 				} else {
 					m_rows = 0;
 					m_cols = 0;
@@ -342,7 +343,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && m_pData) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -354,7 +355,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && m_pData) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -366,7 +367,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (m_bEmulateBiases) set_biases();
+			if (m_bEmulateBiases && m_pData) set_biases();
 		}
 		
 		//useExternalStorage(value_ptr_t ptr, const smatrix& sizeLikeThis) variation
-- 
2.43.0


From 892b3be0e98e7f3bf439e47bc94b59413ba7c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:02 +0000
Subject: [PATCH 02/24] fix: clone_to_no_bias() must not add a bias column to a
 destination that used to emulate biases

---
 nntl/interface/math/smatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index e531701..547a0d7 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -498,7 +498,7 @@ namespace math {
 					return false;
 				}
 			} else {				
-				if (!dest.resize(m_rows, cnb)) {
+				if (!dest.resize(m_rows, cnb, tag_noBias())) {
 					NNTL_ASSERT(!"resize failed!");
 					return false;
 				}
-- 
2.43.0


From c20e7aa742ea79d469af15c7bee2c7ca8051b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:02 +0000
Subject: [PATCH 03/24] fix: smatrix_deform::submatrix_cols_no_bias() keeps the
 batch orientation like the base class does

---
 nntl/interface/math/smatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 547a0d7..a2cb418 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -1412,7 +1412,7 @@ namespace math {
 			NNTL_ASSERT(numCols);
 			NNTL_ASSERT(colStart + numCols <= cols_no_bias());
 			NNTL_ASSERT(!emulatesBiases() || bBatchInColumn());
-			return smatrix_deform(colDataAsVec(colStart), rows(), numCols, false);
+			return smatrix_deform(colDataAsVec(colStart), rows(), numCols, false, false, bBatchInRow());
 		}
 
 		// #supportsBatchInRow
-- 
2.43.0


From 5a303ee133c0e7cabedd1e5451637019c86a6c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:02 +0000
Subject: [PATCH 04/24] fix: nans_no_bias() leaves the biases alone, so it must
 leave the holey-biases flag alone too

---
 nntl/interface/math/smatrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index a2cb418..d1c2324 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -1123,7 +1123,6 @@ namespace math {
 			NNTL_ASSERT(!emulatesBiases() || bBatchInColumn());
 			//::std::fill(m_pData, m_pData + numel(), value_type(1.0)); //doesn't get vectorized!
 			_fill_seq_elements(m_pData, numel_no_bias(), ::std::numeric_limits<value_type>::quiet_NaN());
-			m_bHoleyBiases = false;
 		}
 
 		//////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From ee823f3cf1858615022e4fe2234950dd8c5de7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:02 +0000
Subject: [PATCH 05/24] fix: strided binary-vector tests stop after ne elements
 instead of running past the data

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index d1c2324..c4911cf 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -169,7 +169,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -198,7 +198,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -217,7 +217,7 @@ namespace math {
 			const auto _one = T(1);
 			const auto _zero = T(0);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			T cond = T(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
-- 
2.43.0


From 98ede7ae6ea9ef9b52c67589f19fb7e5bbe85f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:52 +0000
Subject: [PATCH 06/24] fix: Matthews correlation is computed from products of
 counts that do not fit vec_len_t

---
 nntl/utils/confusion_mtx.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nntl/utils/confusion_mtx.h b/nntl/utils/confusion_mtx.h
index 54f7dcc..c1b790a 100644
--- a/nntl/utils/confusion_mtx.h
+++ b/nntl/utils/confusion_mtx.h
@@ -108,8 +108,9 @@ namespace nntl {
 			real_t Markedness()const noexcept { return PPV() + NPV() - real_t(1.); }
 			
 			real_t MCC()const noexcept {
-				const auto den = (TP() + FP())*(TP() + FN())*(TN() + FP())*(TN() + FN());
-				return den ? static_cast<real_t>(TP()*TN() - FP()*FN()) / ::std::sqrt(static_cast<real_t>(den))  : real_t(0.);
+				const ext_real_t tp = TP(), fp = FP(), tn = TN(), fn = FN();//products of counts don't fit into vec_len_t
+				const auto den = (tp + fp)*(tp + fn)*(tn + fp)*(tn + fn);
+				return den > ext_real_t(0.) ? static_cast<real_t>((tp*tn - fp*fn) / ::std::sqrt(den)) : real_t(0.);
 			}
 
 			real_t Jaccard()const noexcept {
-- 
2.43.0


From f33c6f52447baeee0423618d850109ddd968e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:37 +0000
Subject: [PATCH 07/24] fix: layer_settings::set_default() returns the object
 like its declaration says

---
 nntl/utils/layers_settings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/utils/layers_settings.h b/nntl/utils/layers_settings.h
index bc01183..700e506 100644
--- a/nntl/utils/layers_settings.h
+++ b/nntl/utils/layers_settings.h
@@ -80,6 +80,7 @@ namespace utils {
 			if (!m_keeper.empty())
 				m_keeper.pop_front();
 			m_keeper.push_front(::std::forward<ST>(def));
+			return *this;
 		}
 
 		const setts_t& get(const layer_index_t idx)const noexcept {
-- 
2.43.0


From 71e4810be97e4bb02b317a6d041c8164b87db984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:37 +0000
Subject: [PATCH 08/24] fix: layer_idx_keeper::nestingLevel() compares layer
 indexes, not an index with an iterator

---
 nntl/utils/layer_idx_keeper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/utils/layer_idx_keeper.h b/nntl/utils/layer_idx_keeper.h
index f9faab2..aa6a826 100644
--- a/nntl/utils/layer_idx_keeper.h
+++ b/nntl/utils/layer_idx_keeper.h
@@ -99,7 +99,7 @@ namespace utils {
 			const auto s = _base_class_t::size();
 			const auto t = _base_class_t::top();
 			for (size_type i = 2; i <= s; ++i) {
-				if (t != ::std::prev(_base_class_t::_Get_container().end(), i)) {
+				if (t != *::std::prev(_base_class_t::_Get_container().end(), i)) {
 					break;
 				}
 				++nl;
-- 
2.43.0


From 25b0cd82b2fad61ec2025eadc2975894f642ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:08 +0000
Subject: [PATCH 09/24] fix: a failed allocation stays visible to
 isAllocationFailed(), and resizing to the same size tries again

---
 nntl/interface/math/smatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index c4911cf..5d1db4d 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -307,7 +307,6 @@ namespace math {
 					//#TODO: NNTL_CFG_DEFAULT_FP_PTR_ALIGN is too strict for non-floating point data
 					m_pData = reinterpret_cast<value_type*__restrict>(_aligned_malloc(byte_size(), utils::mem_align_for<value_type>()));
 					NNTL_ASSERT(m_pData);
-					if (!m_pData) m_rows = m_cols = 0;
 				} else {
 					m_rows = 0;
 					m_cols = 0;
@@ -1058,7 +1057,7 @@ namespace math {
 				NNTL_ASSERT(!"Wrong row or col count!");
 				return false;
 			}
-			if (r == m_rows && c == m_cols) return true;
+			if (m_pData && r == m_rows && c == m_cols) return true;
 			m_rows = r;
 			m_cols = c;
 			_realloc();
-- 
2.43.0


From e4365442d93eab4b8c1387554f86624dd9df056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:18 +0000
Subject: [PATCH 10/24] fix: percentage of a huge parameter group is computed
 without 32-bit overflow in gradcheck settings

---
 nntl/utils/gradcheck.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/utils/gradcheck.h b/nntl/utils/gradcheck.h
index 7e1f417..efe4d42 100644
--- a/nntl/utils/gradcheck.h
+++ b/nntl/utils/gradcheck.h
@@ -99,7 +99,7 @@ namespace nntl {
 
 			case nntl::gradcheck_settingsCountMode::percent_or_min:
 				r = ::std::max(
-					(maxParams * u.perc.NPercents) / 100
+					static_cast<neurons_count_t>((static_cast<numel_cnt_t>(maxParams) * u.perc.NPercents) / 100)
 					, ::std::min(maxParams, u.perc.paramsToCheck)
 				);
 				break;
-- 
2.43.0


From dbeaf894a7cd1c45da676f2e7769da3c12e6eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:49 +0000
Subject: [PATCH 11/24] fix: ILR_props(decr, incr, cLow, cHigh) compiles
 (missing comma)

---
 nntl/grad_works/ILR_Props.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/grad_works/ILR_Props.h b/nntl/grad_works/ILR_Props.h
index d4df737..e425995 100644
--- a/nntl/grad_works/ILR_Props.h
+++ b/nntl/grad_works/ILR_Props.h
@@ -61,7 +61,7 @@ namespace GW { //GW namespace is for grad_works mixins and other stuff, that hel
 			: mulDecr(decr), mulIncr(incr), capLow(cLow), capHigh(cHigh) {}
 
 		ILR_props(const real_t& decr, const real_t& incr, const real_t& cLow, const real_t& cHigh)noexcept {
-			set(decr, incr, cLow cHigh);
+			set(decr, incr, cLow, cHigh);
 		}
 		void set(const real_t& decr, const real_t& incr, const real_t& cLow, const real_t& cHigh)noexcept {
 			NNTL_ASSERT((decr > 0 && decr < 1 && incr > 1 && cHigh > cLow && cLow > 0) || (decr == 0 && incr == 0 && cHigh == 0 && cLow == 0));
-- 
2.43.0


From dbe26b0f219ce0df3d0eabd5096ffd595081054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 12/24] fix: walking over a data set no longer drops its last
 sample when the set size is a multiple of the batch size plus one

---
 nntl/train_data/_train_data_simple.h | 2 +-
 nntl/train_data/transf_train_data.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 094bad4..ddc6c16 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -366,7 +366,7 @@ namespace nntl {
 				}
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 51d2262..0848e75 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -442,7 +442,7 @@ namespace nntl {
 				m_TFunct.walk(m_tdStor, dataSetId, cd, m_curBatchSize, excludeDataFlag, &m_pCurBatchX, &m_pCurBatchY);
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
-- 
2.43.0


From 9eef798a7231fad6f6cc4a5efdb8e6ec46f5ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:39 +0000
Subject: [PATCH 13/24] fix: in-memory training data whose samples are stored
 in columns can be absorbed, duplicated and given new targets

---
 nntl/train_data/inmem_train_data_stor.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/nntl/train_data/inmem_train_data_stor.h b/nntl/train_data/inmem_train_data_stor.h
index 00ff57c..1de2949 100644
--- a/nntl/train_data/inmem_train_data_stor.h
+++ b/nntl/train_data/inmem_train_data_stor.h
@@ -176,10 +176,11 @@ namespace nntl {
 			static bool absorbsion_will_succeed(const x_mtxdef_t& _train_x, const y_mtxdef_t& _train_y
 				, const x_mtxdef_t& _test_x, const y_mtxdef_t& _test_y)noexcept //, const bool noBiasEmulationNecessary) noexcept
 			{
-				return !_train_x.empty() && !_train_y.empty() && _train_x.rows() == _train_y.rows()
-					&& !_test_x.empty() && !_test_y.empty() && _test_x.rows() == _test_y.rows()
-					&& _train_y.cols() == _test_y.cols()
-					&& _train_x.cols() == _test_x.cols()
+				return !_train_x.empty() && !_train_y.empty() && _train_x.batch_size() == _train_y.batch_size()
+					&& !_test_x.empty() && !_test_y.empty() && _test_x.batch_size() == _test_y.batch_size()
+					&& _train_x.bBatchInRow() == _test_x.bBatchInRow() && _train_y.bBatchInRow() == _test_y.bBatchInRow()
+					&& _train_y.sample_size() == _test_y.sample_size()
+					&& _train_x.sample_size() == _test_x.sample_size()
 					&& !_train_y.emulatesBiases() && !_test_y.emulatesBiases()
 					&& _train_x.emulatesBiases() && _test_x.emulatesBiases()
 					&& !_train_x.bDontManageStorage() && !_test_x.bDontManageStorage()
@@ -191,9 +192,10 @@ namespace nntl {
 			// #supportsBatchInRow
 			bool replace_Y_will_succeed(const y_mtxdef_t& _train_y, const y_mtxdef_t& _test_y)const noexcept
 			{
-				return !_train_y.empty() && _train_y.rows() == train_y().rows()
-					&& !_test_y.empty() && _test_y.rows() == test_y().rows()
-					&& _train_y.cols() == _test_y.cols()
+				return !_train_y.empty() && _train_y.batch_size() == train_y().batch_size()
+					&& !_test_y.empty() && _test_y.batch_size() == test_y().batch_size()
+					&& _train_y.bBatchInRow() == _test_y.bBatchInRow()
+					&& _train_y.sample_size() == _test_y.sample_size()
 					&& !_train_y.emulatesBiases() && !_test_y.emulatesBiases()
 					&& !_train_y.bDontManageStorage() && !_test_y.bDontManageStorage()
 					;
-- 
2.43.0


From 64480d26add504e0dc7c452ee4ddbb686d9593de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:48 +0000
Subject: [PATCH 14/24] fix: the batch holder uses the last full batch of a
 shuffle before shuffling again

---
 nntl/utils/dataHolder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/utils/dataHolder.h b/nntl/utils/dataHolder.h
index 83ee29b..5c7750f 100644
--- a/nntl/utils/dataHolder.h
+++ b/nntl/utils/dataHolder.h
@@ -168,7 +168,7 @@ namespace utils {
 				//nothing to do here
 			} else {
 				NNTL_ASSERT(m_rowsIdxs.size());
-				if (m_next >= m_rowsIdxs.cend() - curBatchSize()) {
+				if (m_next > m_rowsIdxs.cend() - curBatchSize()) {
 					m_next = m_rowsIdxs.cbegin();
 					::std::random_shuffle(m_rowsIdxs.begin(), m_rowsIdxs.end(), iR);
 				}
-- 
2.43.0


From 0883263886a752da8bcda07c774717dd25fe0818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:40 +0000
Subject: [PATCH 15/24] fix: mcwFindKOrdered Aggregator::aggregate() lost
 values of a next batch when old cache values repeat

---
 nntl/interface/math/_mcwFindKOrdered_hlpr.h | 36 ++++++---------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/nntl/interface/math/_mcwFindKOrdered_hlpr.h b/nntl/interface/math/_mcwFindKOrdered_hlpr.h
index 194350e..6d12b82 100644
--- a/nntl/interface/math/_mcwFindKOrdered_hlpr.h
+++ b/nntl/interface/math/_mcwFindKOrdered_hlpr.h
@@ -324,6 +324,12 @@ namespace math {
 						//invalid cache index (<0) signifies the values left from previous batches. If the index is valid,
 						//the value is from current batch.
 						// We should traverse cache now to properly aggregate it into m_allData
+						// Every value of the current batch that went into the cache has pushed the old values below it one step down, so
+						// the old value at hr was stored under hr + (number of the current batch values above hr). Note that one mustn't search
+						// for it by value, because the values aren't unique unless the order is distinct
+						vec_len_t newAbove = 0;
+						for (vec_len_t hr = 0; hr < k; ++hr) newAbove += (pIdxs[hr] >= 0);
+
 						for (vec_len_t hr = 0; hr < k; ++hr) {
 							//cache are written in ascending order, i.e. biggest - last
 							//NNTL_ASSERT(hr + 1 >= k || pVals[hr] < pVals[hr + 1]);
@@ -333,34 +339,12 @@ namespace math {
 							// new value at hr index could only be equal to or bigger than stored in m_allData.
 							if (nI < 0) {
 								//invalid index means that the value nV is left from old batch.
-								//NNTL_ASSERT(nV >= pDSE[hr].val);
-								NNTL_ASSERT(!OrderFunctor_t::first_better(pDSE[hr].val, nV));
-								if (nV == pDSE[hr].val) {
-									//nothing else should be done here. Every higher indexes must be the same, b/c any difference
-									//will lead to shifting values
-								#ifdef NNTL_DEBUG
-									for (vec_len_t r = hr + 1; r < k; ++r) {
-										NNTL_ASSERT(pDSE[r].val == pVals[r]);
-									}
-								#endif // NNTL_DEBUG
-									break;
-								} else {
-									// We must find corresponding entry in range [hr+1..k) and move it to the current position.
-									vec_len_t r = hr + 1;
-									for (; r < k; ++r) {
-										const auto& dse = pDSE[r];
-										//NNTL_ASSERT(nV >= dse.val);
-										NNTL_ASSERT(!OrderFunctor_t::first_better(dse.val, nV));
-										if (nV == dse.val) {
-											//moving dse to the hr index
-											pDSE[hr] = dse;
-											break;
-										}
-									}
-									NNTL_ASSERT(r < k || !"DatasetElement not found! WTF?!");
-								}
+								if (!newAbove) break;//it and everything above haven't moved
+								NNTL_ASSERT(hr + newAbove < k && pDSE[hr + newAbove].val == nV);
+								pDSE[hr] = pDSE[hr + newAbove];
 							} else {
 								//valid index means that the value nV is from the current batch. We must store it under hr index
+								--newAbove;
 								auto& dse = pDSE[hr];
 								//NNTL_ASSERT(nV > dse.val);
 								NNTL_ASSERT(OrderFunctor_t::first_better(nV, dse.val));
-- 
2.43.0


From 4a7142af8a731b352ba4ec8b15cb670bb6d9af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:55 +0000
Subject: [PATCH 16/24] fix: LPV must not touch the inspector of a pack whose
 topmost layer failed to initialize

---
 nntl/layer/pack_vertical.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nntl/layer/pack_vertical.h b/nntl/layer/pack_vertical.h
index f3c28b1..fb2f5eb 100644
--- a/nntl/layer/pack_vertical.h
+++ b/nntl/layer/pack_vertical.h
@@ -220,11 +220,12 @@ namespace nntl {
 				} else failedLayerIdx = topmost_layer().get_layer_idx();
 			}
 
-			//must be called after first inner layer initialization complete - see our get_iInspect() implementation
-			get_iInspect().init_layer(get_layer_idx(), get_layer_name_str(), get_layer_type_id());
-
 			//#TODO need some way to return failedLayerIdx
-			if (ErrorCode::Success == ec) bSuccessfullyInitialized = true;
+			if (ErrorCode::Success == ec) {
+				//must be called only after the topmost layer was successfully initialized - see our get_iInspect() implementation
+				get_iInspect().init_layer(get_layer_idx(), get_layer_name_str(), get_layer_type_id());
+				bSuccessfullyInitialized = true;
+			}
 			return ec;
 		}
 
-- 
2.43.0


From 149a38311e0cb4caa331d1d12fbc15e18ec30df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:55 +0000
Subject: [PATCH 17/24] fix: LPH base must keep the shared activations flag
 after layer_init()

---
 nntl/layer/_lph_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nntl/layer/_lph_base.h b/nntl/layer/_lph_base.h
index 37c3f4d..9a465e2 100644
--- a/nntl/layer/_lph_base.h
+++ b/nntl/layer/_lph_base.h
@@ -312,6 +312,8 @@ namespace nntl {
 				//now initializing base
 				ec = _base_class_t::layer_init(lid, pNewActivationStorage);
 				if (ErrorCode::Success != ec) return ec;
+				//the base layer_init() drops the flag set by _lph_act_stor_init_activations() above
+				_set_activations_shared(nullptr != pNewActivationStorage);
 
 				// - we can't pass dLdA & dLdAPrev to encapsulated layers, because they could also be compound and may require
 				//		a far bigger matrix sizes than dLdA allows. Therefore we must calculate the biggest max_dLdA_numel 
-- 
2.43.0


From 8ad4278fe3a89fbf1171547b4172cf8a83a796e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 18/24] fix: LPT must size the inner lower layer activations by
 the incoming batch size

---
 nntl/layer/pack_tile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/layer/pack_tile.h b/nntl/layer/pack_tile.h
index 30aa4fc..325403c 100644
--- a/nntl/layer/pack_tile.h
+++ b/nntl/layer/pack_tile.h
@@ -248,7 +248,7 @@ namespace nntl {
 			NNTL_ASSERT(m_innerLowerLayerActivations.emulatesBiases());
 			if (!bExpectSpecialDataX) {
 				//we'll use transformed matrix only if an incoming data is in the non-specialized format
-				if (!m_innerLowerLayerActivations.resize(initD.outgBS.biggest(), m_tiledLayer.get_incoming_neurons_cnt()))
+				if (!m_innerLowerLayerActivations.resize(initD.incBS.biggest(), m_tiledLayer.get_incoming_neurons_cnt()))
 					return ErrorCode::CantAllocateMemoryForInnerLLActivations;
 			}
 
-- 
2.43.0


From ffa4aff0aa965641cab54d1276c801feed9584b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:25 +0000
Subject: [PATCH 19/24] fix: train() treats a NaN loss as divergence

A comparison of NaN with the threshold is always false, so a network whose
loss became NaN passed the divergence check.
---
 nntl/nnet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 9383a1b..01e9034 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -639,7 +639,7 @@ namespace nntl {
 						} else {
 							// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 							const auto trainLoss = _report_training_progress(epochIdx, td, periodTime, opts.observer());
-							if (bCheckForDivergence && trainLoss >= opts.divergenceCheckThreshold())
+							if (bCheckForDivergence && !(trainLoss < opts.divergenceCheckThreshold()))
 								return _set_last_error(ErrorCode::NNDiverged);
 						}
 					}
-- 
2.43.0


From d527893497fb40f7a8064cf535bc7bf6789eddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:25 +0000
Subject: [PATCH 20/24] fix: gradcheck reports a NaN gradient as failure

With NaN in either gradient the relative error is NaN and the comparison with
the warning threshold let it pass.
---
 nntl/nnet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 01e9034..cae7f5c 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -1093,7 +1093,7 @@ namespace nntl {
 					const real_t relErr = ::std::abs(dLan - dLnum) / ::std::max(::std::abs(dLan), ::std::abs(dLnum));
 					NNTL_ASSERT(!::std::isnan(relErr) && !::std::isinf(relErr));
 
-					if (relErr > *warnThrsh) {
+					if (!(relErr <= *warnThrsh)) {
 						if (relErr < *failThrsh) {
 							char _s[128];
 							sprintf_s(_s, "Relative error = %g (thrsh %g). Probably not an error.", relErr, *warnThrsh);
-- 
2.43.0


From 2d5cca86e8c4a20f0a4550a8a9df9c40bc3209ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:57 +0000
Subject: [PATCH 21/24] fix: init4fixedBatchFprop() remembers the error of
 init4inference()

Every other failing path sets the last error.
---
 nntl/nnet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index cae7f5c..736596f 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -691,7 +691,7 @@ namespace nntl {
 			auto& iM = get_iMath();
 			if (!td.is_initialized4inference(fpropBatchSize)) {
 				const auto ec = td.init4inference(iM, fpropBatchSize);
-				if (ErrorCode::Success != ec) return ec;
+				if (ErrorCode::Success != ec) return _set_last_error(ec);
 			}
 
 			const auto ec = init4fixedBatchFprop(fpropBatchSize);
-- 
2.43.0


From a0edc3c54464f5c6cd68f2abbe54b3108208aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 22/24] fix: gradcheck() with a batch as big as the dataset
 must not use an unallocated sub-batch storage

---
 nntl/nnet.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 736596f..459a668 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -782,8 +782,11 @@ namespace nntl {
 			//////////////////////////////////////////////////////////////////////////
 
 			bool performCheck(const vec_len_t batchSize, const realmtx_t& data_x, const realmtx_t& data_y)noexcept {
-				const vec_len_t biggestBatch = ::std::max(batchSize, m_ngcSetts.onlineBatchSize);
-				m_data.init(biggestBatch == data_x.batch_size() ? 0 : biggestBatch, data_x, &data_y);
+				//the data holder needs the biggest batch that is smaller than the whole dataset (zero only if there's no such batch)
+				const vec_len_t fullBatch = data_x.batch_size();
+				const vec_len_t biggestSubBatch = ::std::max(batchSize < fullBatch ? batchSize : vec_len_t(0)
+					, m_ngcSetts.onlineBatchSize < fullBatch ? m_ngcSetts.onlineBatchSize : vec_len_t(0));
+				m_data.init(biggestSubBatch, data_x, &data_y);
 				
 				bool bRet = false;
 				NNTL_ASSERT(m_ngcSetts.onlineBatchSize > 0);
-- 
2.43.0


From 8ae7ac6c1225637f5ae8afcad90398b59a96dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 23/24] fix: normal_vector() uses the requested deviation, not
 the number of elements

---
 nntl/interface/_i_rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/_i_rng.h b/nntl/interface/_i_rng.h
index e453a25..ca87e6d 100644
--- a/nntl/interface/_i_rng.h
+++ b/nntl/interface/_i_rng.h
@@ -235,7 +235,7 @@ namespace rng {
 		//////////////////////////////////////////////////////////////////////////
 		//////////////////////////////////////////////////////////////////////////
 		void normal_vector(real_t*const ptr, const numel_cnt_t n, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
-			::std::normal_distribution<real_t> distr(m,n);
+			::std::normal_distribution<real_t> distr(m, st);
 			for (numel_cnt_t i = 0; i < n; ++i) {
 				ptr[i] = distr(*this);
 			}
-- 
2.43.0


From ce54cdceaa3dbe1ab6a62ae77f58ec6d52e41720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:58 +0000
Subject: [PATCH 24/24] fix: mrwIdxsOfMax_mt_cw() must return the leftmost
 maximum as the other forms do

The parts the workers process don't come in the order of columns (the calling
thread is the first one, but processes the last part), so on a tie between
parts the index depended on how columns were split.
---
 nntl/interface/math/smath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/math/smath.h b/nntl/interface/math/smath.h
index b051392..8c91c0e 100644
--- a/nntl/interface/math/smath.h
+++ b/nntl/interface/math/smath.h
@@ -1367,7 +1367,8 @@ namespace math {
 					for (vec_len_t r = 0; r < rm; ++r) {
 						const auto pM = pMaxStor + r;
 						const auto v = p[r];
-						if (v > *pM) {
+						//parts don't have to come in the order of columns, so on a tie have to find the leftmost column just like _st() do
+						if (v > *pM || (v == *pM && pIdxs[r] < pIdxsStor[r])) {
 							*pM = v;
 							pIdxsStor[r] = pIdxs[r];
 						}
-- 
2.43.0

