#define TRACKERS \
 X(OpenBLAS_dgemm) X(OpenBLAS_sgemm) X(IntelMKL_dgemm) X(IntelMKL_sgemm) X(IntelMKL_dcsrmm) X(IntelMKL_scsrmm) \
 X(IntelMKL_dcsrmultcsr) X(IntelMKL_scsrmultcsr) X(Eigen_dgemm) X(Eigen_sgemm) X(Eigen_sdgemm) X(Eigen_dsgemm) \
 X(Blaze_dgemm) X(Blaze_sgemm) X(Blaze_sdgemm) X(Blaze_dsgemm) X(Native_GeneralDense) X(Native_sparse) X(Native_sparse_dense) \
 X(Native_dense_sparse) X(Native_matrix_zero) X(Native_zero_matrix) X(Native_zero_zero) X(get_detection_arrays) X(get_block_size)
