// The part of the CUDA runtime that boost/fiber/cuda/waitfor.hpp uses; implemented by the check (C30.cpp).
#ifndef FAKE_CUDA_H
#define FAKE_CUDA_H
struct CUstream_st; typedef CUstream_st* cudaStream_t;
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorLaunchFailure = 719, cudaErrorUnknown = 999 };
typedef void (*cudaStreamCallback_t)(cudaStream_t, cudaError_t, void*);
cudaError_t cudaStreamAddCallback(cudaStream_t, cudaStreamCallback_t, void*, unsigned int);
#endif
