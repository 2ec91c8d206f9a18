// The part of the HIP runtime that boost/fiber/hip/waitfor.hpp uses; implemented by the check (C30.cpp).
#ifndef FAKE_HIP_H
#define FAKE_HIP_H
struct ihipStream_t; typedef ihipStream_t* hipStream_t;
enum hipError_t { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorLaunchFailure = 719, hipErrorUnknown = 999 };
typedef void (*hipStreamCallback_t)(hipStream_t, hipError_t, void*);
hipError_t hipStreamAddCallback(hipStream_t, hipStreamCallback_t, void*, unsigned int);
#endif
