// observation points shared by all harnesses
#pragma once
#include <cstddef>
#define ENTRY extern "C" __attribute__((used)) void
extern "C" {
void vc_dense(const double*, size_t rows, size_t cols, size_t size);
void vc_densef(const float*, size_t rows, size_t cols, size_t size);
void vc_real(double);
void vc_int(long);
void vc_bool(bool);
void vc_addr(const void*);
void vc_point(int);                 // a named program point
void vc_counts(size_t, size_t, size_t, size_t);
}
