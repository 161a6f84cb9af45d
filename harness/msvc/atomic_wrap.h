// lib/h/ce/atomic_msvc_x86.h compiled by clang: Microsoft's type names are mapped to types of their sizes, and the intrinsics
// (extern "C" functions in that header) are the ones in atomics.cpp, which the simulator carries out.
#pragma once
#include "ce/ce.h"
#include <emmintrin.h>
typedef long long sim_int64;
#define _MSC_VER 1930
#define __int8 char
#define __int16 short
#define __int32 int
#define __int64 sim_int64
#define long int
#include "ce/atomic_msvc_x86.h"
#undef long
#undef __int64
#undef __int32
#undef __int16
#undef __int8
#undef _MSC_VER
namespace ce { template<class T> using atomic_val_t = detail::alu_t<T>; }
