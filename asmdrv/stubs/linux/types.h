#pragma once
#include "../vstub.h"
typedef uint8_t __u8; typedef uint16_t __u16; typedef uint32_t __u32; typedef int32_t __s32; typedef int64_t __s64;
typedef unsigned long long __u64;
