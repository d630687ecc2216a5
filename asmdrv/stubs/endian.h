#pragma once
#define LITTLE_ENDIAN 1234
#define BIG_ENDIAN 4321
#define __LITTLE_ENDIAN 1234
#define __BIG_ENDIAN 4321
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
#define BYTE_ORDER 1234
#define __BYTE_ORDER 1234
#else
#define BYTE_ORDER 4321
#define __BYTE_ORDER 4321
#endif
