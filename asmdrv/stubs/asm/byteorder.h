#pragma once
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
#define __LITTLE_ENDIAN 1234
#define __LITTLE_ENDIAN_BITFIELD
#else
#define __BIG_ENDIAN 4321
#define __BIG_ENDIAN_BITFIELD
#endif
