/* the generic implementations: what a compiler that is neither GCC-like nor Microsoft's gets, and a
   system without byte swap functions */
#include <stdint.h>
#include "bits_tab.h"
#undef __linux__
#undef __GLIBC__
#define bswap16 vf_fb_bswap16
#define bswap32 vf_fb_bswap32
#define bswap64 vf_fb_bswap64
#include <crefl/endian.h>
#undef __GNUC__
#undef _MSC_VER
#include <crefl/bits.h>
#define IMPL fallback_c
#define IMPL_NAME "generic C"
#include "bits_impl.h"
#include "endian_impl.h"
