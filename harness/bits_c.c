#include "bits_tab.h"
#include <crefl/bits.h>
#include <crefl/endian.h>
#define IMPL c
#define IMPL_NAME "C"
#include "bits_impl.h"
#include "endian_impl.h"
