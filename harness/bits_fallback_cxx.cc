#include "bits_tab.h"
#undef __GNUC__
#undef _MSC_VER
#include <crefl/bits.h>
#define IMPL fallback_cxx
#define IMPL_NAME "generic C++"
#include "bits_impl.h"
