// the library, or (USE_AMALG) the single-header distribution
#pragma once
#ifdef USE_AMALG
#include "hsm/gen/hsm.h"
#else
#include "hsm/hsm.h"
#include "hsm/details/utils/dunique_ptr.h"
#include "hsm/details/variant_queue.h"
#endif
