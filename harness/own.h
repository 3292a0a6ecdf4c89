// Selects the header under test: VT_V = 14 (C++14 headers) or 20, VT_KIND = 1 indirect, 2 polymorphic.
#ifndef VT_OWN_H
#define VT_OWN_H
#if VT_V == 14
#if VT_KIND == 1
#include "indirect_cxx14.h"
#else
#include "polymorphic_cxx14.h"
#endif
#define VT_INPLACE xyz::in_place_t{}
#define VT_INPLACE_TYPE(U) xyz::in_place_type_t<U>{}
#else
#if VT_KIND == 1
#include "indirect.h"
#else
#include "polymorphic.h"
#endif
#define VT_INPLACE std::in_place
#define VT_INPLACE_TYPE(U) std::in_place_type<U>
#endif
#endif
