#ifndef VERIF_SHIM_ELEMENTS_PHYS_H
#define VERIF_SHIM_ELEMENTS_PHYS_H
namespace Elements { namespace Units { constexpr double c_light = 2.99792458e8; } }  // SI, as the library and its tests expect
#endif
