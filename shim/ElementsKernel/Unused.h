#ifndef VERIF_SHIM_ELEMENTS_UNUSED_H
#define VERIF_SHIM_ELEMENTS_UNUSED_H
#define ELEMENTS_UNUSED __attribute__((unused))
#endif
