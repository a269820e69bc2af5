#ifndef VERIF_SHIM_ELEMENTS_AUX_H
#define VERIF_SHIM_ELEMENTS_AUX_H
#endif
