#ifndef VERIF_SHIM_ELEMENTS_EXPORT_H
#define VERIF_SHIM_ELEMENTS_EXPORT_H
#define ELEMENTS_API
#define ELEMENTS_EXPORT
#define ELEMENTS_IMPORT
#define ELEMENTS_LOCAL
#endif
