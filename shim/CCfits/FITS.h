#include "CCfits"
