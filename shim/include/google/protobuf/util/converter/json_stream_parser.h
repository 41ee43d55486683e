#include "verif_shim.h"
