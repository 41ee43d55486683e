#ifdef VERIF_SHIM_H_
#include_next <google/protobuf/util/type_resolver_util.h>
#else
#include "verif_shim.h"
#endif
