/* the DART library as built without suffix trees */
#include "pdc_config.h"
#undef PDC_DART_SFX_TREE
