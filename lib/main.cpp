#include "pbt.h"
PBT_MAIN
