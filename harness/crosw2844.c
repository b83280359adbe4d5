#include "crosw.h"
#define main cros2844_main
#define odd_parity cros2844_odd_parity
#include "cros2844.c"
TRANSLATE(translate_2844, cros2844_main, ros_2844)
