#include "crosw.h"
#define main cros2030_main
#define odd_parity cros2030_odd_parity
#include "cros2030.c"
TRANSLATE(translate_2030, cros2030_main, ros_2030)
