#include "crosw.h"
#define main cros2050_main
#define odd_parity cros2050_odd_parity
#include "cros2050.c"
TRANSLATE(translate_2050, cros2050_main, ros_2050)
