#include "vp_ros.h"
