#include "mc_msgs.h"
