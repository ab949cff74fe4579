#include "common.h"
#include "pkgdbh.h"
#include "rm_common.h"
void battery(){ rmBattery(true); }
