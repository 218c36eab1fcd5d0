#include "interface.h"
void demo_shim_open(void) { interface_open(NULL); }
