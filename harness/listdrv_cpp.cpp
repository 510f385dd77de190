#include "listdrv.c"
