#include "macrodrv.inc"
