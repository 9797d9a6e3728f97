#define VERIF_FREE
#include "spin.cc"
