/* C08 replay: same histories as C09, feasibility and trial points checked */
#define WHICH 8
#include "c09.c"
