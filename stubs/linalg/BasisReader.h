#include "../librom.h"
