#include "life.h"
SCENARIO(aspects) { life::one(rng, 3, false); }
