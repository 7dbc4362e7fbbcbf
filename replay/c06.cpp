#include "life.h"
SCENARIO(callbacks) { life::one(rng, 1, false); }
SCENARIO(plain) { life::one(rng, 0, false); }
