#pragma once
#include "ops.h"
struct Pools { Pool<float> f; Pool<double> d; };
void pool_build(Pools& p, u64 seed, int fam);
void pool_constants();      // registers the named constants as memory nobody may write
