#pragma once
#include "yacl/link/context.h"
#include "yacl/link/verif_algo.h"
