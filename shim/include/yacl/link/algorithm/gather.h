#pragma once
#include "yacl/link/verif_algo.h"
