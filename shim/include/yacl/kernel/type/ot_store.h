#pragma once
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
#include "yacl/base/buffer.h"
namespace yacl::crypto { class OtRecvStore; class OtSendStore; }
