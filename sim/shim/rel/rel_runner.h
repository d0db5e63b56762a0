#pragma once
#include "expr/operand.h"
namespace dingodb { namespace rel { class RelRunner {}; } }
namespace rel { class RelRunner {}; }
