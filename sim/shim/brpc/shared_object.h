#pragma once
#include "butil/memory/ref_counted.h"
