#pragma once
#include "engine/rocks_raw_engine.h"
