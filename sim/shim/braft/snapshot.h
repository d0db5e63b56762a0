#pragma once
#include "braft/storage.h"
#include "braft/file_system_adaptor.h"
