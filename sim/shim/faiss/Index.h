#pragma once
#include "faiss/mini.h"
