#pragma once
#include "threadsafe/AIReadWriteMutex.h"
using AIReadWriteSpinLock = AIReadWriteMutex;
