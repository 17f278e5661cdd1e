#pragma once
#include "absl/shim.h"
