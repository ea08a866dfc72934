#pragma once
#include "cc_tools_qt/tools.h"
