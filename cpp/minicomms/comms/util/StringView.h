#pragma once
#include "comms/mini.h"
