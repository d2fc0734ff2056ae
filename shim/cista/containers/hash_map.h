#pragma once
#include "cista/all.h"
