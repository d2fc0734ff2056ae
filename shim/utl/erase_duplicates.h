#pragma once
#include "utl/all.h"
