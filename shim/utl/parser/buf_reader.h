#pragma once
#include "utl/csv.h"
