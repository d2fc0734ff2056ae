#pragma once
#include "cereal/archives/json.hpp"
