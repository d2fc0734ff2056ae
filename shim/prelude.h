// Force-included before every translation unit of the checks.
#pragma once
#include <cstdint>
#include <cstring>
#include <cassert>
#include <compare>
#include <string>
