#pragma once
#include <heyoka/expression.hpp>
