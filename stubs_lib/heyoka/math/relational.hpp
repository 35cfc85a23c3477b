#include <heyoka/expression.hpp>
