#include <T12.operator.hpp>
