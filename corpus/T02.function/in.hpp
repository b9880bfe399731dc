#include <T02.function.hpp>
