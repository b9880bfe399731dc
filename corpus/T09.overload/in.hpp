#include <T09.overload.hpp>
