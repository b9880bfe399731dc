#include <T15.copy.hpp>
