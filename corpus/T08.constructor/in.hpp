#include <T08.constructor.hpp>
