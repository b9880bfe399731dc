#include <T00.basic.hpp>
