#include <T05.default.hpp>
