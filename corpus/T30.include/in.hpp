#include <T30.include.hpp>
