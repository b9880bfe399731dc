#include <T40.stl.hpp>
