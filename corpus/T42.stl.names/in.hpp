#include <T42.stl.names.hpp>
