#include <T42.stl.names.map.hpp>
