#include <T42.stl.names.set.hpp>
