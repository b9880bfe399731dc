#include <T42.stl.names.multimap.hpp>
