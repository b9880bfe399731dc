#include <T42.stl.names.multiset.hpp>
