#include <T10.virtual_inheritance.hpp>
