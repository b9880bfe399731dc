#include <T07.class.hpp>
