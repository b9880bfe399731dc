#include <T17.anonymous.hpp>
