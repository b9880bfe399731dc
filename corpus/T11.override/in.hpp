#include <T11.override.hpp>
