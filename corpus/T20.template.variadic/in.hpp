#include <T20.template.variadic.hpp>
