#include <T70.options.hpp>
