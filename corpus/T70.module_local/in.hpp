#include <T70.module_local.hpp>
