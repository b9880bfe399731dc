#include <T71.module_local.hpp>
