#include <T32.call_guard.hpp>
