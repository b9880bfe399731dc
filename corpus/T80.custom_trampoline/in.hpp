#include <T80.custom_trampoline.hpp>
