#include <T81.custom_trampoline_with_args.hpp>
