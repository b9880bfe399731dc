#include <T61.smart_holder.hpp>
