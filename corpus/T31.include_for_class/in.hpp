#include <T31.include_for_class.hpp>
