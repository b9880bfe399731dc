#include <T15.inner_class.hpp>
