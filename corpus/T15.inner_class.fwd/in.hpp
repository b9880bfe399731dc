#include <T15.inner_class.fwd.hpp>
