#include <T50.namespace_binder.hpp>
