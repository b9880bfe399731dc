#include <T50.add_on_binder.hpp>
