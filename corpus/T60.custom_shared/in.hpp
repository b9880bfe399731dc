#include <T60.custom_shared.hpp>
