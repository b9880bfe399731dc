#include <T20.template.hpp>
