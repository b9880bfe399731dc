#include <T33.buffer_protocol.hpp>
