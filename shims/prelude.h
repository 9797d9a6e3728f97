// Force-included: standard headers which some of the repository's headers forget.
#include <cassert>
#include <cstddef>
#include <memory>
#include <string>
#include <functional>
#include "asio/io_service.hpp"
