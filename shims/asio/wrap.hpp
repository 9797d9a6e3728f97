// Stand-in for asio's former <asio/wrap.hpp>: listener.cc only uses io_service::strand::wrap.
#ifndef VERIF_SHIM_ASIO_WRAP_HPP_
#define VERIF_SHIM_ASIO_WRAP_HPP_
#include "asio/strand.hpp"
#endif
