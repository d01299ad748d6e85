#include <comp.hpp>
#include <core/ng_mpi.hpp>
