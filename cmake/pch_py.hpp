#include <comp.hpp>
#include <core/ng_mpi.hpp>
#include <python_ngstd.hpp>
