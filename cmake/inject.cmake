# Included by CMake right after NgsAMG's project() call (CMAKE_PROJECT_NgsAMG_INCLUDE).
# Adds, at the end of the top-level CMakeLists, a precompiled header for the big NGSolve headers.
function(vp_inject)
  target_precompile_headers(NgsAMGlib PRIVATE "$<$<COMPILE_LANGUAGE:CXX>:/verif/cmake/pch.hpp>")
  target_precompile_headers(NgsAMG PRIVATE "$<$<COMPILE_LANGUAGE:CXX>:/verif/cmake/pch_py.hpp>")
endfunction()
cmake_language(DEFER CALL vp_inject)
