# Included right after project(opensfm) through CMAKE_PROJECT_opensfm_INCLUDE.
# Builds the repository's python extension modules from their unmodified
# sources, against the pybind11-compatible header in shim/.
set(VPB_SHIM "${CMAKE_CURRENT_LIST_DIR}/shim")
set(VPB_PROBE "${CMAKE_CURRENT_LIST_DIR}/probe")
set(PYBIND11_INCLUDE_DIR "${VPB_SHIM}")
set(PYTHON_INCLUDE_DIRS "${VPB_PYTHON_INCLUDE}")
include_directories(BEFORE "${VPB_SHIM}")
include_directories(SYSTEM "${VPB_PYTHON_INCLUDE}" "${VPB_NUMPY_INCLUDE}")
set(VPB_MODULES "" CACHE INTERNAL "")

function(pybind11_add_module name)
  add_library(${name} MODULE ${ARGN})
  set_target_properties(${name} PROPERTIES PREFIX "" SUFFIX ".so")
  target_compile_options(${name} PRIVATE ${VPB_BINDING_FLAGS})
  set(VPB_MODULES "${VPB_MODULES};${name}" CACHE INTERNAL "")
endfunction()

function(vpb_finish)
  pybind11_add_module(vprobe "${VPB_PROBE}/vprobe.cc")
  target_link_libraries(vprobe PRIVATE bundle geometry foundation)
  target_include_directories(vprobe PRIVATE "${CMAKE_SOURCE_DIR}")
  foreach(m ${VPB_MODULES})
    set_property(TARGET ${m} PROPERTY LIBRARY_OUTPUT_DIRECTORY
                 "${CMAKE_BINARY_DIR}/modules")
  endforeach()
  add_custom_target(vpb_modules DEPENDS ${VPB_MODULES})
endfunction()
cmake_language(DEFER CALL vpb_finish)

macro(add_subdirectory dir)
  if(NOT "${dir}" STREQUAL "third_party/pybind11")
    _add_subdirectory(${dir} ${ARGN})
  endif()
endmacro()
