#include <pybind11/pyvotess.cpp>
int verif_device_cpu() { return (int) votess::device::cpu; }
int verif_device_gpu() { return (int) votess::device::gpu; }
