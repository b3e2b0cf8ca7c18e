// the command line program
#include <thread>
#include <mutex>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <chrono>
#include <memory>
#include <sstream>
#include <vector>
#include <array>
#include <cstring>
#include <CL/sycl.hpp>
#include <main.cpp>
