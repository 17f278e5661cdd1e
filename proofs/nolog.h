// For the verifier only: the logger is absent, so log statements (which print and have no other effect) are skipped.
#pragma once
#ifdef IRV
#include "logger.h"
#include "exceptions.cpp"
#include <string>
template class std::__cxx11::basic_string<char>;    // the real libstdc++ code, compiled into the unit
namespace securefs
{
std::unique_ptr<Logger> global_logger;
Logger::~Logger() {}
}
#endif
