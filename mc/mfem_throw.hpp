// Turns mfem's fatal errors into C++ exceptions (test executable only).
#ifndef MFEM_THROW_HPP
#define MFEM_THROW_HPP
#include <exception>
#include <string>
struct MfemError : std::exception
{
   std::string msg;
   MfemError(const std::string &m) : msg(m) { }
   const char *what() const noexcept override { return msg.c_str(); }
};
namespace mfem
{
void mfem_error(const char *msg) { throw MfemError{msg ? msg : ""}; }
void mfem_warning(const char *) { }
}  // namespace mfem
#endif
