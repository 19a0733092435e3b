#ifndef SIM_TF2_EXC_H
#define SIM_TF2_EXC_H
#include <stdexcept>
#include <string>
namespace tf2
{
class TransformException : public std::runtime_error { public: explicit TransformException(const std::string& e) : std::runtime_error(e) {} };
class ConnectivityException : public TransformException { public: explicit ConnectivityException(const std::string& e) : TransformException(e) {} };
class LookupException : public TransformException { public: explicit LookupException(const std::string& e) : TransformException(e) {} };
class ExtrapolationException : public TransformException { public: explicit ExtrapolationException(const std::string& e) : TransformException(e) {} };
class InvalidArgumentException : public TransformException { public: explicit InvalidArgumentException(const std::string& e) : TransformException(e) {} };
class TimeoutException : public TransformException { public: explicit TimeoutException(const std::string& e) : TransformException(e) {} };
}
#endif
