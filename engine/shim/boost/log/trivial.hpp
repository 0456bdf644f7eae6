#pragma once
// Logging stub: statements are type-checked and never executed.
#include <ostream>
#include <memory>
namespace sv_log { struct Null { template <class T> const Null &operator<<(const T &) const { return *this; }
  const Null &operator<<(std::ostream &(*)(std::ostream &)) const { return *this; } }; }
namespace boost { namespace log { inline namespace sv { namespace trivial { enum severity_level { trace, debug, info, warning, error, fatal }; } } } }
#define BOOST_LOG_TRIVIAL(lvl) if (true) {} else ::sv_log::Null()
