// Definitions the shared object under test needs at load time: log lines below FATAL are off; a FATAL one aborts.
#include <cstdlib>
extern "C" unsigned long v_split(unsigned long n) {
  static unsigned long s = 1;
  s = s * 6364136223846793005UL + 1442695040888963407UL;
  return n ? 1 + (s >> 33) % n : 0;
}
namespace logger {
enum Severity { DEBUG4 = 0, FATAL = 7 };
enum Channel { IR = 0 };
Severity g_min_active_severity = FATAL;
bool g_any_active_channels = false;
class Logger {
 public:
  explicit Logger(Severity);
  explicit Logger(Channel);
};
class DebugTimer {
  void* d_;

 public:
  DebugTimer(Severity, char const*, int, char const*);
  ~DebugTimer();
};
DebugTimer::DebugTimer(Severity, char const*, int, char const*) {}
DebugTimer::~DebugTimer() {}
Logger::Logger(Severity) { abort(); }
Logger::Logger(Channel) { abort(); }
}  // namespace logger
