// What the generated programs of N02 write, and what they should have written. Lives in a library of its own,
// that is initialised first and finished last.
#pragma once
#include <ostream>
namespace vk {
std::ostream& sink();
// A line that must have been written to sink(): the label (without blanks), the text behind the marker.
void expect(char const* label, int indent, char const* text);
void fail(char const* key, char const* detail);
void event(int kind);
// The number of user channels constructed so far.
extern int channels;
extern int debug_on;    // Balance of libcw_do.on() in the main thread, 1 is on.
extern bool notice_on;  // Is dc::notice on, idem.
extern int phase;       // 0: before main, 1: main, 2: after main.
}
