// The event loop of FLTK: timeouts, awake handlers, Fl::lock() in virtual time, run by a (controlled) thread
#pragma once
#include <FL/Fl.H>
#include <cstddef>

namespace fake_fl {
void make(int fiber);  // a new process
void close();          // its end
size_t timeouts();     // registered
size_t awakes();       // handlers, which are not invoked yet
void kick();           // Fl::awake() by somebody else
bool waiting();
} // namespace fake_fl
