// X01: one holder at a time, who sees what earlier holders did; trying tells the truth; who waits gets it.
#include "locks.h"
void kit_main(kit::K& k) { locks::sections<ce::thread_mutex>(k); }
