// X02: one writer or any number of readers.
#include "locks.h"
void kit_main(kit::K& k) { locks::sections<ce::thread_shared_mutex>(k); }
